import java.math.*;
import tlc2.value.impl.*;
import util.UniqueString;

/** Evaluates the operators of spec/Num.tla: decimals carried as TLA+ strings. */
public class Num {
  static final MathContext MC = new MathContext(50, RoundingMode.HALF_EVEN);
  static BigDecimal d(Value v) {
    String s = ((StringValue) v).val.toString();
    return new BigDecimal(s);
  }
  static Value s(BigDecimal x) {
    x = x.round(MC);
    if (x.signum() == 0) return new StringValue("0");
    x = x.stripTrailingZeros();
    return new StringValue(x.toString());
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value NAdd(Value a, Value c) { return s(d(a).add(d(c))); }
  public static Value NSub(Value a, Value c) { return s(d(a).subtract(d(c))); }
  public static Value NMul(Value a, Value c) { return s(d(a).multiply(d(c))); }
  public static Value NDiv(Value a, Value c) { return s(d(a).divide(d(c), MC)); }
  public static Value NNeg(Value a) { return s(d(a).negate()); }
  public static Value NAbs(Value a) { return s(d(a).abs()); }
  public static Value NSqrt(Value a) { return s(d(a).sqrt(MC)); }
  public static Value NMax(Value a, Value c) { return s(d(a).max(d(c))); }
  public static Value NMin(Value a, Value c) { return s(d(a).min(d(c))); }
  public static Value NLt(Value a, Value c) { return b(d(a).compareTo(d(c)) < 0); }
  public static Value NLe(Value a, Value c) { return b(d(a).compareTo(d(c)) <= 0); }
  public static Value NEq(Value a, Value c) { return b(d(a).compareTo(d(c)) == 0); }
  public static Value NInt(Value a) { return s(BigDecimal.valueOf(((IntValue) a).val)); }
  public static Value NToInt(Value a) { return IntValue.gen(d(a).intValueExact()); }
  public static Value NFix(Value a, Value n) {
    return new StringValue(d(a).setScale(((IntValue) n).val, RoundingMode.HALF_EVEN).toPlainString());
  }
  public static Value NSum(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    BigDecimal r = BigDecimal.ZERO;
    for (Value e : t.elems) r = r.add(d(e));
    return s(r);
  }
  public static Value NDot(Value v, Value w) {
    TupleValue t = (TupleValue) v.toTuple(), u = (TupleValue) w.toTuple();
    BigDecimal r = BigDecimal.ZERO;
    for (int i = 0; i < t.elems.length; i++) r = r.add(d(t.elems[i]).multiply(d(u.elems[i])));
    return s(r);
  }

  static final BigDecimal PI =
    new BigDecimal("3.14159265358979323846264338327950288419716939937510582097494459230781640629");
  static final MathContext W = new MathContext(70, RoundingMode.HALF_EVEN);
  static BigDecimal reduce(BigDecimal x) {
    BigDecimal two = PI.multiply(BigDecimal.valueOf(2));
    BigDecimal k = x.divide(two, 0, RoundingMode.HALF_EVEN);
    return x.subtract(two.multiply(k));
  }
  static BigDecimal series(BigDecimal x, boolean sine) {
    x = reduce(x);
    BigDecimal x2 = x.multiply(x, W), term = sine ? x : BigDecimal.ONE, sum = term;
    for (int n = sine ? 2 : 1; n < 200; n += 2) {
      term = term.multiply(x2, W).divide(BigDecimal.valueOf((long) n * (n + 1)), W).negate();
      sum = sum.add(term, W);
      if (term.abs().compareTo(new BigDecimal("1e-65")) < 0) break;
    }
    return sum;
  }
  public static Value NSin(Value a) { return s(series(d(a), true)); }
  public static Value NCos(Value a) { return s(series(d(a), false)); }
  static BigDecimal atanh2(BigDecimal z) {   // 2 atanh z, |z| <= 1/3
    BigDecimal z2 = z.multiply(z, W), p = z, sum = z;
    for (int n = 3; n < 600; n += 2) {
      p = p.multiply(z2, W);
      BigDecimal t = p.divide(BigDecimal.valueOf(n), W);
      sum = sum.add(t, W);
      if (t.abs().compareTo(new BigDecimal("1e-68")) < 0) break;
    }
    return sum.multiply(BigDecimal.valueOf(2));
  }
  static final BigDecimal LN2 = atanh2(BigDecimal.ONE.divide(BigDecimal.valueOf(3), W));
  /** Natural logarithm of a positive number. */
  public static Value NLn(Value a) {
    BigDecimal x = d(a), two = BigDecimal.valueOf(2);
    if (x.signum() <= 0) throw new ArithmeticException("ln of " + x);
    int k = 0;
    while (x.compareTo(new BigDecimal("1.4")) > 0) { x = x.divide(two, W); k++; }
    while (x.compareTo(new BigDecimal("0.7")) < 0) { x = x.multiply(two, W); k--; }
    BigDecimal z = x.subtract(BigDecimal.ONE).divide(x.add(BigDecimal.ONE), W);
    return s(atanh2(z).add(LN2.multiply(BigDecimal.valueOf(k))));
  }
  /** Real power of a positive number. */
  public static Value NPow(Value a, Value e) {
    BigDecimal x = d(a), p = d(e);
    if (x.signum() == 0) return s(BigDecimal.ZERO);
    BigDecimal l = d(NLn(s(x))).multiply(p, W);
    // e^l = 2^k e^r
    BigDecimal k = l.divide(LN2, 0, RoundingMode.HALF_EVEN), r = l.subtract(k.multiply(LN2, W), W);
    BigDecimal t = BigDecimal.ONE, sum = BigDecimal.ONE;
    for (int n = 1; n < 200; n++) {
      t = t.multiply(r, W).divide(BigDecimal.valueOf(n), W);
      sum = sum.add(t, W);
      if (t.abs().compareTo(new BigDecimal("1e-68")) < 0) break;
    }
    int n = k.intValueExact();
    BigDecimal two = BigDecimal.valueOf(2);
    return s(n >= 0 ? sum.multiply(two.pow(n), W) : sum.divide(two.pow(-n), W));
  }
  /** Good to double precision and refined once by Newton's method on the angle. */
  public static Value NAtan2(Value y, Value x) {
    BigDecimal Y = d(y), X = d(x);
    if (Y.signum() == 0 && X.signum() == 0) return s(BigDecimal.ZERO);
    BigDecimal m = Y.abs().max(X.abs());
    Y = Y.divide(m, W); X = X.divide(m, W);
    BigDecimal r = Y.multiply(Y).add(X.multiply(X)).sqrt(W);
    BigDecimal t = new BigDecimal(Math.atan2(Y.doubleValue(), X.doubleValue()));
    for (int i = 0; i < 3; i++) {
      BigDecimal sn = series(t, true), cs = series(t, false);
      // sin(angle - t) = (Y cos t - X sin t)/r
      t = t.add(Y.multiply(cs).subtract(X.multiply(sn)).divide(r, W), W);
    }
    return s(t);
  }
}
