-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Decimal numbers for TLC.  TLC's integers are 32 bit and it has no        *)
(* reals, but the system under specification computes with voltages and     *)
(* currents.  A number is a string holding a decimal literal ("1", "-0.25", *)
(* "2.4e3"); the operators below are evaluated by java/Num.java with 50     *)
(* significant digits, so the specification's own arithmetic is exact for   *)
(* every purpose here and all rounding belongs to the implementation.       *)
(***************************************************************************)
LOCAL INSTANCE Sequences
LOCAL INSTANCE Integers

NAdd(a, b) == CHOOSE r \in STRING : TRUE
NSub(a, b) == CHOOSE r \in STRING : TRUE
NMul(a, b) == CHOOSE r \in STRING : TRUE
NDiv(a, b) == CHOOSE r \in STRING : TRUE
NNeg(a)    == CHOOSE r \in STRING : TRUE
NAbs(a)    == CHOOSE r \in STRING : TRUE
NSqrt(a)   == CHOOSE r \in STRING : TRUE
NSin(a)    == CHOOSE r \in STRING : TRUE
NCos(a)    == CHOOSE r \in STRING : TRUE
NAtan2(y, x) == CHOOSE r \in STRING : TRUE
\* Natural logarithm and real power of a positive number.
NLn(a)     == CHOOSE r \in STRING : TRUE
NPow(a, e) == CHOOSE r \in STRING : TRUE
NMax(a, b) == CHOOSE r \in STRING : TRUE
NMin(a, b) == CHOOSE r \in STRING : TRUE
NLt(a, b)  == CHOOSE r \in BOOLEAN : TRUE
NLe(a, b)  == CHOOSE r \in BOOLEAN : TRUE
NEq(a, b)  == CHOOSE r \in BOOLEAN : TRUE
\* An integer as a number, and (for integral numbers) back.
NInt(i)    == CHOOSE r \in STRING : TRUE
NToInt(a)  == CHOOSE r \in Int : TRUE
\* Fixed-point rendering with d digits after the point, rounded half to even
\* from the exact value, as printf("%.df") does for a double.
NFix(a, d) == CHOOSE r \in STRING : TRUE
\* Sum of a sequence of numbers, and dot product of two.
NSum(s)    == CHOOSE r \in STRING : TRUE
NDot(s, t) == CHOOSE r \in STRING : TRUE
NPi == "3.14159265358979323846264338327950288419716939937511"

NGt(a, b) == NLt(b, a)
NGe(a, b) == NLe(b, a)
NIsZero(a) == NEq(a, "0")
\* |a - b| <= abs + rel * max(|a|, |b|)
NClose(a, b, absTol, relTol) ==
  NLe(NAbs(NSub(a, b)), NAdd(absTol, NMul(relTol, NMax(NAbs(a), NAbs(b)))))
=============================================================================
