SPECIFICATION Spec
INVARIANTS ChargeConserved PowerIsConstant CoreLossless CoreBalance CentreTapLossless Relaxed Bounded
