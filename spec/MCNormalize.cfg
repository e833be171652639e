SPECIFICATION Spec
CONSTANTS Step = 6000 Methods = {"peak", "rms", "loud"}
INVARIANTS Inv Idem
CHECK_DEADLOCK FALSE
