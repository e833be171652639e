SPECIFICATION Spec
CONSTANTS Step = 3000 Methods = {"peak", "rms", "loud"}
INVARIANTS Inv Idem
CHECK_DEADLOCK FALSE
