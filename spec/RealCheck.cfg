INIT Init
NEXT Next
INVARIANTS EqBits Funs Laws
CHECK_DEADLOCK FALSE
