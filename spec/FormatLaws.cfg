CONSTANT MaxKeys = 3
INIT Init
NEXT Next
INVARIANT ReadsBack
CHECK_DEADLOCK FALSE
