INIT IInit
NEXT LNext
INVARIANTS TypeOK EmitLong
CHECK_DEADLOCK FALSE
