INIT CInit
NEXT CNext
INVARIANTS Emit RecogniserExact Prefixes
CHECK_DEADLOCK FALSE
