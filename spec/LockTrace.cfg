INIT TInit
NEXT TNext
VIEW TView
INVARIANT Verdict
CHECK_DEADLOCK FALSE
