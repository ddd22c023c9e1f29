INIT LInit
NEXT LNext
VIEW LView
INVARIANTS Releases AllFree EmitStuck EmitSelf EmitPlans
CHECK_DEADLOCK FALSE
