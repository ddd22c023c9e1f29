INIT IInit
NEXT INext
VIEW IView
INVARIANTS TypeOK InOrder
PROPERTIES Independent StaysFinished
CHECK_DEADLOCK FALSE
