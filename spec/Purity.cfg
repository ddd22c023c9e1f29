INIT PInit
NEXT PNext
VIEW PView
INVARIANTS AliveWasParsed WornFirst BufferIsLast
CHECK_DEADLOCK FALSE
