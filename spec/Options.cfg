INIT OInit
NEXT ONext
VIEW OView
INVARIANT AsLastSet
PROPERTY UsingIsReading
CHECK_DEADLOCK FALSE
