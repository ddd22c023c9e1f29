INIT JInit
NEXT JNext
CONSTANTS PoolBatchLog = 12
 MemberBatch = 256
INVARIANTS Verdict CursorInBounds AcceptConsumesAll RefsClosed WideSlots RefsAcyclic
VIEW JView
CHECK_DEADLOCK FALSE
