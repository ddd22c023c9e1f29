INIT GInit
NEXT GNext
CONSTANTS PoolBatchLog = 12
 MemberBatch = 256
INVARIANTS Emit CursorInBounds AcceptConsumesAll RefsClosed WideSlots RefsAcyclic
VIEW GView
CHECK_DEADLOCK FALSE
