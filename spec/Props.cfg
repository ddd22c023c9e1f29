INIT GInit
NEXT GNext
CONSTANTS PoolBatchLog = 12
 MemberBatch = 256
INVARIANTS Emit CursorInBounds AcceptConsumesAll RefsClosed WideSlots RefsAcyclic
 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P20
VIEW GView
CHECK_DEADLOCK FALSE
