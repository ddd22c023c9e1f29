INIT FInit
NEXT FNext
CONSTANTS PoolBatchLog = 12
 MemberBatch = 256
CHECK_DEADLOCK FALSE
