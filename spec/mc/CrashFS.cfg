SPECIFICATION Spec
CONSTANTS DiskPage = 2 MaxN = 3 SyncMeta = TRUE MetaFirst = FALSE SyncEnd = TRUE
INVARIANTS RefusedOrComplete Durable BlocksDurable
CHECK_DEADLOCK FALSE
