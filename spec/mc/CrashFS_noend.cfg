SPECIFICATION Spec
CONSTANTS DiskPage = 2 MaxN = 3 SyncMeta = TRUE MetaFirst = FALSE SyncEnd = FALSE
INVARIANTS Durable
CHECK_DEADLOCK FALSE
