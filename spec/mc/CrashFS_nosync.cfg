SPECIFICATION Spec
CONSTANTS DiskPage = 2 MaxN = 3 SyncMeta = FALSE MetaFirst = FALSE SyncEnd = TRUE
INVARIANTS RefusedOrComplete
CHECK_DEADLOCK FALSE
