SPECIFICATION Spec
CONSTANTS DiskPage = 2 MaxN = 3 SyncMeta = TRUE MetaFirst = TRUE SyncEnd = TRUE
INVARIANTS RefusedOrComplete
CHECK_DEADLOCK FALSE
