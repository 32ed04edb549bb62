SPECIFICATION Spec
CONSTANTS W = 8 B = 2 MaxCap = 21
INVARIANT Refines
INVARIANT CacheSound
INVARIANT CacheEnd
INVARIANT EmptyAligned
CHECK_DEADLOCK FALSE
