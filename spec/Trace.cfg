SPECIFICATION Spec
INVARIANT TypeOK
CONSTANT Shards = 64
CHECK_DEADLOCK FALSE
