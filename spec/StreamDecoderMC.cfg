CONSTANTS MaxLen = 8  Chunk = 2
SPECIFICATION Spec
INVARIANTS Exact Canonical Prompt
CHECK_DEADLOCK FALSE
