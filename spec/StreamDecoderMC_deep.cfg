CONSTANTS MaxLen = 10  Chunk = 3
SPECIFICATION Spec
INVARIANTS Exact Canonical Prompt
CHECK_DEADLOCK FALSE
