SPECIFICATION Spec
INVARIANTS RoundTrip OnlyItsType Prefixes Sizes Sizes64 Texts
CHECK_DEADLOCK FALSE
