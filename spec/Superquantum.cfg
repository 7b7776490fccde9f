SPECIFICATION Spec
INVARIANTS EqualShares Normalised
PROPERTY Steps
CHECK_DEADLOCK FALSE
