SPECIFICATION TSpec
INVARIANTS TypeOK InRange UniqueIds ProbOK
PROPERTY Steps
CHECK_DEADLOCK FALSE
