SPECIFICATION Spec
INVARIANTS Proper
PROPERTY Steps
CHECK_DEADLOCK FALSE
