SPECIFICATION Spec
INVARIANTS SelectLeavesOne
CHECK_DEADLOCK FALSE
