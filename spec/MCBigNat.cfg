SPECIFICATION Spec
INVARIANTS Rounds Sum Product Differ Order Laws Long
CHECK_DEADLOCK FALSE
