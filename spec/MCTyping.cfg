SPECIFICATION Spec
CONSTANTS Emit = 0
          Wide = FALSE
INVARIANTS Disjoint Symmetric Numbered EmitCall
CHECK_DEADLOCK FALSE
