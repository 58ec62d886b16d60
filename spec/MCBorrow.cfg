SPECIFICATION Spec
CONSTANTS Depth = 3
          Emit = 0
VIEW View
INVARIANTS NoDangling MemoryThere SharedReads Sound Free EmitState
CHECK_DEADLOCK FALSE
