SPECIFICATION Spec
CONSTANTS Model = "view"
          Depth = 2
          Emit = 0
          Cplx = FALSE
VIEW View
INVARIANTS InContainer BlockIsWindow ExclusiveWriters NoReadWriteRace LazyShape NoDangling
PROPERTIES RefinesLogical QuietCalls Refusals OnlyElements OneCell OperandsKept InOwnContainer FreshMemory Partition
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
