SPECIFICATION Spec
CONSTANTS MaxDim = 4
          MaxStride = 5
INVARIANTS Bijection InOrder FirstZero Filled Extents Apart SameAsStrided IndexOrder RankIsIndex Translation BigAgrees
CHECK_DEADLOCK FALSE
