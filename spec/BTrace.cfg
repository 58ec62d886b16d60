SPECIFICATION TSpec
ALIAS Where
INVARIANTS NoDangling MemoryThere SharedReads
