SPECIFICATION TSpec
ALIAS Where
INVARIANTS InContainer BlockIsWindow TExclusiveWriters TNoReadWriteRace LazyShape NoDangling
