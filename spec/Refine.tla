------------------------------- MODULE Refine -------------------------------
(* The refinement mapping from Householder (memory, layouts) to Logical.   *)
EXTENDS Householder

RECURSIVE RootOf(_)
RootOf(h) == IF objs[h].par = 0 THEN h ELSE RootOf(objs[h].par)
RECURSIVE OrgOf(_)
OrgOf(h) == IF objs[h].par = 0 THEN <<0, 0>>
            ELSE LET o == OrgOf(objs[h].par) IN <<o[1] + objs[h].org[1], o[2] + objs[h].org[2]>>

OrdOf(k) == CASE k \in RowKinds -> "row" [] k \in ColKinds -> "col" [] OTHER -> "tri"

MapObjs == [h \in DOMAIN objs |->
  LET o == objs[h] IN
  [t |-> o.t, r |-> o.lay.r, c |-> o.lay.c, ord |-> OrdOf(o.lay.k),
   root |-> IF o.t = "d" THEN RootOf(h) ELSE 0,
   org |-> IF o.t = "d" THEN OrgOf(h) ELSE <<0, 0>>,
   kids |-> o.kids, s |-> o.s, st |-> o.st, acc |-> o.acc, src |-> o.src]]

MapVals == [h \in {x \in DOMAIN objs : objs[x].t = "d" /\ objs[x].par = 0} |->
  [p \in StoredSet(LayOf(h)) |-> Val(h, p[1], p[2])]]

Log == INSTANCE Logical WITH lses <- ses, lobj <- MapObjs, lval <- MapVals, lrng <- rng

\* elements of one matrix that share a cell (strides 0 and the like) are
\* outside of the layout-free description
Separate == \A h \in DenseHandles : Cardinality(Footprint(h)) = Cardinality(StoredSet(LayOf(h)))
=============================================================================
