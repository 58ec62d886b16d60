------------------------------ MODULE MCLayouts ------------------------------
(* All layouts of a finite range, one state each.                          *)
EXTENDS BigLayouts, TLC
CONSTANTS MaxDim,      \* rows, columns up to this
          MaxStride    \* strides up to this

VARIABLE L

Dims == 0 .. MaxDim
Strides == 0 .. MaxStride

All == {Lay(k, r, c) : k \in {"RM", "CM"}, r \in Dims, c \in Dims}
       \cup {Lay("RV", 1, c) : c \in Dims} \cup {Lay("CV", r, 1) : r \in Dims}
       \cup {Lay("UT", r, r) : r \in 0 .. 2 * MaxDim}
       \cup {SLay("ASRV", 1, c, 0, s) : c \in Dims, s \in Strides}
       \cup {SLay("ASCV", r, 1, s, 0) : r \in Dims, s \in Strides}
       \cup {SLay(k, r, c, s0, s1) : k \in {"ASRM", "ASCM"}, r \in Dims, c \in Dims, s0 \in Strides, s1 \in Strides}

Init == L \in All
Next == UNCHANGED L
Spec == Init /\ [][Next]_L

Bijection == IndexBijection(L)
InOrder   == Ordered(L)
FirstZero == FirstAtZero(L)
Filled    == L.k \in BaseKinds => Dense(L) /\ Injective(L)
Extents   == WithinExtent(L)
\* strides that keep rows (or columns) apart keep all elements apart
Apart     == (L.k \in {"ASRM", "ASCM"} /\ L.s0 > 0 /\ L.s1 > 0
              /\ (L.s0 >= L.s1 * L.c \/ L.s1 >= L.s0 * L.r)) => Injective(L)
\* the contiguous layouts are the strided ones with their own strides
SameAsStrided ==
  L.k \in {"RM", "CM"} =>
    LET S == SLay(StridedKind(L.k), L.r, L.c, Stride(L)[1], Stride(L)[2]) IN
    \A p \in StoredSet(L) : Raw(L, p[1], p[2]) = Raw(S, p[1], p[2]) /\ To1D(L, p[1], p[2]) = To1D(S, p[1], p[2])
\* the index layout has the same order, and is contiguous in that order
IndexOrder ==
  LET I == IndexLayout(L) IN
  /\ NElem(I) = NElem(L) /\ I.k \in BaseKinds
  /\ \A i \in 0 .. NElem(L) - 1 : To2D(I, i) = To2D(L, i) /\ Raw1(I, i) = i
\* the rank of a position in the documented order, by counting
RankIsIndex == \A p \in StoredSet(L) :
  To1D(L, p[1], p[2]) = Cardinality({q \in StoredSet(L) : Before(L, q, p)})
\* a position of one layout, translated through the index of another of the
\* same order, is the same position (what lazy operations rely on)
Translation == \A k \in Kinds : IndexKind(k) = IndexKind(L.k) =>
  \A i \in 0 .. NElem(L) - 1 : To2D(SLay(k, L.r, L.c, 1, 1), i) = To2D(L, i)

(* agreement of the arbitrary-precision definitions *)
Big == [k |-> L.k, r |-> ToBig(L.r), c |-> ToBig(L.c), s0 |-> ToBig(L.s0), s1 |-> ToBig(L.s1)]
BPos(p) == <<ToBig(p[1]), ToBig(p[2])>>
BigAgrees ==
  /\ BNElem2(Big) = ToBig(2 * NElem(L))
  /\ \A p \in (0 .. L.r + 1) \X (0 .. L.c + 1) : BStored(Big, BPos(p)) <=> Stored(L, p[1], p[2])
  /\ HasStride(L) => BStride(Big) = <<ToBig(Stride(L)[1]), ToBig(Stride(L)[2])>>
  /\ \A p \in StoredSet(L) : \A i \in {To1D(L, p[1], p[2]) + d : d \in {-1, 0, 1}} : i >= 0 =>
       (IsIndex(Big, BPos(p), ToBig(i)) <=> i = To1D(L, p[1], p[2]))
  /\ \A p \in StoredSet(L) : IsRaw(Big, BPos(p), ToBig(To1D(L, p[1], p[2])), ToBig(Raw(L, p[1], p[2])))
  /\ \A n \in 0 .. Extent(L) + 2 : BFits(Big, ToBig(n)) <=> Fits(L, n)
=============================================================================
