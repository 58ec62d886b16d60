------------------------------ MODULE Layouts ------------------------------
(***************************************************************************)
(* The nine storage layouts.  A layout is a record                         *)
(*   [k |-> kind, r |-> rows, c |-> columns, s0 |-> , s1 |-> ]             *)
(* where s0, s1 are the creation strides of the arbitrary-stride kinds     *)
(* (0 otherwise).  Positions are 0-based <<row, col>>, logical             *)
(* one-dimensional indices and memory locations are 0-based naturals.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Kinds     == {"RM", "CM", "RV", "CV", "ASRM", "ASCM", "ASRV", "ASCV", "UT"}
RowKinds  == {"RM", "ASRM", "RV", "ASRV"}    \* enumerated row by row
ColKinds  == {"CM", "ASCM", "CV", "ASCV"}    \* enumerated column by column
BaseKinds == {"RM", "CM", "RV", "CV", "UT"}  \* determined by the dimension

Lay(k, r, c)          == [k |-> k, r |-> r, c |-> c, s0 |-> 0, s1 |-> 0]
SLay(k, r, c, s0, s1) == [k |-> k, r |-> r, c |-> c, s0 |-> s0, s1 |-> s1]

\* Shapes a kind can have
ValidShape(k, r, c) == CASE k \in {"RV", "ASRV"} -> r = 1
                         [] k \in {"CV", "ASCV"} -> c = 1
                         [] k = "UT" -> r = c
                         [] OTHER -> TRUE

Tri(p) == (p * (p + 1)) \div 2

NElem(L) == IF L.k = "UT" THEN Tri(L.r) ELSE L.r * L.c

InDim(L, row, col)  == row >= 0 /\ col >= 0 /\ row < L.r /\ col < L.c
Stored(L, row, col) == InDim(L, row, col) /\ (L.k = "UT" => col >= row)
StoredSet(L) == {p \in (0 .. L.r - 1) \X (0 .. L.c - 1) : L.k = "UT" => p[2] >= p[1]}

(* Logical order *)
To1D(L, row, col) ==
  CASE L.k \in RowKinds -> row * L.c + col
    [] L.k \in ColKinds -> col * L.r + row
    [] L.k = "UT"       -> Tri(L.r - 1 - row) + (col - row)

\* the largest p in lo..hi with Tri(p) <= i, given Tri(lo) <= i < Tri(hi + 1)
RECURSIVE TriRoot(_, _, _)
TriRoot(i, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF Tri(mid) <= i THEN TriRoot(i, mid, hi) ELSE TriRoot(i, lo, mid - 1)

To2D(L, i) ==
  CASE L.k \in RowKinds -> <<i \div L.c, i % L.c>>
    [] L.k \in ColKinds -> <<i % L.r, i \div L.r>>
    [] L.k = "UT"       -> LET p == TriRoot(i, 0, L.r - 1)
                               row == L.r - 1 - p
                           IN <<row, row + (i - Tri(p))>>

(* Physical placement *)
HasStride(L) == L.k # "UT"
Stride(L) ==
  CASE L.k = "RM" -> <<L.c, 1>>
    [] L.k = "CM" -> <<1, L.r>>
    [] L.k \in {"RV", "CV"} -> <<1, 1>>
    [] L.k = "ASRV" -> <<1, L.s1>>
    [] L.k = "ASCV" -> <<L.s0, 1>>
    [] OTHER -> <<L.s0, L.s1>>

Raw(L, row, col) ==
  IF L.k = "UT" THEN To1D(L, row, col)
  ELSE row * Stride(L)[1] + col * Stride(L)[2]

Raw1(L, i) == LET p == To2D(L, i) IN Raw(L, p[1], p[2])

\* number of container cells the layout needs
Extent(L) == IF NElem(L) = 0 THEN 0 ELSE Raw1(L, NElem(L) - 1) + 1
\* can a matrix be created over a container of n cells?
Fits(L, n) == NElem(L) <= n /\ Extent(L) <= n

IndexKind(k) == CASE k \in {"RM", "ASRM"} -> "RM"
                  [] k \in {"CM", "ASCM"} -> "CM"
                  [] k \in {"RV", "ASRV"} -> "RV"
                  [] k \in {"CV", "ASCV"} -> "CV"
                  [] k = "UT" -> "UT"
IndexLayout(L) == Lay(IndexKind(L.k), L.r, L.c)

StridedKind(k) == CASE k \in {"RM", "ASRM"} -> "ASRM"
                    [] k \in {"CM", "ASCM"} -> "ASCM"

(* Properties of a layout, checked over all layouts of a finite range (and  *)
(* for all dimensions in LayoutProofs)                                      *)
IndexBijection(L) ==
  /\ \A i \in 0 .. NElem(L) - 1 :
       LET p == To2D(L, i) IN Stored(L, p[1], p[2]) /\ To1D(L, p[1], p[2]) = i
  /\ \A p \in StoredSet(L) :
       LET i == To1D(L, p[1], p[2]) IN i \in 0 .. NElem(L) - 1 /\ To2D(L, i) = p
Before(L, p, q) ==
  CASE L.k \in RowKinds -> p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
    [] L.k \in ColKinds -> p[2] < q[2] \/ (p[2] = q[2] /\ p[1] < q[1])
    [] L.k = "UT"       -> p[1] > q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Ordered(L) == \A i, j \in 0 .. NElem(L) - 1 : i < j => Before(L, To2D(L, i), To2D(L, j))
FirstAtZero(L) == NElem(L) > 0 => Raw1(L, 0) = 0
Dense(L) == {Raw(L, p[1], p[2]) : p \in StoredSet(L)} = 0 .. NElem(L) - 1
Injective(L) == \A p, q \in StoredSet(L) : p # q => Raw(L, p[1], p[2]) # Raw(L, q[1], q[2])
WithinExtent(L) == \A p \in StoredSet(L) : Raw(L, p[1], p[2]) < Extent(L)
=============================================================================
