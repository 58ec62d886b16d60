---------------------------- MODULE Householder ----------------------------
(***************************************************************************)
(* State machine of the householder matrix library.                        *)
(*                                                                         *)
(* State: buffers of memory cells, and the live matrix-like objects: dense *)
(* matrices (owners of a buffer, windows onto a part of one, blocks of     *)
(* other matrices) and lazy objects (sums, scalar products, references).   *)
(* Every public operation is one action.  An action takes the parameters   *)
(* of the call and its observable outcome; it is enabled when the call is  *)
(* admissible (Rust's ownership and borrowing rules allow it) and the      *)
(* outcome is the one the library guarantees.  Refused calls (panics) are  *)
(* outcomes, not missing transitions.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, HValues, Layouts

VARIABLES
  ses,   \* session: [cx |-> complex scalars?, nz |-> signed zeros?, p |-> significant bits, 0 for exact numbers,
         \*   lot |-> of the elements of inexact products, every lot-th is compared]
  bufs,  \* buffer id -> sequence of scalars
  objs,  \* handle -> object
  rng    \* number of random draws consumed

vars == <<ses, bufs, objs, rng>>

(***************************************************************************)
(* Objects.  t is the kind: "d" dense, "add", "sm" (scalar product),       *)
(* "ref", "refm" (shared and mutable reference).                           *)
(*   lay      layout                                                       *)
(*   sz       compile-time size class ("DD", "1D", "D1", "F..")            *)
(*   acc      "own", "ro" or "rw"                                          *)
(*   buf, off, len   (dense) the container: cells off+1..off+len of buf    *)
(*   par, org (dense blocks) parent handle and position of its element     *)
(*            (0,0) in the parent (ghost: used by properties only)         *)
(*   src      handles this object borrows from                             *)
(*   kids, s  operands and scalar of a lazy object                         *)
(*   st       "live" or "moved" (owned by another object)                  *)
(***************************************************************************)
DenseObj(b, off, len, lay, sz, acc) ==
  [t |-> "d", buf |-> b, off |-> off, len |-> len, lay |-> lay, sz |-> sz,
   acc |-> acc, src |-> {}, kids |-> <<>>, s |-> 0, st |-> "live",
   par |-> 0, org |-> <<0, 0>>]

LazyObj(t, kids, s, lay, sz, acc, src) ==
  [t |-> t, buf |-> 0, off |-> 0, len |-> 0, lay |-> lay, sz |-> sz,
   acc |-> acc, src |-> src, kids |-> kids, s |-> s, st |-> "live",
   par |-> 0, org |-> <<0, 0>>]

\* the compile-time sizes of a size class (0: known at run time only)
SizeId(ch) == CASE ch = "D" -> 0 [] ch = "1" -> 1 [] ch = "2" -> 2 [] ch = "3" -> 3
SizeIds(sz) == <<SizeId(SubSeq(sz, 1, 1)), SizeId(SubSeq(sz, 2, 2))>>

Live(h) == h \in DOMAIN objs /\ objs[h].st = "live"
Borrowers(h)    == {x \in DOMAIN objs : h \in objs[x].src}
MutBorrowers(h) == {x \in Borrowers(h) : objs[x].acc = "rw"}
Readable(h) == Live(h) /\ MutBorrowers(h) = {}
Writable(h) == Live(h) /\ Borrowers(h) = {} /\ objs[h].acc \in {"own", "rw"}
Movable(h)  == Live(h) /\ Borrowers(h) = {}
IsDense(h)  == objs[h].t = "d"

LayOf(h) == objs[h].lay
DimOf(h) == <<objs[h].lay.r, objs[h].lay.c>>

(***************************************************************************)
(* Elements                                                                *)
(***************************************************************************)
\* the memory cell of element (row, col) of a dense object or mutable
\* reference to one: <<buffer, 1-based cell>>
RECURSIVE Cell(_, _, _)
Cell(h, row, col) ==
  LET o == objs[h] IN
  IF o.t = "d" THEN <<o.buf, o.off + Raw(o.lay, row, col) + 1>>
  ELSE Cell(o.kids[1], row, col)

RECURSIVE Val(_, _, _)
Val(h, row, col) ==
  LET o == objs[h] IN
  CASE o.t = "d"   -> bufs[o.buf][o.off + Raw(o.lay, row, col) + 1]
    [] o.t = "add" -> VAdd(ses, Val(o.kids[1], row, col), Val(o.kids[2], row, col))
    [] o.t = "sm"  -> VMul(ses, o.s, Val(o.kids[1], row, col))
    [] OTHER       -> Val(o.kids[1], row, col)

Val1(h, i) == LET p == To2D(LayOf(h), i) IN Val(h, p[1], p[2])

\* all elements in logical order; all elements as a table (stored positions)
Flat(h) == [i \in 1 .. NElem(LayOf(h)) |-> Val1(h, i - 1)]

\* the dense object a mutable reference (to a mutable reference ...) writes to
RECURSIVE Target(_)
Target(h) == IF IsDense(h) THEN h ELSE Target(objs[h].kids[1])

\* multiplicity of a leaf in a lazy object, and the set of leaves
RECURSIVE Leaves(_)
Leaves(h) == LET o == objs[h] IN
             IF o.t = "d" THEN {h} ELSE UNION {Leaves(o.kids[j]) : j \in 1 .. Len(o.kids)}
RECURSIVE Mult(_, _)
Mult(h, leaf) == LET o == objs[h] IN
  IF o.t = "d" THEN (IF h = leaf THEN 1 ELSE 0)
  ELSE IF Len(o.kids) = 1 THEN Mult(o.kids[1], leaf)
  ELSE Mult(o.kids[1], leaf) + Mult(o.kids[2], leaf)

(***************************************************************************)
(* Object table updates                                                    *)
(***************************************************************************)
With(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, S) == [x \in (DOMAIN f) \ S |-> f[x]]

\* h and everything that was moved into it
RECURSIVE Closure(_)
Closure(h) == {h} \cup UNION {Closure(objs[h].kids[j]) :
                              j \in {k \in 1 .. Len(objs[h].kids) : objs[objs[h].kids[k]].st = "moved"}}

\* buffers owned by the objects in S
OwnedBufs(S) == {objs[x].buf : x \in {y \in S : objs[y].t = "d" /\ objs[y].acc = "own"}}

Fresh(h) == h \notin DOMAIN objs /\ h > 0
FreshB(b) == b \notin DOMAIN bufs /\ b > 0

RemoveObjs(S) == /\ objs' = Without(objs, S)
             /\ bufs' = Without(bufs, OwnedBufs(S))

Put(cell, v) == bufs' = [bufs EXCEPT ![cell[1]][cell[2]] = v]

Zeros(n) == [i \in 1 .. n |-> VZero(ses)]

(***************************************************************************)
(* Memory and construction                                                 *)
(***************************************************************************)
\* the environment provides a block of memory
Arena(b, init) ==
  /\ FreshB(b)
  /\ bufs' = With(bufs, b, init)
  /\ UNCHANGED <<ses, objs, rng>>

Overlap(o, b, off, len) == o.buf = b /\ off < o.off + o.len /\ o.off < off + len

\* a matrix over cells off+1..off+len of an existing buffer
OverArenaPre(h, b, off, len, acc) ==
  /\ Fresh(h)
  /\ b \in DOMAIN bufs /\ off >= 0 /\ off + len <= Len(bufs[b])
  /\ acc \in {"ro", "rw"}
  /\ \A x \in DOMAIN objs :
       objs[x].t = "d" /\ Overlap(objs[x], b, off, len)
         => acc = "ro" /\ objs[x].acc = "ro"
FromDataOut(lay, len) == IF Fits(lay, len) THEN "ok" ELSE "panic"
OverArena(h, b, off, len, lay, sz, acc, out) ==
  /\ OverArenaPre(h, b, off, len, acc)
  /\ out = FromDataOut(lay, len)
  /\ objs' = IF out = "ok" THEN With(objs, h, DenseObj(b, off, len, lay, sz, acc)) ELSE objs
  /\ UNCHANGED <<ses, bufs, rng>>

\* a matrix over a new zeroed container of len cells (vector or array container)
OverNewPre(h, b) == Fresh(h) /\ FreshB(b)
OverNew(h, b, len, lay, sz, out) ==
  /\ OverNewPre(h, b)
  /\ out = FromDataOut(lay, len)
  /\ IF out = "ok"
     THEN /\ bufs' = With(bufs, b, Zeros(len))
          /\ objs' = With(objs, h, DenseObj(b, 0, len, lay, sz, "own"))
     ELSE UNCHANGED <<bufs, objs>>
  /\ UNCHANGED <<ses, rng>>

\* zero constructors: kind and shape decide acceptance
MakeZerosOut(k, r, c) == IF ValidShape(k, r, c) THEN "ok" ELSE "panic"
MakeZeros(h, b, k, r, c, sz, out) ==
  /\ Fresh(h) /\ FreshB(b)
  /\ out = MakeZerosOut(k, r, c)
  /\ IF out = "ok"
     THEN /\ bufs' = With(bufs, b, Zeros(NElem(Lay(k, r, c))))
          /\ objs' = With(objs, h, DenseObj(b, 0, NElem(Lay(k, r, c)), Lay(k, r, c), sz, "own"))
     ELSE UNCHANGED <<bufs, objs>>
  /\ UNCHANGED <<ses, rng>>

Drop(h) ==
  /\ Movable(h)
  /\ RemoveObjs(Closure(h))
  /\ UNCHANGED <<ses, rng>>

(***************************************************************************)
(* Element access                                                          *)
(***************************************************************************)
GetOut(h, row, col) == IF Stored(LayOf(h), row, col) THEN "ok" ELSE "panic"
Get1Out(h, i) == IF i >= 0 /\ i < NElem(LayOf(h)) THEN "ok" ELSE "panic"

Get(h, row, col, out, v) ==
  /\ Readable(h)
  /\ out = GetOut(h, row, col)
  /\ out = "ok" => v = Val(h, row, col)
  /\ UNCHANGED vars

Get1(h, i, out, v) ==
  /\ Readable(h)
  /\ out = Get1Out(h, i)
  /\ out = "ok" => v = Val1(h, i)
  /\ UNCHANGED vars

SetPre(h) == Writable(h) /\ objs[h].t \in {"d", "refm"}
Set(h, row, col, v, out) ==
  /\ SetPre(h)
  /\ out = GetOut(h, row, col)
  /\ IF out = "ok" THEN Put(Cell(h, row, col), v) ELSE bufs' = bufs
  /\ UNCHANGED <<ses, objs, rng>>

Set1(h, i, v, out) ==
  /\ SetPre(h)
  /\ out = Get1Out(h, i)
  /\ IF out = "ok"
     THEN LET p == To2D(LayOf(h), i) IN Put(Cell(h, p[1], p[2]), v)
     ELSE bufs' = bufs
  /\ UNCHANGED <<ses, objs, rng>>

\* the buffer after storing vals (in logical order) in all elements of h
Stored1(h, vals) ==
  LET o == objs[h] IN
  FoldLeft(LAMBDA acc, i : [acc EXCEPT ![o.off + Raw1(o.lay, i - 1) + 1] = vals[i]],
           bufs[o.buf], [i \in 1 .. NElem(o.lay) |-> i])

\* apply-to-all: the k-th call sees the k-th element and stores news[k]
ForEach(h, news, seen) ==
  /\ Writable(h) /\ IsDense(h)
  /\ seen = Flat(h)
  /\ bufs' = [bufs EXCEPT ![objs[h].buf] = Stored1(h, news)]
  /\ UNCHANGED <<ses, objs, rng>>

\* the function panics at the end of its k-th call: elements up to that one
\* have been visited, all others are as before
ForEachUntil(h, news, k, seen) ==
  /\ Writable(h) /\ IsDense(h) /\ k \in 1 .. NElem(LayOf(h))
  /\ LET old == Flat(h) IN
       /\ seen = SubSeq(old, 1, k)
       /\ bufs' = [bufs EXCEPT ![objs[h].buf] =
                     Stored1(h, [i \in 1 .. Len(old) |-> IF i <= k THEN news[i] ELSE old[i]])]
  /\ UNCHANGED <<ses, objs, rng>>

\* random fill: draw number n is represented by the token DrawBase + n
DrawBase == 1000000
Draw(k) == IF ses.cx THEN <<DrawBase + rng + 2 * k, DrawBase + rng + 2 * k + 1>>
           ELSE DrawBase + rng + k
FillRandom(h) ==
  /\ Writable(h) /\ IsDense(h)
  /\ LET n == NElem(LayOf(h)) IN
       /\ bufs' = [bufs EXCEPT ![objs[h].buf] = Stored1(h, [i \in 1 .. n |-> Draw(i - 1)])]
       /\ rng' = rng + (IF ses.cx THEN 2 * n ELSE n)
  /\ UNCHANGED <<ses, objs>>

\* one random scalar
RandomScalar == /\ rng' = rng + (IF ses.cx THEN 2 ELSE 1)
                /\ UNCHANGED <<ses, bufs, objs>>

\* raw slices: container cells first..last-1
SliceOut(h, first, last) ==
  IF 0 <= first /\ first < last /\ last <= objs[h].len THEN "ok" ELSE "panic"
SliceVals(h, first, last) ==
  SubSeq(bufs[objs[h].buf], objs[h].off + first + 1, objs[h].off + last)
Slice(h, first, last, out, vals) ==
  /\ Readable(h) /\ IsDense(h)
  /\ out = SliceOut(h, first, last)
  /\ out = "ok" => vals = SliceVals(h, first, last)
  /\ UNCHANGED vars
SliceWrite(h, first, last, vals, out) ==
  /\ Writable(h) /\ IsDense(h)
  /\ out = SliceOut(h, first, last)
  /\ IF out = "ok"
     THEN bufs' = [bufs EXCEPT ![objs[h].buf] =
            [c \in 1 .. Len(@) |-> LET q == c - objs[h].off - 1 IN
               IF first <= q /\ q < last THEN vals[q - first + 1] ELSE @[c]]]
     ELSE bufs' = bufs
  /\ UNCHANGED <<ses, objs, rng>>

(***************************************************************************)
(* Views                                                                   *)
(***************************************************************************)
Blockable(h) == IsDense(h) /\ objs[h].sz = "DD" /\ LayOf(h).k \in {"RM", "CM", "ASRM", "ASCM"}

BlockOut(h, tl, dim) ==
  IF /\ tl[1] >= 0 /\ tl[2] >= 0 /\ dim[1] >= 0 /\ dim[2] >= 0
     /\ tl[1] + dim[1] <= LayOf(h).r /\ tl[2] + dim[2] <= LayOf(h).c
  THEN "ok" ELSE "panic"

BlockObj(h, tl, dim, acc) ==
  LET o == objs[h]
      L == SLay(StridedKind(o.lay.k), dim[1], dim[2], Stride(o.lay)[1], Stride(o.lay)[2])
      empty == dim[1] = 0 \/ dim[2] = 0
  IN [DenseObj(o.buf, o.off + (IF empty THEN 0 ELSE Raw(o.lay, tl[1], tl[2])),
               Extent(L), L, "DD", acc)
      EXCEPT !.src = {h}, !.par = h, !.org = tl]

BlockPre(h, h2, mut) == /\ IF mut THEN Writable(h) ELSE Readable(h)
                        /\ Blockable(h) /\ Fresh(h2)
Block(h, h2, tl, dim, mut, out) ==
  /\ BlockPre(h, h2, mut)
  /\ out = BlockOut(h, tl, dim)
  /\ objs' = IF out = "ok"
             THEN With(objs, h2, BlockObj(h, tl, dim, IF mut THEN "rw" ELSE "ro"))
             ELSE objs
  /\ UNCHANGED <<ses, bufs, rng>>

SplitPre(h, hs) == /\ Writable(h) /\ IsDense(h) /\ objs[h].sz = "DD" /\ LayOf(h).k = "RM"
                   /\ \A j \in 1 .. 4 : Fresh(hs[j])
                   /\ Cardinality({hs[j] : j \in 1 .. 4}) = 4
SplitOut(h, at) == IF 0 <= at[1] /\ at[1] <= LayOf(h).r /\ 0 <= at[2] /\ at[2] <= LayOf(h).c
                   THEN "ok" ELSE "panic"
Quadrant(h, at, j) ==     \* <<top left, dimension>> of quadrant j
  LET R == LayOf(h).r
      C == LayOf(h).c
  IN CASE j = 1 -> << <<0, 0>>, at >>
       [] j = 2 -> << <<0, at[2]>>, <<at[1], C - at[2]>> >>
       [] j = 3 -> << <<at[1], 0>>, <<R - at[1], at[2]>> >>
       [] j = 4 -> << at, <<R - at[1], C - at[2]>> >>
Split(h, hs, at, out) ==
  /\ SplitPre(h, hs)
  /\ out = SplitOut(h, at)
  /\ objs' = IF out = "ok"
             THEN [x \in DOMAIN objs \cup {hs[j] : j \in 1 .. 4} |->
                     IF x \in DOMAIN objs THEN objs[x]
                     ELSE LET j == CHOOSE j \in 1 .. 4 : hs[j] = x
                              q == Quadrant(h, at, j)
                          IN BlockObj(h, q[1], q[2], "rw")]
             ELSE objs
  /\ UNCHANGED <<ses, bufs, rng>>

(***************************************************************************)
(* Lazy objects.  Operands are consumed ("o") or borrowed ("r").           *)
(***************************************************************************)
OperandPre(a, m) == IF m = "o" THEN Movable(a) ELSE Readable(a)
Consume(f, S) == [x \in DOMAIN f |-> IF x \in S THEN [f[x] EXCEPT !.st = "moved"] ELSE f[x]]

AddPre(h, a, am, b, bm) ==
  /\ Fresh(h) /\ OperandPre(a, am) /\ OperandPre(b, bm)
  /\ a = b => am = "r" /\ bm = "r"
  /\ IndexKind(LayOf(a).k) = IndexKind(LayOf(b).k) /\ objs[a].sz = objs[b].sz
AddOut(a, b) == IF DimOf(a) = DimOf(b) THEN "ok" ELSE "panic"
Add(h, a, am, b, bm, out) ==
  /\ AddPre(h, a, am, b, bm)
  /\ out = AddOut(a, b)
  /\ LET moved == {x \in {a, b} : (x = a /\ am = "o") \/ (x = b /\ bm = "o")}
     IN IF out = "ok"
        THEN /\ objs' = With(Consume(objs, moved), h,
                             LazyObj("add", <<a, b>>, 0, IndexLayout(LayOf(a)), objs[a].sz, "ro", {a, b}))
             /\ bufs' = bufs
        ELSE RemoveObjs(UNION {Closure(x) : x \in moved})   \* a refused sum drops what it was given
  /\ UNCHANGED <<ses, rng>>

SMul(h, s, a, am) ==
  /\ Fresh(h) /\ OperandPre(a, am)
  /\ objs' = With(Consume(objs, IF am = "o" THEN {a} ELSE {}), h,
                  LazyObj("sm", <<a>>, s, LayOf(a), objs[a].sz, "ro", {a}))
  /\ UNCHANGED <<ses, bufs, rng>>

Ref(h, a) ==
  /\ Fresh(h) /\ Readable(a)
  /\ objs' = With(objs, h, LazyObj("ref", <<a>>, 0, LayOf(a), objs[a].sz, "ro", {a}))
  /\ UNCHANGED <<ses, bufs, rng>>

RefMut(h, a) ==
  /\ Fresh(h) /\ SetPre(a)
  /\ objs' = With(objs, h, LazyObj("refm", <<a>>, 0, LayOf(a), objs[a].sz, "rw", {a}))
  /\ UNCHANGED <<ses, bufs, rng>>

(***************************************************************************)
(* Evaluation                                                              *)
(***************************************************************************)
EvalPre(a, h, b) == Readable(a) /\ objs[a].sz = "DD" /\ Fresh(h) /\ FreshB(b)
Eval(a, h, b) ==
  /\ EvalPre(a, h, b)
  /\ LET IL == IndexLayout(LayOf(a)) IN
       /\ bufs' = With(bufs, b, Flat(a))      \* contiguous, in logical order
       /\ objs' = With(objs, h, DenseObj(b, 0, NElem(IL), IL, "DD", "own"))
  /\ UNCHANGED <<ses, rng>>

(***************************************************************************)
(* Products                                                                *)
(***************************************************************************)
\* the sum over t < k of a(i, t) * b(t, j)
DotSum(a, b, i, j, k) ==
  FoldLeft(LAMBDA acc, t : VAdd(ses, acc, VMul(ses, Val(a, i, t - 1), Val(b, t - 1, j))),
           VZero(ses), [t \in 1 .. k |-> t])
ProdElem(a, b, i, j) == DotSum(a, b, i, j, LayOf(a).c)

ProdSz(sa, sb) == CASE sa = "DD" /\ sb = "DD" -> "DD"
                    [] sa = "DD" /\ sb = "D1" -> "D1"
                    [] sa = "1D" /\ sb = "DD" -> "1D"
                    [] OTHER -> "none"
Multiplicable(x) == IsDense(x) /\ HasStride(LayOf(x))

MatMulPre(a, b, c) ==
  /\ Readable(a) /\ Readable(b) /\ Writable(c) /\ c \notin {a, b}
  /\ Multiplicable(a) /\ Multiplicable(b) /\ Multiplicable(c)
  /\ objs[c].sz = ProdSz(objs[a].sz, objs[b].sz)
MatMulOut(a, b, c) ==
  IF LayOf(a).c = LayOf(b).r /\ LayOf(c).r = LayOf(a).r /\ LayOf(c).c = LayOf(b).c
  THEN "ok" ELSE "panic"
\* what is stored, in logical order
MatMulVals(alpha, a, b, beta, c) ==
  LET L == LayOf(c) IN
  [i \in 1 .. NElem(L) |->
     LET p == To2D(L, i - 1) IN
     VAdd(ses, VMul(ses, alpha, ProdElem(a, b, p[1], p[2])), VMul(ses, beta, Val(c, p[1], p[2])))]
\* inexact numbers: a value v for element (i, j) of the result
XDotSum(a, b, i, j, k) ==         \* exact inner product and the magnitude of its terms
  FoldLeft(LAMBDA acc, t :
             LET x == Val(a, i, t - 1)
                 y == Val(b, t - 1, j)
             IN TLCEval(<<EAdd(ses, acc[1], EMul(ses, x, y)),
                          BAdd(acc[2], BMul(EMag(ses, x), EMag(ses, y)))>>),
           <<VZero(ses), <<>>>>, [t \in 1 .. k |-> t])
ProdRounded(a, b, i, j, v) ==
  LET r == XDotSum(a, b, i, j, LayOf(a).c) IN IsRounded(ses, v, r[1], LayOf(a).c, r[2])
MatMulRounded(alpha, a, b, beta, c, i, j, v) ==
  LET r == XDotSum(a, b, i, j, LayOf(a).c)
      z == Val(c, i, j)
  IN IsRounded(ses, v, EAdd(ses, EMul(ses, alpha, r[1]), EMul(ses, beta, z)), LayOf(a).c,
               BAdd(BMul(EMag(ses, alpha), r[2]), BMul(EMag(ses, beta), EMag(ses, z))))
Compared(n) == {i \in 1 .. n : i % ses.lot = 0}
\* vals: the new elements of c in logical order (determined by the others for exact numbers)
MatMul(alpha, a, b, beta, c, out, vals) ==
  /\ MatMulPre(a, b, c)
  /\ out = MatMulOut(a, b, c)
  /\ IF out = "ok"
     THEN LET L == LayOf(c) IN
          /\ Len(vals) = NElem(L)
          /\ IF ses.p = 0 THEN vals = MatMulVals(alpha, a, b, beta, c)
             ELSE \A i \in Compared(NElem(L)) : LET p == To2D(L, i - 1) IN
                    MatMulRounded(alpha, a, b, beta, c, p[1], p[2], vals[i])
          /\ bufs' = [bufs EXCEPT ![objs[c].buf] = Stored1(c, vals)]
     ELSE bufs' = bufs
  /\ UNCHANGED <<ses, objs, rng>>

DotPre(a, b, h, nb) ==
  /\ Readable(a) /\ Readable(b) /\ Multiplicable(a) /\ Multiplicable(b)
  /\ ProdSz(objs[a].sz, objs[b].sz) # "none"
  /\ Fresh(h) /\ FreshB(nb)
DotKind(sz) == CASE sz = "DD" -> "RM" [] sz = "D1" -> "CV" [] sz = "1D" -> "RV"
DotOut(a, b) == IF LayOf(a).c = LayOf(b).r THEN "ok" ELSE "panic"
DotLay(a, b) == Lay(DotKind(ProdSz(objs[a].sz, objs[b].sz)), LayOf(a).r, LayOf(b).c)
DotVals(a, b) == LET L == DotLay(a, b) IN
  [i \in 1 .. NElem(L) |-> LET p == To2D(L, i - 1) IN ProdElem(a, b, p[1], p[2])]
Dot(a, b, h, nb, out, vals) ==
  /\ DotPre(a, b, h, nb)
  /\ out = DotOut(a, b)
  /\ IF out = "ok"
     THEN LET sz == ProdSz(objs[a].sz, objs[b].sz)
              L == DotLay(a, b)
          IN /\ Len(vals) = NElem(L)
             /\ IF ses.p = 0 THEN vals = DotVals(a, b)
                ELSE \A i \in Compared(NElem(L)) : LET p == To2D(L, i - 1) IN ProdRounded(a, b, p[1], p[2], vals[i])
             /\ bufs' = With(bufs, nb, vals)
             /\ objs' = With(objs, h, DenseObj(nb, 0, NElem(L), L, sz, "own"))
     ELSE UNCHANGED <<bufs, objs>>
  /\ UNCHANGED <<ses, rng>>

(***************************************************************************)
(* Properties of reachable states (checked on the design over all small    *)
(* instances in MC*.tla, and in every state of every recorded trace)       *)
(***************************************************************************)
DenseHandles == {h \in DOMAIN objs : objs[h].t = "d"}
Footprint(h) == {Cell(h, p[1], p[2]) : p \in StoredSet(LayOf(h))}
SameBuf(g, h) == objs[g].buf = objs[h].buf   \* cells of different buffers are different

\* every element of every dense object lies inside its container, which lies
\* inside its buffer
InContainer ==
  \A h \in DenseHandles :
    LET o == objs[h] IN
    /\ o.buf \in DOMAIN bufs
    /\ o.off >= 0 /\ o.off + o.len <= Len(bufs[o.buf])
    /\ Extent(o.lay) <= o.len

\* element (i, j) of a block is the parent's element at the block's corner + (i, j)
BlockIsWindow ==
  \A h \in {x \in DenseHandles : objs[x].par # 0} :
    LET o == objs[h]
        q == objs[o.par]
    IN /\ o.par \in DOMAIN objs
       /\ \A r \in 0 .. o.lay.r - 1, c \in 0 .. o.lay.c - 1 : Stored(o.lay, r, c) =>
            /\ InDim(q.lay, r + o.org[1], c + o.org[2])
            /\ Cell(h, r, c) = Cell(o.par, r + o.org[1], c + o.org[2])

\* no element can be written through two objects at the same time
ExclusiveWriters ==
  \A g, h \in DenseHandles :
    g # h /\ SameBuf(g, h) /\ Writable(g) /\ Writable(h) => Footprint(g) \cap Footprint(h) = {}

\* no element can be read through one object while it is written through another
NoReadWriteRace ==
  \A g, h \in DenseHandles :
    g # h /\ SameBuf(g, h) /\ Writable(g) /\ Readable(h) => Footprint(g) \cap Footprint(h) = {}

\* live quadrants of one split partition the parent
LazyShape ==
  \A h \in DOMAIN objs : objs[h].t # "d" =>
    \A j \in 1 .. Len(objs[h].kids) :
      /\ objs[h].kids[j] \in DOMAIN objs
      /\ DimOf(objs[h].kids[j]) = DimOf(h)
      /\ \A i \in 0 .. NElem(LayOf(h)) - 1 :
           To2D(LayOf(h), i) = To2D(LayOf(objs[h].kids[j]), i)

\* borrowed objects stay alive as long as they are borrowed
NoDangling == \A h \in DOMAIN objs : objs[h].src \subseteq DOMAIN objs
=============================================================================
