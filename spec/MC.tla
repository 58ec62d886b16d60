--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Exhaustive exploration of Householder.tla over small instances.  A      *)
(* model is a set of initial matrices and a set of operations; all         *)
(* sequences of Depth calls are explored.  hist is the sequence of calls   *)
(* made so far, in the form the conformance driver executes (it is hidden  *)
(* by VIEW); with Emit the calls leading to each transition are printed,   *)
(* followed by observations, and replayed into the real library.           *)
(***************************************************************************)
EXTENDS Refine, Json, TLCExt

CONSTANTS Model, Depth, Emit, Cplx     \* Emit: print histories of at least this many calls (0: none)

VARIABLES hist,   \* calls, as the driver takes them
          last    \* the last call with its outcome (for Logical)

mvars == <<ses, bufs, objs, rng, hist, last>>
View  == <<bufs, objs, rng>>

Ld(k, r, c) == Lay(k, r, c)
S(k, r, c, a, b) == SLay(k, r, c, a, b)
V(x) == IF Cplx THEN <<x, 1 - x>> ELSE x

(* A root is <<layout, size class, container ("slice", "usr", "ptr")>> *)
D(L) == <<L, "DD", "slice">>
U(L) == <<L, "DD", "usr">>

AnyRoots == {D(Ld("RM", 2, 2)), U(Ld("CM", 2, 2)), D(Ld("UT", 2, 2)), <<Ld("RV", 1, 2), "1D", "slice">>,
             <<Ld("CV", 2, 1), "D1", "usr">>, D(S("ASRM", 2, 2, 3, 1)), U(S("ASCM", 2, 2, 2, 5)), D(S("ASRM", 2, 2, 1, 2)),
             <<S("ASRV", 1, 2, 0, 2), "1D", "slice">>, <<S("ASCV", 2, 1, 3, 0), "DD", "usr">>, D(Ld("RM", 0, 2)), D(Ld("UT", 3, 3)),
             D(Ld("RM", 1, 3)), D(Ld("CM", 1, 2))}
FourRoots(r, c) == {D(Ld("RM", r, c)), U(Ld("CM", r, c)), D(S("ASRM", r, c, c + 2, 1)), D(S("ASCM", r, c, 2, 2 * r + 1)), U(S("ASRM", r, c, 2, 3 * r))}
\* pairs of operands
Pairs == {<<D(Ld("RM", 2, 2)), U(S("ASRM", 2, 2, 3, 1))>>, <<D(S("ASCM", 2, 2, 1, 3)), U(Ld("CM", 2, 2))>>,
          <<D(Ld("UT", 2, 2)), U(Ld("UT", 2, 2))>>, <<D(Ld("RM", 1, 2)), D(Ld("RM", 2, 1))>>,
          <<<<Ld("RV", 1, 2), "1D", "slice">>, <<S("ASRV", 1, 2, 0, 2), "1D", "usr">> >>,
          <<<<S("ASCV", 2, 1, 2, 0), "D1", "usr">>, <<Ld("CV", 2, 1), "D1", "slice">> >>,
          <<D(Ld("RM", 0, 2)), D(Ld("RM", 0, 2))>>,
          <<D(Ld("RM", 2, 2)), U(Ld("CM", 2, 2))>>}    \* never a sum: the orders differ
RM1(k, r, c) == IF k = "RM" THEN D(Ld("RM", r, c)) ELSE IF k = "CM" THEN D(Ld("CM", r, c))
                ELSE IF k = "ASRM" THEN D(S("ASRM", r, c, 2 * c + 1, 2)) ELSE D(S("ASCM", r, c, 1, r + 1))
\* operands of products
Triples == {<<RM1(a, 2, 2), RM1(b, 2, 2), RM1(c, 2, 2)>> : a, b, c \in {"RM", "CM", "ASRM", "ASCM"}}
           \cup {<<RM1(a, d[1], d[2]), RM1("RM", d[3], d[4]), RM1("CM", d[5], d[6])>> :
                  a \in {"RM", "ASCM"}, d \in {<<1, 2, 2, 1, 1, 1>>, <<2, 1, 1, 2, 2, 2>>, <<1, 2, 1, 2, 1, 2>>, <<2, 0, 0, 2, 2, 2>>, <<2, 1, 1, 2, 2, 1>>, <<0, 2, 2, 1, 0, 1>>}}
           \cup {<<RM1(a, 2, 2), <<Ld("CV", 2, 1), "D1", "slice">>, <<S("ASCV", 2, 1, 2, 0), "D1", "slice">> >> : a \in {"RM", "CM", "ASRM"}}
           \cup {<<<<S("ASRV", 1, 2, 0, 2), "1D", "slice">>, RM1(a, 2, 2), <<Ld("RV", 1, 2), "1D", "slice">> >> : a \in {"RM", "CM", "ASCM"}}

InitCfgs == CASE Model = "access" -> {<<x>> : x \in AnyRoots}
              [] Model = "view"   -> {<<x>> : x \in FourRoots(2, 2) \cup {D(Ld("RM", 1, 2)), D(Ld("CM", 2, 1)), D(Ld("RM", 0, 2))}}
              [] Model = "split"  -> {<<D(Ld("RM", r, c))>> : r \in 0 .. 3, c \in 0 .. 3}
              [] Model = "lazy"   -> Pairs
              [] Model = "eval"   -> {<<x>> : x \in {y \in AnyRoots : y[2] = "DD"}}
              [] Model = "prod"   -> Triples
              [] Model = "mem"    -> {<<>>}
              [] Model = "each"   -> {<<x>> : x \in AnyRoots}
              [] Model = "all"    -> {<<x>> : x \in {D(Ld("RM", 2, 2)), U(Ld("CM", 2, 2)), D(S("ASRM", 2, 2, 3, 1)), D(S("ASCM", 2, 2, 2, 4))}}

Ops == CASE Model = "access" -> {"get", "get1", "set", "set1", "ref", "refm", "drop"}
         [] Model = "view"   -> {"block", "set", "set1", "drop", "refm"}
         [] Model = "split"  -> {"split", "set", "set1", "each", "drop"}
         [] Model = "lazy"   -> {"add", "smul", "ref", "set", "drop", "get1"}
         [] Model = "eval"   -> {"eval", "set", "set1", "smul", "block", "drop"}
         [] Model = "prod"   -> {"matmul", "dot", "set"}
         [] Model = "mem"    -> {"new", "zeros", "slice", "slicew", "drop", "set"}
         [] Model = "each"   -> {"each", "fill", "slicew", "refm", "drop"}
         [] Model = "all"    -> {"block", "split", "set", "add", "smul", "ref", "refm", "eval", "matmul", "dot", "each", "drop"}

MaxObjs == CASE Model \in {"access", "view", "eval"} -> 4
             [] Model = "split" -> 9
             [] Model = "lazy" -> 5
             [] Model = "prod" -> 4
             [] Model \in {"mem", "each"} -> 3
             [] Model = "all" -> 7

OverLen(x) == Extent(x[1]) + (IF x[3] = "ptr" THEN 0 ELSE 1)
BufLen(x) == Extent(x[1]) + 3
InitVal(b, i) == V(10 * b + i)

Init ==
  /\ ses = [cx |-> Cplx, nz |-> FALSE, p |-> 0, lot |-> 1]
  /\ rng = 0
  /\ \E cfg \in InitCfgs :
       /\ bufs = [b \in 1 .. Len(cfg) |-> [i \in 1 .. BufLen(cfg[b]) |-> InitVal(b, i)]]
       /\ objs = [h \in 1 .. Len(cfg) |-> DenseObj(h, 1, OverLen(cfg[h]), cfg[h][1], cfg[h][2], "rw")]
       /\ hist = FlattenSeq([b \in 1 .. Len(cfg) |->
            <<[op |-> "arena", b |-> b, init |-> [i \in 1 .. BufLen(cfg[b]) |-> InitVal(b, i)]],
              [op |-> "over", h |-> b, b |-> b, off |-> 1, len |-> OverLen(cfg[b]), k |-> cfg[b][1].k, r |-> cfg[b][1].r,
               c |-> cfg[b][1].c, s0 |-> cfg[b][1].s0, s1 |-> cfg[b][1].s1, sz |-> cfg[b][2], acc |-> "rw", via |-> cfg[b][3]]>>])
  /\ last = [op |-> "none"]

\* the call c with outcome fields o; c goes to the driver, both to Logical
Call(c, o) == hist' = Append(hist, c) /\ last' = o @@ c

Base0 == Len(SelectSeq(hist, LAMBDA x : x.op \in {"arena", "over"}))
Made == Len(hist) - Base0

Handles == DOMAIN objs
NewH == CHOOSE h \in 1 .. (Cardinality(DOMAIN objs) + 1) : h \notin DOMAIN objs
NewHs == SubSeq(SetToSortSeq((1 .. (Cardinality(DOMAIN objs) + 4)) \ DOMAIN objs, LAMBDA x, y : x < y), 1, 4)
NewB == CHOOSE b \in 1 .. (Cardinality(DOMAIN bufs) + 1) : b \notin DOMAIN bufs
Room == Cardinality(DOMAIN objs) < MaxObjs

New7 == V(70 + Made)      \* a value not written before
SetVals == {New7}
IdxRange(n) == 0 .. n     \* one too many

OGet == "get" \in Ops /\ \E h \in Handles : Readable(h) /\
  \E r \in IdxRange(LayOf(h).r), c \in IdxRange(LayOf(h).c) :
    LET out == GetOut(h, r, c)
        v == IF out = "ok" THEN Val(h, r, c) ELSE 0
    IN Get(h, r, c, out, v) /\ Call([op |-> "get", h |-> h, r |-> r, c |-> c, chk |-> (out = "panic" \/ (r + c) % 2 = 0)], [out |-> out, v |-> v])
OGet1 == "get1" \in Ops /\ \E h \in Handles : Readable(h) /\
  \E i \in IdxRange(NElem(LayOf(h))) :
    LET out == Get1Out(h, i)
        v == IF out = "ok" THEN Val1(h, i) ELSE 0
    IN Get1(h, i, out, v) /\ Call([op |-> "get1", h |-> h, i |-> i, chk |-> (out = "panic" \/ i % 2 = 0)], [out |-> out, v |-> v])
OSet == "set" \in Ops /\ \E h \in Handles : SetPre(h) /\
  \E r \in IdxRange(LayOf(h).r), c \in IdxRange(LayOf(h).c), v \in SetVals :
    LET out == GetOut(h, r, c) IN
    Set(h, r, c, v, out) /\ Call([op |-> "set", h |-> h, r |-> r, c |-> c, v |-> v, chk |-> (out = "panic" \/ (r + c) % 2 = 0), mb |-> objs[Target(h)].buf], [out |-> out])
OSet1 == "set1" \in Ops /\ \E h \in Handles : SetPre(h) /\
  \E i \in IdxRange(NElem(LayOf(h))), v \in SetVals :
    LET out == Get1Out(h, i) IN
    Set1(h, i, v, out) /\ Call([op |-> "set1", h |-> h, i |-> i, v |-> v, chk |-> (out = "panic" \/ i % 2 = 0), mb |-> objs[Target(h)].buf], [out |-> out])
ODrop == "drop" \in Ops /\ \E h \in Handles :
    Movable(h) /\ Drop(h) /\ Call([op |-> "drop", h |-> h], [out |-> "ok"])
\* driver: references, sums and products exist for these (all for real and complex doubles)
ORef == "ref" \in Ops /\ Room /\ \E a \in Handles :
    Readable(a) /\ Ref(NewH, a) /\ Call([op |-> "ref", h |-> NewH, a |-> a], [out |-> "ok"])
ORefM == "refm" \in Ops /\ Room /\ \E a \in Handles :
    SetPre(a) /\ RefMut(NewH, a) /\ Call([op |-> "refm", h |-> NewH, a |-> a], [out |-> "ok"])
OBlock == "block" \in Ops /\ Room /\ \E h \in Handles, mut \in BOOLEAN : Blockable(h) /\ BlockPre(h, NewH, mut) /\
  \E r0 \in 0 .. LayOf(h).r, c0 \in 0 .. LayOf(h).c :
  \E m \in 0 .. LayOf(h).r - r0 + 1, n \in 0 .. LayOf(h).c - c0 + 1 :
    LET out == BlockOut(h, <<r0, c0>>, <<m, n>>) IN
    Block(h, NewH, <<r0, c0>>, <<m, n>>, mut, out) /\ Call([op |-> "block", h |-> h, h2 |-> NewH, tl |-> <<r0, c0>>, bd |-> <<m, n>>, mut |-> mut], [out |-> out])
OSplit == "split" \in Ops /\ Cardinality(DOMAIN objs) + 4 <= MaxObjs /\ \E h \in Handles : SplitPre(h, NewHs) /\
  \E r0 \in 0 .. LayOf(h).r + 1, c0 \in 0 .. LayOf(h).c + 1 :
    LET out == SplitOut(h, <<r0, c0>>) IN
    Split(h, NewHs, <<r0, c0>>, out) /\ Call([op |-> "split", h |-> h, hs |-> NewHs, at |-> <<r0, c0>>], [out |-> out])
OAdd == "add" \in Ops /\ Room /\ \E a, b \in Handles, am, bm \in {"o", "r"} :
    /\ AddPre(NewH, a, am, b, bm)
    /\ LET out == AddOut(a, b) IN Add(NewH, a, am, b, bm, out) /\ Call([op |-> "add", h |-> NewH, a |-> a, am |-> am, b |-> b, bm |-> bm], [out |-> out])
OSMul == "smul" \in Ops /\ Room /\ \E a \in Handles, am \in {"o", "r"} :
    LET s == V(3)
        side == IF am = "o" THEN "l" ELSE "r"
    IN OperandPre(a, am) /\ SMul(NewH, s, a, am) /\ Call([op |-> "smul", h |-> NewH, s |-> s, a |-> a, am |-> am, side |-> side], [out |-> "ok"])
OEval == "eval" \in Ops /\ Room /\ \E a \in Handles :
    /\ EvalPre(a, NewH, NewB)
    /\ Eval(a, NewH, NewB) /\ Call([op |-> "eval", a |-> a, h |-> NewH, b |-> NewB, rdon |-> objs[a].t \in {"add", "sm"}], [out |-> "ok"])
Coefs == {<<V(1), V(0)>>, <<V(2), V(1)>>, <<V(0), V(3)>>}
OMatMul == "matmul" \in Ops /\ \E a, b, c \in Handles, ab \in Coefs :
    /\ MatMulPre(a, b, c)
    /\ LET out == MatMulOut(a, b, c) IN
       MatMul(ab[1], a, b, ab[2], c, out, IF out = "ok" THEN MatMulVals(ab[1], a, b, ab[2], c) ELSE <<>>) /\ Call([op |-> "matmul", alpha |-> ab[1], a |-> a, b |-> b, beta |-> ab[2], c |-> c, mb |-> objs[c].buf], [out |-> out])
ODot == "dot" \in Ops /\ ~Cplx /\ Room /\ \E a, b \in Handles :
    /\ DotPre(a, b, NewH, NewB)
    /\ LET out == DotOut(a, b) IN
       Dot(a, b, NewH, NewB, out, IF out = "ok" THEN DotVals(a, b) ELSE <<>>) /\ Call([op |-> "dot", a |-> a, b |-> b, h |-> NewH, nb |-> NewB], [out |-> out])
News(h) == [i \in 1 .. NElem(LayOf(h)) |-> V(30 + 5 * Made + i)]
OEach == "each" \in Ops /\ \E h \in Handles : Writable(h) /\ IsDense(h) /\ (
    \/ ForEach(h, News(h), Flat(h)) /\ Call([op |-> "each", h |-> h, news |-> News(h), mb |-> objs[h].buf], [out |-> "ok", seen |-> Flat(h)])
    \/ Model = "each" /\ \E k \in 1 .. NElem(LayOf(h)) : LET seen == SubSeq(Flat(h), 1, k) IN
         /\ ForEachUntil(h, News(h), k, seen)
         /\ Call([op |-> "each", h |-> h, news |-> News(h), mb |-> objs[h].buf, stop |-> k], [out |-> "panic", seen |-> seen]))
OFill == "fill" \in Ops /\ \E h \in Handles : Writable(h) /\ IsDense(h) /\
    FillRandom(h) /\ Call([op |-> "fill", h |-> h, mb |-> objs[h].buf], [out |-> "ok"])
OSlice == "slice" \in Ops /\ \E h \in Handles : Readable(h) /\ IsDense(h) /\
  \E f, t \in 0 .. objs[h].len + 1 :
    LET out == SliceOut(h, f, t)
        vals == IF out = "ok" THEN SliceVals(h, f, t) ELSE <<>>
    IN Slice(h, f, t, out, vals) /\ Call([op |-> "slice", h |-> h, f |-> f, t |-> t], [out |-> out])
OSliceW == "slicew" \in Ops /\ \E h \in Handles : Writable(h) /\ IsDense(h) /\
  \E f, t \in 0 .. objs[h].len + 1 :
    LET out == SliceOut(h, f, t)
        vals == IF out = "ok" THEN [i \in 1 .. t - f |-> V(50 + 4 * Made + i)] ELSE <<>>
    IN SliceWrite(h, f, t, vals, out) /\ Call([op |-> "slicew", h |-> h, f |-> f, t |-> t, vals |-> vals, mb |-> objs[h].buf], [out |-> out])
NewLays == {Ld("RM", 2, 1), Ld("CM", 1, 2), Ld("UT", 2, 2), Ld("RV", 1, 2), Ld("CV", 2, 1), Ld("RM", 0, 3),
            S("ASRM", 2, 2, 2, 1), S("ASCM", 1, 2, 1, 3), S("ASRV", 1, 2, 0, 2), S("ASCV", 2, 1, 3, 0), S("ASRM", 2, 1, 0, 1)}
NewSz(L) == IF L.k \in {"RV", "ASRV"} THEN "1D" ELSE IF L.k \in {"CV", "ASCV"} THEN "D1" ELSE "DD"
ONew == "new" \in Ops /\ Room /\ \E L \in NewLays, n \in {0, 1, 2, 3, 4, 5} :
    LET out == FromDataOut(L, n) IN
    /\ OverNew(NewH, NewB, n, L, NewSz(L), out)
    /\ Call([op |-> "new", h |-> NewH, b |-> NewB, len |-> n, k |-> L.k, r |-> L.r, c |-> L.c, s0 |-> L.s0, s1 |-> L.s1, sz |-> NewSz(L), via |-> "vec"], [out |-> out])
OZeros == "zeros" \in Ops /\ Room /\ \E k \in BaseKinds, r, c \in 0 .. 2 :
    LET out == MakeZerosOut(k, r, c) IN
    /\ MakeZeros(NewH, NewB, k, r, c, "DD", out)
    /\ Call([op |-> "zeros", h |-> NewH, b |-> NewB, k |-> k, r |-> r, c |-> c, sz |-> "DD", via |-> "dim"], [out |-> out])

\* values stay where TLC can multiply them
Lim(x) == x < 2000 /\ x > -2000
Small == \A b \in DOMAIN bufs : \A i \in 1 .. Len(bufs[b]) :
           IF Cplx THEN Lim(bufs[b][i][1]) /\ Lim(bufs[b][i][2]) ELSE Lim(bufs[b][i]) \/ bufs[b][i] >= DrawBase

Next == Made < Depth /\ Small /\
  (OGet \/ OGet1 \/ OSet \/ OSet1 \/ ODrop \/ ORef \/ ORefM \/ OBlock \/ OSplit \/ OAdd \/ OSMul \/ OEval
   \/ OMatMul \/ ODot \/ OEach \/ OFill \/ OSlice \/ OSliceW \/ ONew \/ OZeros)
Spec == Init /\ [][Next]_mvars

(***************************************************************************)
(* Properties of every step                                                *)
(***************************************************************************)
\* Householder refines the layout-free specification (when elements do not share cells)
RefinesLogical == [][Separate /\ last' # last => Log!LCall(last')]_mvars

\* the call wrote nothing
Quiet(op) == op \in {"get", "get1", "slice", "ref", "refm", "block", "split", "smul"}
QuietCalls == [][Quiet(last'.op) => bufs' = bufs]_mvars
\* a refused call changes nothing (a sum consumes its operands, a panic of the
\* caller's own function is no refusal)
Refusals == [][("out" \in DOMAIN last' /\ last'.out = "panic" /\ last'.op \notin {"add", "each"}) => bufs' = bufs /\ objs' = objs /\ rng' = rng]_mvars

\* memory outside of the elements of the object that is written never changes
Writes(op) == op \in {"set", "set1", "each", "fill", "matmul"}
WrittenBy(x) == IF x.op = "matmul" THEN x.c ELSE x.h
OnlyElements == [][Writes(last'.op) =>
  LET F == Footprint(Target(WrittenBy(last'))) IN
  \A b \in DOMAIN bufs : \A i \in 1 .. Len(bufs[b]) : <<b, i>> \notin F => bufs'[b][i] = bufs[b][i]]_mvars
\* a single write reaches at most one cell, and every object sees it where it shows that cell
OneCell == [][last'.op \in {"set", "set1"} =>
  Cardinality({<<b, i>> \in UNION {{x} \X (1 .. Len(bufs[x])) : x \in DOMAIN bufs} : bufs'[b][i] # bufs[b][i]}) <= 1]_mvars

\* products leave their operands alone
OperandsKept == [][last'.op \in {"matmul", "dot"} =>
  \A h \in DOMAIN objs : h \in {last'.a, last'.b} => (Flat(h))' = Flat(h)]_mvars

\* a raw slice write stays in the container
InOwnContainer == [][last'.op = "slicew" =>
  LET o == objs[last'.h] IN
  \A b \in DOMAIN bufs : \A i \in 1 .. Len(bufs[b]) :
    bufs'[b][i] # bufs[b][i] => b = o.buf /\ i \in o.off + 1 .. o.off + o.len]_mvars

\* evaluation and dot give memory of their own
FreshMemory == [][(last'.op \in {"eval", "dot", "new", "zeros"} /\ last'.out = "ok") =>
  LET b == objs'[last'.h].buf IN
  /\ b \notin DOMAIN bufs
  /\ \A g \in DOMAIN objs : objs[g].t = "d" => objs[g].buf # b
  /\ \A c \in DOMAIN bufs : bufs'[c] = bufs[c]]_mvars

\* the quadrants partition the matrix
Partition == [][(last'.op = "split" /\ last'.out = "ok") =>
  LET h == last'.h
      q == last'.hs
      F(j) == {objs'[q[j]].off + Raw(objs'[q[j]].lay, p[1], p[2]) : p \in StoredSet(objs'[q[j]].lay)}
      P == {objs[h].off + Raw(objs[h].lay, p[1], p[2]) : p \in StoredSet(objs[h].lay)}
  IN /\ UNION {F(j) : j \in 1 .. 4} = P
     /\ \A i, j \in 1 .. 4 : i # j => F(i) \cap F(j) = {}]_mvars

(***************************************************************************)
(* Behaviours for the real library                                         *)
(***************************************************************************)
RdObs == LET hs == SetToSortSeq({h \in DOMAIN objs' : objs'[h].st = "live" /\ ~\E x \in DOMAIN objs' : h \in objs'[x].src /\ objs'[x].acc = "rw"}, LAMBDA x, y : x < y)
         IN [k \in 1 .. Len(hs) |-> LET o == objs'[hs[k]] IN
              IF o.t = "d" THEN [op |-> "all", h |-> hs[k], r |-> o.lay.r, c |-> o.lay.c, len |-> o.len]
              ELSE [op |-> "all", h |-> hs[k], r |-> o.lay.r, c |-> o.lay.c]]
Snap == [op |-> "snap", ids |-> SetToSortSeq(DOMAIN bufs', LAMBDA x, y : x < y)]
EmitStep == (Emit > 0 /\ Made' >= Emit) => PrintT("HIST " \o ToJson(hist') \o " OBS " \o ToJson(Append(RdObs, Snap)))
=============================================================================
