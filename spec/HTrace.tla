------------------------------- MODULE HTrace -------------------------------
(***************************************************************************)
(* Validates traces recorded from the real library (ndjson, one line per   *)
(* call with its parameters and observed outcome, results and memory)      *)
(* against Householder.tla.  A trace file is a sequence of sessions, each  *)
(* starting with a "reset" line; every session is one behaviour that the   *)
(* specification must allow line by line.  A line it does not allow leaves *)
(* the session stuck, which TLC reports as a deadlock; the reason is       *)
(* printed as MISMATCH (library and specification disagree) or BADPROGRAM  *)
(* (the driver made a call that is not admissible: a bug of the driver).   *)
(***************************************************************************)
EXTENDS Refine, BigLayouts, Arctan, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.HTRACE)

VARIABLE l

tvars == <<ses, bufs, objs, rng, l>>

E == Trace[l]

Starts == {i \in 1 .. Len(Trace) : Trace[i].op = "reset"}
Has(f) == f \in DOMAIN E

TInit == /\ l \in {i + 1 : i \in Starts}
         /\ ses = [cx |-> Trace[l - 1].cx, nz |-> Trace[l - 1].nz, p |-> Trace[l - 1].p, lg |-> Trace[l - 1].lg,
                    lot |-> Trace[l - 1].lot]
         /\ bufs = <<>> /\ objs = <<>> /\ rng = 0

AtEnd == l > Len(Trace) \/ Trace[l].op \in {"reset", "end"}

\* observed value equals the specified one
Chk(what, expected, observed) ==
  IF expected = observed THEN TRUE
  ELSE PrintT(<<"MISMATCH", "line", l, what, "expected", expected, "observed", observed>>) /\ FALSE
\* the call is admissible
Pre(what, cond) ==
  IF cond THEN TRUE ELSE PrintT(<<"BADPROGRAM", "line", l, what>>) /\ FALSE

(* Observations *)
Table(h) == LET L == LayOf(h) IN
  [i \in 1 .. L.r |-> [j \in 1 .. L.c |->
     IF Stored(L, i - 1, j - 1) THEN Val(h, i - 1, j - 1) ELSE VZero(ses)]]

\* element reads of leaves recorded while the call ran: rd is a sequence of
\* [leaf, bad, c1, c2]: bad counts reads out of range, c1[i] reads of logical
\* index i-1, c2[r][c] reads of position (r-1, c-1)
ReadCount(q, p) == LET L == LayOf(q.leaf)
                       i == To1D(L, p[1], p[2]) + 1
                   IN (IF Len(q.c1) > 0 THEN q.c1[i] ELSE 0)
                      + (IF Len(q.c2) > 0 THEN q.c2[p[1] + 1][p[2] + 1] ELSE 0)
RdShape(q) == LET L == LayOf(q.leaf) IN
  /\ Len(q.c1) \in {0, NElem(L)}
  /\ Len(q.c2) \in {0, L.r}
  /\ \A i \in 1 .. Len(q.c2) : Len(q.c2[i]) = L.c
NoReads(rd) == Chk("no element of an operand is read", <<>>, rd)
\* only position pos of the leaves of h is read
ReadsOnly(h, pos, rd) == TLCEval(
  \A k \in 1 .. Len(rd) :
    LET q == rd[k] IN
    /\ Chk("only operands of the object are read", TRUE, q.leaf \in Leaves(h))
    /\ Chk("no operand is read out of range", 0, q.bad)
    /\ Chk("shape of the read record", TRUE, RdShape(q))
    /\ LET L == LayOf(q.leaf) IN
       \A r \in 0 .. L.r - 1, c \in 0 .. L.c - 1 : Stored(L, r, c) =>
         Chk("only the addressed element of an operand is read", TRUE,
             <<r, c>> = pos \/ ReadCount(q, <<r, c>>) = 0))
\* every element of every leaf of h is read exactly once per occurrence
SinglePass(h, rd) == TLCEval(
  LET empty == NElem(LayOf(h)) = 0 IN
  /\ Chk("operands read", IF empty THEN {} ELSE Leaves(h), {rd[k].leaf : k \in 1 .. Len(rd)})
  /\ \A k \in 1 .. Len(rd) :
       LET q == rd[k] IN
       /\ Chk("no operand is read out of range", 0, q.bad)
       /\ Chk("shape of the read record", TRUE, RdShape(q))
       /\ LET L == LayOf(q.leaf)
              m == Mult(h, q.leaf) IN
          \A r \in 0 .. L.r - 1, c \in 0 .. L.c - 1 : Stored(L, r, c) =>
            Chk(<<"reads of element", <<r, c>>, "of operand", q.leaf>>, m, ReadCount(q, <<r, c>>)))

\* cells requested from recording containers: those of the addressed element in
\* the operands (the object itself when it has memory of its own)
Touches(h, pos, tch) ==
  Len(tch) > 0 => LET cells == {Raw(LayOf(x), pos[1], pos[2]) : x \in Leaves(h)} IN
    \A k \in 1 .. Len(tch) : Chk(<<"container cell accessed", tch[k]>>, TRUE, tch[k] \in cells)

MemIs(b, mem) == Chk(<<"memory of buffer", b>>, bufs'[b], mem)

(* Steps.  Names of the fields are those the driver writes. *)
XArena == Pre("arena", FreshB(E.b)) /\ Arena(E.b, E.init)

XOverArena ==
  LET L == SLay(E.k, E.r, E.c, E.s0, E.s1) IN
  /\ Pre("overarena", OverArenaPre(E.h, E.b, E.off, E.len, E.acc) /\ ValidShape(E.k, E.r, E.c)
                      /\ (E.via = "ptr" => Fits(L, E.len) /\ Extent(L) = E.len))
  /\ Chk("outcome", FromDataOut(L, E.len), E.out)
  /\ OverArena(E.h, E.b, E.off, E.len, L, E.sz, E.acc, E.out)

XOverNew ==
  LET L == SLay(E.k, E.r, E.c, E.s0, E.s1) IN
  /\ Pre("overnew", OverNewPre(E.h, E.b) /\ ValidShape(E.k, E.r, E.c))
  /\ Chk("outcome", FromDataOut(L, E.len), E.out)
  /\ OverNew(E.h, E.b, E.len, L, E.sz, E.out)
  /\ E.out = "ok" => MemIs(E.b, E.mem)

XZeros ==
  /\ Pre("zeros", Fresh(E.h) /\ FreshB(E.b))
  /\ Chk("outcome", MakeZerosOut(E.k, E.r, E.c), E.out)
  /\ MakeZeros(E.h, E.b, E.k, E.r, E.c, E.sz, E.out)
  /\ Chk("evaluations of the argument", 1, E.evals)
  /\ E.out = "ok" => MemIs(E.b, E.mem)

\* random matrix macros: the shape is determined, the content is not
XRandMacro ==
  LET L == Lay(E.k, E.r, E.c) IN
  /\ Chk("outcome", MakeZerosOut(E.k, E.r, E.c), E.out)
  /\ Chk("evaluations of the argument", 1, E.evals)
  /\ E.out = "ok" => /\ Chk("dim", <<L.r, L.c>>, E.dim)
                     /\ Chk("number of elements", NElem(L), E.n)
                     /\ Chk("locations", [i \in 1 .. NElem(L) |-> i - 1], E.raw1)
                     /\ Chk("elements are numbers", TRUE, E.finite)
                     /\ Chk("elements that were not filled", 0, E.zeros)
  /\ UNCHANGED vars

\* length of a row vector made directly over a container of n cells
XBLen ==
  LET L == Lay("RV", 1, E.len) IN
  /\ Chk("outcome", FromDataOut(L, E.n), E.out)
  /\ E.out = "ok" => Chk("length", E.len, E.length)
  /\ UNCHANGED vars

XDrop == Pre("drop", Movable(E.h)) /\ Drop(E.h)

XGet ==
  /\ Pre("get", Readable(E.h) /\ (~E.chk => Stored(LayOf(E.h), E.r, E.c)))
  /\ Chk("outcome", GetOut(E.h, E.r, E.c), E.out)
  /\ E.out = "ok" => /\ Chk("element", Val(E.h, E.r, E.c), E.v)
                     /\ Touches(E.h, <<E.r, E.c>>, E.tch)
  /\ ReadsOnly(E.h, <<E.r, E.c>>, E.rd)
  /\ Get(E.h, E.r, E.c, E.out, E.v)

XGet1 ==
  /\ Pre("get1", Readable(E.h) /\ (~E.chk => Get1Out(E.h, E.i) = "ok"))
  /\ Chk("outcome", Get1Out(E.h, E.i), E.out)
  /\ E.out = "ok" => LET p == To2D(LayOf(E.h), E.i) IN
                     /\ Chk("element", Val1(E.h, E.i), E.v)
                     /\ Touches(E.h, p, E.tch)
                     /\ ReadsOnly(E.h, p, E.rd)
  /\ E.out # "ok" => NoReads(E.rd)
  /\ Get1(E.h, E.i, E.out, E.v)

XSet ==
  /\ Pre("set", SetPre(E.h) /\ (~E.chk => Stored(LayOf(E.h), E.r, E.c)))
  /\ Chk("outcome", GetOut(E.h, E.r, E.c), E.out)
  /\ Set(E.h, E.r, E.c, E.v, E.out)
  /\ E.out = "ok" => Touches(E.h, <<E.r, E.c>>, E.tch)
  /\ MemIs(objs[Target(E.h)].buf, E.mem)

XSet1 ==
  /\ Pre("set1", SetPre(E.h) /\ (~E.chk => Get1Out(E.h, E.i) = "ok"))
  /\ Chk("outcome", Get1Out(E.h, E.i), E.out)
  /\ Set1(E.h, E.i, E.v, E.out)
  /\ E.out = "ok" => Touches(E.h, To2D(LayOf(E.h), E.i), E.tch)
  /\ MemIs(objs[Target(E.h)].buf, E.mem)

\* all elements by all ways of reading
XAll ==
  /\ Pre("all", Readable(E.h))
  /\ Chk("elements by (row, col)", Table(E.h), E.g2)
  /\ Chk("elements by index", Flat(E.h), E.g1)
  /\ Chk("elements by (row, col), unchecked", Table(E.h), E.u2)
  /\ Chk("elements by index, unchecked", Flat(E.h), E.u1)
  /\ LET cells == IF Has("len") /\ E.len > 0 THEN SliceVals(E.h, 0, E.len) ELSE <<>> IN
       /\ Pre("all: len", Has("len") => IsDense(E.h) /\ E.len = objs[E.h].len)
       /\ Chk("cells by raw slice", cells, E.sl)
       /\ Chk("cells by raw pointer", cells, E.pt)
       /\ Has("wr") =>
            /\ Pre("all: wr", SetPre(E.h))
            /\ Chk("elements by (row, col), writable", Table(E.h), E.w2)
            /\ Chk("elements by index, writable", Flat(E.h), E.w1)
            /\ Chk("cells by writable raw slice", cells, E.ws)
            /\ Chk("cells by writable raw pointer", cells, E.wp)
  /\ UNCHANGED vars

\* shape queries
XMeta ==
  LET L == LayOf(E.h) IN
  /\ Pre("meta", Readable(E.h))
  /\ Chk("dim", DimOf(E.h), E.dim)
  /\ Chk("dim of layout", DimOf(E.h), E.ldim)
  /\ Chk("compile-time sizes", SizeIds(objs[E.h].sz), E.sid)
  /\ Chk("number of elements", NElem(L), E.n)
  /\ Chk("stride", IF HasStride(L) THEN Stride(L) ELSE <<>>, E.stride)
  /\ Chk("length", CASE objs[E.h].sz = "1D" -> L.c
                     [] objs[E.h].sz = "D1" -> L.r
                     [] OTHER -> -1, E.length)
  /\ UNCHANGED vars

\* index conversions of a layout; positions as table, -1 where nothing is stored
PosTable(L, f(_, _)) ==
  [i \in 1 .. L.r |-> [j \in 1 .. L.c |->
     IF Stored(L, i - 1, j - 1) THEN f(i - 1, j - 1) ELSE -1]]
ConvIs(L) ==
  LET n == NElem(L) IN
  /\ Chk("dim", <<L.r, L.c>>, E.dim)
  /\ Chk("number of elements", n, E.n)
  /\ Chk("stride", IF HasStride(L) THEN Stride(L) ELSE <<>>, E.stride)
  /\ Chk("convert_1d_2d", [i \in 1 .. n |-> To2D(L, i - 1)], E.c12)
  /\ Chk("convert_2d_1d", PosTable(L, LAMBDA r, c : To1D(L, r, c)), E.c21)
  /\ Chk("convert_2d_raw", PosTable(L, LAMBDA r, c : Raw(L, r, c)), E.raw2)
  /\ Chk("convert_1d_raw", [i \in 1 .. n |-> Raw1(L, i - 1)], E.raw1)
  /\ Chk("dim of index layout", <<L.r, L.c>>, E.idim)
  /\ Chk("number of elements of index layout", n, E.inum)
  /\ Chk("convert_1d_2d of index layout", [i \in 1 .. n |-> To2D(L, i - 1)], E.ic12)
  /\ Chk("convert_2d_1d of index layout", PosTable(L, LAMBDA r, c : To1D(L, r, c)), E.ic21)
  /\ Chk("convert_1d_raw of index layout", [i \in 1 .. n |-> i - 1], E.iraw1)
  /\ Chk("convert_2d_raw of index layout", PosTable(L, LAMBDA r, c : To1D(L, r, c)), E.iraw2)
XConvH == Pre("convh", Readable(E.h)) /\ ConvIs(LayOf(E.h)) /\ UNCHANGED vars

XLayout ==   \* a layout on its own
  LET L == SLay(E.k, E.r, E.c, E.s0, E.s1)
      ok == E.via = "fromdim" => ValidShape(E.k, E.r, E.c)
  IN /\ Pre("layout", E.via = "fromdim" \/ ValidShape(E.k, E.r, E.c))
     /\ Chk("outcome", IF ok THEN "ok" ELSE "panic", E.out)
     /\ ok => ConvIs(L)
     /\ UNCHANGED vars

\* a layout too large for memory over a container that claims E.n cells
XBig ==
  LET B == [k |-> E.k, r |-> E.r, c |-> E.c, s0 |-> E.s0, s1 |-> E.s1]
      fits == BFits(B, E.n)
      \* does index i exist?  twice: 2 i < 2 n
      exists(i) == BLess(BTwice(i), BNElem2(B))
      outcome(b) == IF b THEN "ok" ELSE "panic"
      none == <<-1>>
  IN
  /\ Pre("big: size", BLess(E.n, BWord) /\ (E.k = "UT" => BLess(BMul(E.r, E.r), BWord)) /\ BLess(BMul(E.r, E.c), BWord))
  /\ Chk("outcome", outcome(fits), E.out)
  /\ fits =>
       /\ Chk("dim", <<E.r, E.c>>, E.dim)
       /\ Chk("number of elements (twice)", BNElem2(B), BTwice(E.cnt))
       /\ Chk("stride", IF HasStride(B) THEN BStride(B) ELSE <<>>, E.stride)
       /\ \A j \in 1 .. Len(E.conv1) : LET q == E.conv1[j] IN
            /\ Pre("big: index", exists(q.i))
            /\ Chk(<<"conversion of index", q.i>>, "ok", q.ok)
            /\ Chk(<<"convert_1d_2d", q.i, q.pos>>, TRUE, IsIndex(B, q.pos, q.i))
            /\ Chk(<<"convert_1d_raw", q.i, q.raw>>, TRUE, IsRaw(B, q.pos, q.i, q.raw))
            /\ Chk(<<"convert_1d_2d of index layout", q.i>>, q.pos, q.ipos)
            /\ Chk(<<"convert_1d_raw of index layout", q.i>>, q.i, q.iraw)
       /\ \A j \in 1 .. Len(E.conv2) : LET q == E.conv2[j] IN
            /\ Pre("big: position", BStored(B, q.pos))
            /\ Chk(<<"conversion of position", q.pos>>, "ok", q.ok)
            /\ Chk(<<"convert_2d_1d", q.pos, q.i>>, TRUE, IsIndex(B, q.pos, q.i))
            /\ Chk(<<"convert_2d_raw", q.pos, q.raw>>, TRUE, IsRaw(B, q.pos, q.i, q.raw))
            /\ Chk(<<"convert_2d_1d of index layout", q.pos>>, q.i, q.ii)
            /\ Chk(<<"convert_2d_raw of index layout", q.pos>>, q.i, q.iraw)
       /\ \A j \in 1 .. Len(E.acc1) : LET q == E.acc1[j] IN
            /\ Chk(<<"read at index", q.i>>, outcome(exists(q.i)), q.g)
            /\ Chk(<<"write at index", q.i>>, outcome(exists(q.i)), q.s)
            /\ Chk(<<"cells at index", q.i>>, q.gc, q.sc)
            /\ IF ~exists(q.i) THEN Chk(<<"cell at index", q.i>>, none, q.gc)
               ELSE \A m \in 1 .. Len(E.conv1) :
                      E.conv1[m].i = q.i => Chk(<<"cell at index", q.i>>, E.conv1[m].raw, q.gc)
       /\ \A j \in 1 .. Len(E.acc2) : LET q == E.acc2[j] IN
            /\ Chk(<<"read at", q.pos>>, outcome(BStored(B, q.pos)), q.g)
            /\ Chk(<<"write at", q.pos>>, outcome(BStored(B, q.pos)), q.s)
            /\ Chk(<<"cells at", q.pos>>, q.gc, q.sc)
            /\ IF ~BStored(B, q.pos) THEN Chk(<<"cell at", q.pos>>, none, q.gc)
               ELSE Chk(<<"cell at", q.pos>>, TRUE,
                        IF E.k = "UT" THEN IsIndex(B, q.pos, q.gc) ELSE q.gc = BRaw(B, q.pos))
  /\ UNCHANGED vars

\* out-of-range probes: [w |-> way, a |-> , b |-> , out |-> ]
ProbeOut(h, q) ==
  IF q.w \in {"get", "set"} THEN GetOut(h, q.a, q.b) ELSE Get1Out(h, q.a)
XProbe ==
  /\ Pre("probe", Readable(E.h) /\ E.mb \in {0} \cup DOMAIN bufs
        /\ \A k \in 1 .. Len(E.ps) : E.ps[k].w \in {"set", "set1"} => SetPre(E.h))
  /\ \A k \in 1 .. Len(E.ps) :
       Chk(<<"outcome of probe", k, E.ps[k].w, E.ps[k].a, E.ps[k].b>>,
           ProbeOut(E.h, E.ps[k]), E.ps[k].out)
  /\ IF E.mb # 0 THEN Chk(<<"memory of buffer", E.mb>>, bufs[E.mb], E.mem) ELSE TRUE
  /\ UNCHANGED vars

XSlice ==
  /\ Pre("slice", Readable(E.h) /\ IsDense(E.h))
  /\ Chk("outcome", SliceOut(E.h, E.f, E.t), E.out)
  /\ E.out = "ok" => Chk("cells", SliceVals(E.h, E.f, E.t), E.vals)
  /\ Slice(E.h, E.f, E.t, E.out, E.vals)

XSliceW ==
  /\ Pre("slicew", Writable(E.h) /\ IsDense(E.h))
  /\ Chk("outcome", SliceOut(E.h, E.f, E.t), E.out)
  /\ Pre("slicew: values", E.out = "ok" => Len(E.vals) = E.t - E.f)
  /\ Chk("number of cells", IF E.out = "ok" THEN E.t - E.f ELSE 0, E.n)
  /\ SliceWrite(E.h, E.f, E.t, E.vals, E.out)
  /\ MemIs(objs[E.h].buf, E.mem)

XEach ==
  /\ Pre("each", Writable(E.h) /\ IsDense(E.h) /\ Len(E.news) >= NElem(LayOf(E.h)))
  /\ LET k == IF Has("stop") THEN E.stop ELSE 0 IN    \* the function panics in its k-th call
       /\ Pre("each: stop", k \in 0 .. NElem(LayOf(E.h)))
       /\ Chk("outcome", IF k > 0 THEN "panic" ELSE "ok", E.out)
       /\ Chk("values passed to the function", IF k > 0 THEN SubSeq(Flat(E.h), 1, k) ELSE Flat(E.h), E.seen)
       /\ IF k > 0 THEN ForEachUntil(E.h, E.news, k, E.seen) ELSE ForEach(E.h, E.news, E.seen)
  /\ MemIs(objs[E.h].buf, E.mem)

XFill ==
  /\ Pre("fill", Writable(E.h) /\ IsDense(E.h))
  /\ FillRandom(E.h)
  /\ MemIs(objs[E.h].buf, E.mem)
  /\ Chk("draws consumed", rng', E.draws)

XRandomScalar ==
  /\ Chk("value", Draw(0), E.v)
  /\ RandomScalar
  /\ Chk("draws consumed", rng', E.draws)

XBlock ==
  /\ Pre("block", BlockPre(E.h, E.h2, E.mut))
  /\ Chk("outcome", BlockOut(E.h, E.tl, E.bd), E.out)
  /\ Block(E.h, E.h2, E.tl, E.bd, E.mut, E.out)

XSplit ==
  /\ Pre("split", SplitPre(E.h, E.hs))
  /\ Chk("outcome", SplitOut(E.h, E.at), E.out)
  /\ Split(E.h, E.hs, E.at, E.out)

XAdd ==
  /\ Pre("add", AddPre(E.h, E.a, E.am, E.b, E.bm))
  /\ Chk("outcome", AddOut(E.a, E.b), E.out)
  /\ NoReads(E.rd)
  /\ Add(E.h, E.a, E.am, E.b, E.bm, E.out)

XSMul ==
  /\ Pre("smul", Fresh(E.h) /\ OperandPre(E.a, E.am))
  /\ Chk("outcome", "ok", E.out)
  /\ NoReads(E.rd)
  /\ SMul(E.h, E.s, E.a, E.am)

XRef ==
  /\ Pre("ref", Fresh(E.h) /\ Readable(E.a))
  /\ Chk("outcome", "ok", E.out)
  /\ NoReads(E.rd)
  /\ Ref(E.h, E.a)

XRefMut ==
  /\ Pre("refm", Fresh(E.h) /\ SetPre(E.a))
  /\ Chk("outcome", "ok", E.out)
  /\ RefMut(E.h, E.a)

XEval ==
  /\ Pre("eval", EvalPre(E.a, E.h, E.b))
  /\ Chk("outcome", "ok", E.out)
  /\ IF E.rdon THEN SinglePass(E.a, E.rd) ELSE TRUE
  /\ Eval(E.a, E.h, E.b)
  /\ MemIs(E.b, E.mem)

XMatMul ==
  /\ Pre("matmul", MatMulPre(E.a, E.b, E.c))
  /\ Chk("outcome", MatMulOut(E.a, E.b, E.c), E.out)
  /\ LET L == LayOf(E.c)
         o == objs[E.c]
         ok == E.out = "ok"
         seen == [i \in 1 .. NElem(L) |-> E.mem[o.off + Raw1(L, i - 1) + 1]]
     IN IF ~ok THEN MatMul(E.alpha, E.a, E.b, E.beta, E.c, E.out, <<>>)
        ELSE IF ses.p = 0
        THEN MatMul(E.alpha, E.a, E.b, E.beta, E.c, E.out, MatMulVals(E.alpha, E.a, E.b, E.beta, E.c))
        ELSE /\ Chk("size of the memory", Len(bufs[o.buf]), Len(E.mem))
             /\ \A i \in Compared(NElem(L)) : LET p == To2D(L, i - 1) IN
                  Chk(<<"element", p, "is accurate to rounding", seen[i]>>, TRUE,
                      MatMulRounded(E.alpha, E.a, E.b, E.beta, E.c, p[1], p[2], seen[i]))
             /\ MatMul(E.alpha, E.a, E.b, E.beta, E.c, E.out, seen)
  /\ MemIs(objs[E.c].buf, E.mem)

XDot ==
  /\ Pre("dot", DotPre(E.a, E.b, E.h, E.nb))
  /\ Chk("outcome", DotOut(E.a, E.b), E.out)
  /\ IF E.out = "ok" /\ ses.p > 0
     THEN LET L == DotLay(E.a, E.b) IN
          /\ Chk("size of the memory", NElem(L), Len(E.mem))
          /\ \A i \in Compared(NElem(L)) : LET p == To2D(L, i - 1) IN
               Chk(<<"element", p, "is accurate to rounding", E.mem[i]>>, TRUE,
                   ProdRounded(E.a, E.b, p[1], p[2], E.mem[i]))
          /\ Dot(E.a, E.b, E.h, E.nb, E.out, E.mem)
     ELSE Dot(E.a, E.b, E.h, E.nb, E.out, IF E.out = "ok" THEN DotVals(E.a, E.b) ELSE <<>>)
  /\ E.out = "ok" => MemIs(E.nb, E.mem)

\* the four-quadrant arctangent of two real scalars; complex ones have none
XAtan2 ==
  /\ Chk("outcome", IF ses.cx THEN "panic" ELSE "ok", E.out)
  /\ E.out = "ok" => Chk(<<"angle of", E.x, E.y, "is accurate to rounding", E.th>>, TRUE, IsAtan2(E.y, E.x, E.th))
  /\ UNCHANGED vars

\* the memory of every buffer
XSnap ==
  /\ Pre("snap", {E.ids[k] : k \in 1 .. Len(E.ids)} = DOMAIN bufs)
  /\ \A k \in 1 .. Len(E.ids) : Chk(<<"memory of buffer", E.ids[k]>>, bufs[E.ids[k]], E.mems[k])
  /\ UNCHANGED vars

Step ==
  CASE E.op = "arena"    -> XArena
    [] E.op = "over"     -> XOverArena
    [] E.op = "new"      -> XOverNew
    [] E.op = "zeros"    -> XZeros
    [] E.op = "drop"     -> XDrop
    [] E.op = "get"      -> XGet
    [] E.op = "get1"     -> XGet1
    [] E.op = "set"      -> XSet
    [] E.op = "set1"     -> XSet1
    [] E.op = "all"      -> XAll
    [] E.op = "meta"     -> XMeta
    [] E.op = "convh"    -> XConvH
    [] E.op = "layout"   -> XLayout
    [] E.op = "probe"    -> XProbe
    [] E.op = "slice"    -> XSlice
    [] E.op = "slicew"   -> XSliceW
    [] E.op = "each"     -> XEach
    [] E.op = "fill"     -> XFill
    [] E.op = "rscal"    -> XRandomScalar
    [] E.op = "block"    -> XBlock
    [] E.op = "split"    -> XSplit
    [] E.op = "add"      -> XAdd
    [] E.op = "smul"     -> XSMul
    [] E.op = "ref"      -> XRef
    [] E.op = "refm"     -> XRefMut
    [] E.op = "eval"     -> XEval
    [] E.op = "matmul"   -> XMatMul
    [] E.op = "dot"      -> XDot
    [] E.op = "atan2"    -> XAtan2
    [] E.op = "snap"     -> XSnap
    [] E.op = "rmac"     -> XRandMacro
    [] E.op = "blen"     -> XBLen
    [] E.op = "big"      -> XBig
    [] E.op \in {"panicked", "abort", "hang"} -> Chk(<<"outcome of", E.of>>, "returns", E.op)
    [] OTHER -> Pre("unknown operation", FALSE)

TNext == \/ ~AtEnd /\ Step /\ l' = l + 1
         \/ AtEnd /\ UNCHANGED tvars

TSpec == TInit /\ [][TNext]_tvars

\* every recorded call is also a step of the layout-free specification (not
\* evaluated for sessions with matrices of thousands of elements)
LogicalTrace == [][(~AtEnd /\ ses.lg /\ Separate) => Log!LCall(E)]_tvars

\* raw cells of one quadrant of a split matrix are not elements of another
\* (does not hold: known finding C07-raw)
QuadrantCells == [][(~AtEnd /\ E.op = "slicew") =>
  \A h \in DenseHandles : (h # E.h /\ Writable(h)) =>
    \A cell \in Footprint(h) : bufs'[cell[1]][cell[2]] = bufs[cell[1]][cell[2]]]_tvars

\* invariants that intersect footprints, likewise
TExclusiveWriters == ses.lg => ExclusiveWriters
TNoReadWriteRace == ses.lg => NoReadWriteRace

Where == [l |-> l]
=============================================================================
