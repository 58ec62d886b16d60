------------------------------- MODULE Logical -------------------------------
(***************************************************************************)
(* The library as its user thinks of it: matrices are functions from       *)
(* positions to scalars.  There is no memory, no layout, no stride and no  *)
(* container; a view shows part of a root matrix, a lazy object is an      *)
(* expression.  Householder.tla refines this specification for every       *)
(* assignment of layouts and containers (MC.tla checks it over all small   *)
(* instances, HLogical.cfg along traces recorded from the real library),   *)
(* which is what makes programs independent of storage (property C17).     *)
(*                                                                         *)
(* lobj  handle -> [t, r, c, ord, root, org, kids, s, st, acc, src]        *)
(*       t "d" (matrix or view), "add", "sm", "ref", "refm";               *)
(*       ord the documented one-dimensional order: "row", "col" or "tri";  *)
(*       root, org: the matrix a view shows, and where it starts           *)
(* lval  root handle -> [position -> scalar]                               *)
(* lrng  number of random draws consumed                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, HValues

VARIABLES lses, lobj, lval, lrng
lvars == <<lses, lobj, lval, lrng>>

LRect(r, c, ord) == {p \in (0 .. r - 1) \X (0 .. c - 1) : ord = "tri" => p[2] >= p[1]}
LPos(h) == LRect(lobj[h].r, lobj[h].c, lobj[h].ord)

\* one-dimensional order, defined by counting
LBefore(ord, p, q) == CASE ord = "row" -> p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
                        [] ord = "col" -> p[2] < q[2] \/ (p[2] = q[2] /\ p[1] < q[1])
                        [] ord = "tri" -> p[1] > q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
LRank(P, ord, p) == Cardinality({q \in P : LBefore(ord, q, p)})
LAt(h, i) == CHOOSE p \in LPos(h) : LRank(LPos(h), lobj[h].ord, p) = i
LHas(h, i) == i >= 0 /\ i < Cardinality(LPos(h))

RECURSIVE LVal(_, _)
LVal(h, p) ==
  LET o == lobj[h] IN
  CASE o.t = "d"   -> lval[o.root][<<p[1] + o.org[1], p[2] + o.org[2]>>]
    [] o.t = "add" -> VAdd(lses, LVal(o.kids[1], p), LVal(o.kids[2], p))
    [] o.t = "sm"  -> VMul(lses, o.s, LVal(o.kids[1], p))
    [] OTHER       -> LVal(o.kids[1], p)

RECURSIVE LTarget(_)
LTarget(h) == IF lobj[h].t = "d" THEN h ELSE LTarget(lobj[h].kids[1])

LWith(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
LWithout(f, S) == [x \in (DOMAIN f) \ S |-> f[x]]

RECURSIVE LClosure(_)
LClosure(h) == {h} \cup UNION {LClosure(lobj[h].kids[j]) :
                 j \in {k \in 1 .. Len(lobj[h].kids) : lobj[lobj[h].kids[k]].st = "moved"}}

Abs(s) == lval' = s
SameVals == lval' = lval
SameObjs == lobj' = lobj
SameRng  == lrng' = lrng

\* the root of h with the elements vals[p] at the positions p of h
LStored(h, vals) ==
  LET o == lobj[LTarget(h)] IN
  [lval EXCEPT ![o.root] =
     [q \in DOMAIN @ |-> LET p == <<q[1] - o.org[1], q[2] - o.org[2]>> IN
                         IF p \in DOMAIN vals THEN vals[p] ELSE @[q]]]
LSetAt(h, p, v) == lval' = LStored(h, [q \in {p} |-> v])

LRoot(h, r, c, ord, acc) ==
  [t |-> "d", r |-> r, c |-> c, ord |-> ord, root |-> h, org |-> <<0, 0>>,
   kids |-> <<>>, s |-> 0, st |-> "live", acc |-> acc, src |-> {}]
LView(h, tl, r, c, acc) ==
  [t |-> "d", r |-> r, c |-> c, ord |-> lobj[h].ord, root |-> lobj[h].root,
   org |-> <<lobj[h].org[1] + tl[1], lobj[h].org[2] + tl[2]>>,
   kids |-> <<>>, s |-> 0, st |-> "live", acc |-> acc, src |-> {h}]
LLazy(t, kids, s, acc) ==
  [t |-> t, r |-> lobj[kids[1]].r, c |-> lobj[kids[1]].c, ord |-> lobj[kids[1]].ord, root |-> 0, org |-> <<0, 0>>,
   kids |-> kids, s |-> s, st |-> "live", acc |-> acc, src |-> {kids[j] : j \in 1 .. Len(kids)}]
LConsume(f, S) == [x \in DOMAIN f |-> IF x \in S THEN [f[x] EXCEPT !.st = "moved"] ELSE f[x]]

LOrd(k) == CASE k \in {"RM", "ASRM", "RV", "ASRV"} -> "row"
             [] k \in {"CM", "ASCM", "CV", "ASCV"} -> "col"
             [] k = "UT" -> "tri"

RECURSIVE LSum(_, _, _, _)
LSum(a, b, p, k) == IF k = 0 THEN VZero(lses)
  ELSE VAdd(lses, LSum(a, b, p, k - 1), VMul(lses, LVal(a, <<p[1], k - 1>>), LVal(b, <<k - 1, p[2]>>)))
LProd(a, b, p) == LSum(a, b, p, lobj[a].c)

\* inexact numbers: exact product, magnitude of its terms; accepted results
RECURSIVE LExact(_, _, _, _)
LExact(a, b, p, k) ==
  IF k = 0 THEN <<VZero(lses), <<>>>>
  ELSE LET r == LExact(a, b, p, k - 1)
           u == LVal(a, <<p[1], k - 1>>)
           v == LVal(b, <<k - 1, p[2]>>)
       IN TLCEval(<<EAdd(lses, r[1], EMul(lses, u, v)), BAdd(r[2], BMul(EMag(lses, u), EMag(lses, v)))>>)
LRounded(x, k, p, v) ==
  LET r == LExact(x.a, x.b, p, k)
      z == LVal(x.c, p)
  IN IsRounded(lses, v, EAdd(lses, EMul(lses, x.alpha, r[1]), EMul(lses, x.beta, z)), k,
               BAdd(BMul(EMag(lses, x.alpha), r[2]), BMul(EMag(lses, x.beta), EMag(lses, z))))

LRemove(S) == /\ lobj' = LWithout(lobj, S)
              /\ lval' = LWithout(lval, S)

(***************************************************************************)
(* The effect of one call x (op and parameters as the driver records them, *)
(* with the outcome x.out where there is one).  No parameter of any call   *)
(* other than a constructor mentions layouts.                              *)
(***************************************************************************)
LNothing == SameObjs /\ SameVals /\ SameRng

LMake(x, zero) ==
  IF x.out # "ok" THEN LNothing
  ELSE LET o == LRoot(x.h, x.r, x.c, LOrd(x.k), IF zero THEN "own" ELSE x.acc)
           P == LRect(x.r, x.c, LOrd(x.k))
       IN /\ lobj' = LWith(lobj, x.h, o)
          /\ DOMAIN lval' = DOMAIN lval \cup {x.h}
          /\ \A h \in DOMAIN lval : lval'[h] = lval[h]
          /\ DOMAIN lval'[x.h] = P
          /\ zero => \A p \in P : lval'[x.h][p] = VZero(lses)
          /\ SameRng

LDraw(n) == IF lses.cx THEN <<1000000 + lrng + 2 * n, 1000000 + lrng + 2 * n + 1>> ELSE 1000000 + lrng + n

LCall(x) ==
  CASE x.op = "over"  -> LMake(x, FALSE)
    [] x.op \in {"new", "zeros"} -> LMake(x, TRUE)
    [] x.op = "drop"  -> LRemove(LClosure(x.h)) /\ SameRng
    [] x.op = "get"   -> /\ LNothing
                         /\ x.out = IF <<x.r, x.c>> \in LPos(x.h) THEN "ok" ELSE "panic"
                         /\ x.out = "ok" => x.v = LVal(x.h, <<x.r, x.c>>)
    [] x.op = "get1"  -> /\ LNothing
                         /\ x.out = IF LHas(x.h, x.i) THEN "ok" ELSE "panic"
                         /\ x.out = "ok" => x.v = LVal(x.h, LAt(x.h, x.i))
    [] x.op = "set"   -> /\ x.out = IF <<x.r, x.c>> \in LPos(x.h) THEN "ok" ELSE "panic"
                         /\ IF x.out = "ok" THEN LSetAt(x.h, <<x.r, x.c>>, x.v) ELSE SameVals
                         /\ SameObjs /\ SameRng
    [] x.op = "set1"  -> /\ x.out = IF LHas(x.h, x.i) THEN "ok" ELSE "panic"
                         /\ IF x.out = "ok" THEN LSetAt(x.h, LAt(x.h, x.i), x.v) ELSE SameVals
                         /\ SameObjs /\ SameRng
    [] x.op = "each"  -> /\ LET P == LPos(x.h)
                                rank(p) == LRank(P, lobj[x.h].ord, p) + 1
                                Q == {p \in P : rank(p) <= Len(x.seen)}    \* all of P unless the function panics
                            IN
                              /\ Len(x.seen) = IF "stop" \in DOMAIN x THEN x.stop ELSE Cardinality(P)
                              /\ \A p \in Q : x.seen[rank(p)] = LVal(x.h, p)
                              /\ lval' = LStored(x.h, [p \in P |-> IF p \in Q THEN x.news[rank(p)] ELSE LVal(x.h, p)])
                         /\ SameObjs /\ SameRng
    [] x.op = "fill"  -> /\ LET P == LPos(x.h) IN
                              /\ lval' = LStored(x.h, [p \in P |-> LDraw(LRank(P, lobj[x.h].ord, p))])
                              /\ lrng' = lrng + Cardinality(P) * (IF lses.cx THEN 2 ELSE 1)
                         /\ SameObjs
    [] x.op = "rscal" -> /\ x.v = LDraw(0)
                         /\ lrng' = lrng + (IF lses.cx THEN 2 ELSE 1)
                         /\ SameObjs /\ SameVals
    [] x.op = "block" -> /\ x.out = IF \A j \in 1 .. 2 : x.tl[j] >= 0 /\ x.bd[j] >= 0
                                      /\ x.tl[j] + x.bd[j] <= <<lobj[x.h].r, lobj[x.h].c>>[j]
                                    THEN "ok" ELSE "panic"
                         /\ IF x.out = "ok"
                            THEN lobj' = LWith(lobj, x.h2, LView(x.h, x.tl, x.bd[1], x.bd[2], IF x.mut THEN "rw" ELSE "ro"))
                            ELSE SameObjs
                         /\ SameVals /\ SameRng
    [] x.op = "split" -> LET R == lobj[x.h].r
                             C == lobj[x.h].c
                             a == x.at[1]
                             b == x.at[2]
                         IN /\ x.out = IF a \in 0 .. R /\ b \in 0 .. C THEN "ok" ELSE "panic"
                            /\ IF x.out = "ok"
                               THEN lobj' = LWith(LWith(LWith(LWith(lobj,
                                      x.hs[1], LView(x.h, <<0, 0>>, a, b, "rw")),
                                      x.hs[2], LView(x.h, <<0, b>>, a, C - b, "rw")),
                                      x.hs[3], LView(x.h, <<a, 0>>, R - a, b, "rw")),
                                      x.hs[4], LView(x.h, <<a, b>>, R - a, C - b, "rw"))
                               ELSE SameObjs
                            /\ SameVals /\ SameRng
    [] x.op = "add"   -> LET moved == {h \in {x.a, x.b} : (h = x.a /\ x.am = "o") \/ (h = x.b /\ x.bm = "o")}
                             same == lobj[x.a].r = lobj[x.b].r /\ lobj[x.a].c = lobj[x.b].c
                         IN /\ x.out = IF same THEN "ok" ELSE "panic"
                            /\ IF same
                               THEN /\ lobj' = LWith(LConsume(lobj, moved), x.h, LLazy("add", <<x.a, x.b>>, 0, "ro"))
                                    /\ SameVals
                               ELSE LRemove(UNION {LClosure(h) : h \in moved})
                            /\ SameRng
    [] x.op = "smul"  -> /\ lobj' = LWith(LConsume(lobj, IF x.am = "o" THEN {x.a} ELSE {}), x.h, LLazy("sm", <<x.a>>, x.s, "ro"))
                         /\ SameVals /\ SameRng
    [] x.op = "ref"   -> lobj' = LWith(lobj, x.h, LLazy("ref", <<x.a>>, 0, "ro")) /\ SameVals /\ SameRng
    [] x.op = "refm"  -> lobj' = LWith(lobj, x.h, LLazy("refm", <<x.a>>, 0, "rw")) /\ SameVals /\ SameRng
    [] x.op = "eval"  -> /\ lobj' = LWith(lobj, x.h, LRoot(x.h, lobj[x.a].r, lobj[x.a].c, lobj[x.a].ord, "own"))
                         /\ lval' = LWith(lval, x.h, [p \in LPos(x.a) |-> LVal(x.a, p)])
                         /\ SameRng
    [] x.op = "matmul"-> LET A == lobj[x.a]
                             B == lobj[x.b]
                             C == lobj[x.c]
                             fit == A.c = B.r /\ C.r = A.r /\ C.c = B.c
                         IN /\ x.out = IF fit THEN "ok" ELSE "panic"
                            /\ IF fit /\ lses.p > 0
                               THEN LET new == [p \in LPos(x.c) |-> lval'[C.root][<<p[1] + C.org[1], p[2] + C.org[2]>>]] IN
                                    /\ lval' = LStored(x.c, new)
                                    /\ \A p \in LPos(x.c) : LRounded(x, A.c, p, new[p])
                               ELSE IF fit
                               THEN lval' = LStored(x.c, [p \in LPos(x.c) |->
                                      VAdd(lses, VMul(lses, x.alpha, LProd(x.a, x.b, p)), VMul(lses, x.beta, LVal(x.c, p)))])
                               ELSE SameVals
                            /\ SameObjs /\ SameRng
    [] x.op = "dot"   -> LET fit == lobj[x.a].c = lobj[x.b].r IN
                         /\ x.out = IF fit THEN "ok" ELSE "panic"
                         /\ IF fit
                            THEN LET r == lobj[x.a].r
                                     c == lobj[x.b].c
                                 IN /\ lobj' = LWith(lobj, x.h, LRoot(x.h, r, c, lobj'[x.h].ord, "own"))
                                    /\ IF lses.p > 0
                                       THEN LET new == [p \in (0 .. r - 1) \X (0 .. c - 1) |-> lval'[x.h][p]] IN
                                            /\ lval' = LWith(lval, x.h, new)
                                            /\ \A p \in DOMAIN new : LET t == LExact(x.a, x.b, p, lobj[x.a].c) IN
                                                 IsRounded(lses, new[p], t[1], lobj[x.a].c, t[2])
                                       ELSE lval' = LWith(lval, x.h, [p \in (0 .. r - 1) \X (0 .. c - 1) |-> LProd(x.a, x.b, p)])
                            ELSE SameObjs /\ SameVals
                         /\ SameRng
    [] x.op = "slicew"-> \* raw cells have no meaning here: it may change elements of the matrix x.h shows, no other
                         /\ SameObjs /\ SameRng
                         /\ \A h \in DOMAIN lval : h # lobj[x.h].root => lval'[h] = lval[h]
    [] OTHER          -> LNothing     \* arena, queries, raw slices, probes
=============================================================================
