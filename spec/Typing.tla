------------------------------- MODULE Typing -------------------------------
(***************************************************************************)
(* Which operands fit together: decided from layouts, compile-time sizes   *)
(* and scalar types alone, before any program runs.  A call is             *)
(*   Accepted  if its operands fit: the compiler takes it, and the result  *)
(*             is a matrix of the layout and sizes given by Result;        *)
(*   Refused   if no operands of these types fit (the elements are         *)
(*             numbered differently, sizes fixed at compile time differ,   *)
(*             scalar types differ, a triangular matrix where positions    *)
(*             are computed from strides): the compiler rejects it.        *)
(* Whatever is neither is left open.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Kinds == {"RM", "CM", "RV", "CV", "UT", "ASRM", "ASCM", "ASRV", "ASCV"}
\* the layout that numbers the elements
Index(k) == CASE k = "ASRM" -> "RM" [] k = "ASCM" -> "CM" [] k = "ASRV" -> "RV" [] k = "ASCV" -> "CV" [] OTHER -> k
Strided(k) == k # "UT"
Scalars == {"f32", "f64", "c32", "c64"}

\* an operand: layout, rows and columns (0: known at run time only), scalar type
Op(k, r, c, t) == [k |-> k, r |-> r, c |-> c, t |-> t]
Is(a, r, c) == a.r = r /\ a.c = c
Differ(m, n) == m # 0 /\ n # 0 /\ m # n
SameT(x) == \A i, j \in 1 .. Len(x) : x[i].t = x[j].t

(* Zero matrices that can be made, by the way t they are asked for: sizes  *)
(* fixed at compile time ("fixed", "fixedvec": nothing is given), "dims":  *)
(* rows and columns are given, "len": the length is given, "mat",          *)
(* "vector": the macros, "view", "viewmut": over memory given by address.  *)
FixedSizes == {<<2, 2>>, <<1, 2>>, <<3, 3>>, <<1, 3>>, <<2, 3>>, <<3, 2>>}
Dyn(x) == Is(x, 0, 0)
RowVec(x) == x.k = "RV" /\ Is(x, 1, 0)
ColVec(x) == x.k = "CV" /\ Is(x, 0, 1)
Makes(t, x) ==
  CASE t = "fixed" -> x.k \in {"RM", "CM"} /\ <<x.r, x.c>> \in FixedSizes
    [] t = "fixedvec" -> (x.k = "RV" /\ x.r = 1 /\ x.c \in {2, 3}) \/ (x.k = "CV" /\ x.c = 1 /\ x.r \in {2, 3})
    [] t = "dims" -> (x.k \in {"RM", "CM", "UT"} /\ Dyn(x)) \/ RowVec(x) \/ ColVec(x)
    [] t = "len" -> RowVec(x) \/ ColVec(x)
    [] t = "mat" -> x.k \in {"RM", "CM"} /\ Dyn(x)
    [] t = "vector" -> RowVec(x) \/ ColVec(x)
    [] t \in {"view", "viewmut"} -> x.k \in {"RM", "CM", "ASRM", "ASCM"} /\ Dyn(x)
\* nothing says how large it should be; or what is given is not a size of such a matrix
CannotMake(t, x) ==
  CASE t \in {"fixed", "fixedvec"} -> x.r = 0 \/ x.c = 0
    [] t = "len" -> x.k \in {"UT", "RM", "CM"} /\ Dyn(x)
    [] t \in {"view", "viewmut"} -> x.k = "UT"
    [] OTHER -> FALSE

(* A call: op and operands x (for "smul" t is the type of the scalar). *)
Accepted(c) ==
  LET x == c.x IN
  CASE c.op = "make" -> Makes(c.t, x[1])
    [] c.op = "length" -> (x[1].r = 1 /\ x[1].c = 0) \/ (x[1].r = 0 /\ x[1].c = 1)
    [] c.op = "add"  -> x[1].t = x[2].t /\ Index(x[1].k) = Index(x[2].k) /\ x[1].r = x[2].r /\ x[1].c = x[2].c
    [] c.op = "smul" -> c.t = x[1].t
    [] c.op = "eval" -> Is(x[1], 0, 0)
    [] c.op = "ref"  -> TRUE
    [] c.op = "block" -> Is(x[1], 0, 0) /\ x[1].k \in {"RM", "CM", "ASRM", "ASCM"}
    [] c.op = "split" -> Is(x[1], 0, 0) /\ x[1].k = "RM"
    [] c.op = "dot"  -> /\ \A i \in 1 .. 2 : Strided(x[i].k) /\ x[i].t = "f64"
                        /\ <<x[1].r, x[1].c, x[2].r, x[2].c>> \in {<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<1, 0, 0, 0>>}
    [] c.op = "matmul" -> /\ SameT(x) /\ \A i \in 1 .. 3 : Strided(x[i].k)
                          /\ <<x[1].r, x[1].c, x[2].r, x[2].c, x[3].r, x[3].c>> \in
                               {<<0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 1, 0, 1>>, <<1, 0, 0, 0, 1, 0>>}

Refused(c) ==
  LET x == c.x IN
  CASE c.op = "make" -> CannotMake(c.t, x[1])
    [] c.op = "length" -> (x[1].r # 1 /\ x[1].c # 1)
    [] c.op = "add"  -> x[1].t # x[2].t \/ Index(x[1].k) # Index(x[2].k) \/ Differ(x[1].r, x[2].r) \/ Differ(x[1].c, x[2].c)
    [] c.op = "smul" -> c.t # x[1].t
    [] c.op \in {"eval", "ref"} -> FALSE
    [] c.op \in {"block", "split"} -> x[1].k = "UT"
    [] c.op = "dot"  -> x[1].t # x[2].t \/ ~Strided(x[1].k) \/ ~Strided(x[2].k) \/ Differ(x[1].c, x[2].r)
    [] c.op = "matmul" -> \/ ~SameT(x) \/ \E i \in 1 .. 3 : ~Strided(x[i].k)
                          \/ Differ(x[1].c, x[2].r) \/ Differ(x[1].r, x[3].r) \/ Differ(x[2].c, x[3].c)

Blocks(k) == CASE k \in {"RM", "ASRM"} -> "ASRM" [] k \in {"CM", "ASCM"} -> "ASCM"

\* the type of what an accepted call returns
Result(c) ==
  LET x == c.x IN
  CASE c.op \in {"make", "length"} -> x[1]
    [] c.op = "add"  -> Op(Index(x[1].k), x[1].r, x[1].c, x[1].t)
    [] c.op \in {"smul", "ref"} -> x[1]
    [] c.op = "eval" -> Op(Index(x[1].k), 0, 0, x[1].t)
    [] c.op \in {"block", "split"} -> Op(Blocks(x[1].k), 0, 0, x[1].t)
    [] c.op = "dot"  -> Op(CASE x[1].r = 1 -> "RV" [] x[2].c = 1 -> "CV" [] OTHER -> "RM", x[1].r, x[2].c, x[1].t)
    [] c.op = "matmul" -> x[3]

\* adding is associative and commutative in what it accepts, up to the result
SumsFit(a, b) == Accepted([op |-> "add", x |-> <<a, b>>]) => Accepted([op |-> "add", x |-> <<b, a>>])
                 /\ Result([op |-> "add", x |-> <<a, b>>]) = Result([op |-> "add", x |-> <<b, a>>])
=============================================================================
