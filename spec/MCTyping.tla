------------------------------- MODULE MCTyping -----------------------------
(* Every call with operands of the given layouts, sizes and scalar types. *)
EXTENDS Typing, TLC, Json

CONSTANTS Emit, Wide
VARIABLE c

Sizes(k) == CASE k \in {"RV", "ASRV"} -> {<<1, 0>>, <<1, 2>>, <<1, 3>>}
              [] k \in {"CV", "ASCV"} -> {<<0, 1>>, <<2, 1>>, <<3, 1>>}
              [] k = "UT" -> {<<0, 0>>}
              [] OTHER -> {<<0, 0>>, <<2, 2>>, <<3, 3>>, <<2, 3>>, <<3, 2>>}
Opnds(t) == UNION {{Op(k, s[1], s[2], t) : s \in Sizes(k) \cup {<<0, 0>>}} : k \in Kinds}
Main == Opnds("f64")
Few(t) == {Op("RM", 0, 0, t), Op("CM", 0, 0, t), Op("ASRM", 0, 0, t), Op("RV", 1, 0, t), Op("CV", 0, 1, t), Op("UT", 0, 0, t)}
AnyT == UNION {Few(t) : t \in Scalars}
Small == {Op(k, r, n, "f64") : k \in {"RM", "CM"}, r \in {1}, n \in {2, 3}}
         \cup UNION {{Op("RM", 2, 3, t), Op("CM", 2, 2, t), Op("RV", 1, 3, t), Op("CV", 2, 1, t)} : t \in Scalars}
Prods == {a \in Main : a.k # "UT" /\ a.r \in {0, 1} /\ a.c \in {0, 1}} \cup {Op("UT", 0, 0, "f64"), Op("RM", 2, 2, "f64"), Op("CM", 3, 3, "f64")}
PThird == IF Wide THEN Prods ELSE {a \in Prods : a.k \in {"RM", "ASCM", "RV", "CV", "UT"}}

Calls == {[op |-> "add", x |-> <<a, b>>, t |-> ""] : a, b \in Main}
         \cup {[op |-> "add", x |-> <<a, b>>, t |-> ""] : a, b \in AnyT}
         \cup {[op |-> "make", x |-> <<a>>, t |-> h] : a \in AnyT \cup Main \cup Small, h \in {"fixed", "fixedvec", "dims", "len", "mat", "vector", "view", "viewmut"}}
         \cup {[op |-> "length", x |-> <<a>>, t |-> ""] : a \in AnyT \cup Main \cup Small}
         \cup {[op |-> "smul", x |-> <<a>>, t |-> s] : a \in AnyT \cup Main, s \in Scalars}
         \cup {[op |-> o, x |-> <<a>>, t |-> ""] : o \in {"eval", "ref", "block", "split"}, a \in AnyT \cup Main}
         \cup {[op |-> "dot", x |-> <<a, b>>, t |-> ""] : a, b \in Main}
         \cup {[op |-> "dot", x |-> <<a, b>>, t |-> ""] : a, b \in AnyT}
         \cup {[op |-> "matmul", x |-> <<a, b, d>>, t |-> ""] : a, b \in Prods, d \in PThird}
         \cup {[op |-> "matmul", x |-> <<a, b, d>>, t |-> ""] : a, b, d \in {Op("RM", 0, 0, s) : s \in Scalars}}

Init == c \in Calls
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

Disjoint == ~(Accepted(c) /\ Refused(c))
Symmetric == c.op = "add" => SumsFit(c.x[1], c.x[2])
\* what fits is numbered alike
Numbered == (c.op = "add" /\ Accepted(c)) => Index(Result(c).k) = Index(c.x[1].k) /\ Index(Result(c).k) = Index(c.x[2].k)
EmitCall == (Emit > 0 /\ (Accepted(c) \/ Refused(c))) =>
              PrintT("HIST " \o ToJson(c) \o " OBS " \o ToJson(IF Accepted(c) THEN <<Result(c)>> ELSE <<>>))
=============================================================================
