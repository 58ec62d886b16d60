------------------------------ MODULE MCBorrow ------------------------------
(* All sequences of Depth admissible calls, and every call that may be tried after them. *)
EXTENDS Borrow, Json, SequencesExt

CONSTANTS Depth, Emit   \* Emit: 1 print every history, 2 only histories of full length that were gone through
VARIABLES hist, done
View == objs

N == 1 + Cardinality(Dom)
Call(op, n, h, m) == [op |-> op, n |-> n, h |-> h, m |-> m]
Calls ==
  {Call(op, N, <<>>, "") : op \in {"own", "buf"}}
  \cup {Call(op, N, <<p>>, m) : op \in {"win", "block"}, p \in Dom, m \in {"ro", "rw"}}
  \cup {Call(op, N, <<p>>, "") : op \in {"split", "el", "sl", "slm", "lay", "ref", "refm", "eval"}, p \in Dom}
  \cup {Call(op, 0, <<p>>, "") : op \in {"read", "write", "drop", "copy"}, p \in Dom}
  \cup {Call(op, 0, <<p>>, "t") : op \in {"read", "write", "drop"}, p \in Dom}
  \cup {Call("smul", N, <<p>>, m) : p \in Dom, m \in {"o", "r"}}
  \cup {Call("add", N, <<p, q>>, m) : p, q \in Dom, m \in {"oo", "or", "ro", "rr"}}
  \cup {Call("each", 0, <<p, q>>, "") : p, q \in Dom}
  \cup {Call("matmul", 0, <<t[1], t[2], t[3]>>, "") : t \in UNION {{<<a, a, c>>, <<a, 1, c>>, <<1, a, c>>, <<c, a, c>>, <<a, c, c>>} : a, c \in Dom}}
Possible == {c \in Calls : Kinds(c)}
\* calls that change the state
Builds(c) == c.op \notin {"read", "write", "each", "matmul", "copy"} /\ c.m # "t"

Init == BInit /\ hist = <<>> /\ done = FALSE
Next == \/ /\ Len(hist) < Depth
           /\ \E c \in Possible : Builds(c) /\ Step(c) /\ hist' = Append(hist, c)
           /\ UNCHANGED done
        \/ /\ Len(hist) = Depth /\ Emit = 2
           /\ done' = TRUE
           /\ UNCHANGED <<objs, hist>>
Spec == Init /\ [][Next]_<<objs, hist, done>>

Sound == \A c \in Possible : ~(Admissible(c) /\ Unsound(c))
\* the discipline is not needlessly strict about owned matrices nobody looks at
Free == \A c \in Possible : (\A i \in 1 .. Len(c.h) : Live(c.h[i]) /\ objs[c.h[i]].acc = "own" /\ Borrowers(c.h[i]) = {}) /\ ~SomeClash(c) /\ c.op # "copy" => Admissible(c)

Class(c) == IF Admissible(c) THEN "yes" ELSE IF Unsound(c) THEN "no" ELSE "open"
Attempts == SetToSeq({[c |-> c, x |-> Class(c)] : c \in {d \in Possible : Class(d) = "yes" \/ (Class(d) = "no" /\ d.m # "t")}})
EmitState == (IF Emit = 2 THEN done ELSE Emit = 1 /\ Len(hist) > 0) => PrintT("HIST " \o ToJson(hist) \o " OBS " \o ToJson(Attempts))
=============================================================================
