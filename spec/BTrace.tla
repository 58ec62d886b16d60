-------------------------------- MODULE BTrace ------------------------------
(* Programs given to the Rust compiler, call by call, with its verdict: is  *)
(* each verdict one that Borrow.tla allows?                                 *)
EXTENDS Borrow, Json, IOUtils, SequencesExt

VARIABLE l
btvars == <<objs, l>>

Trace == TLCEval(ndJsonDeserialize(IOEnv.HTRACE))
E == Trace[l]
Starts == {i \in 1 .. Len(Trace) : Trace[i].op = "reset"}
TInit == /\ l \in {i + 1 : i \in Starts}
         /\ BInit
AtEnd == l > Len(Trace) \/ Trace[l].op \in {"reset", "end"}

Chk(cond, what, expected) ==
  IF cond THEN TRUE
  ELSE PrintT(<<"MISMATCH", "line", l, what, "expected", expected>>) /\ FALSE
Pre(cond, what) == IF cond THEN TRUE ELSE PrintT(<<"BADPROGRAM", "line", l, what>>) /\ FALSE

Judge ==
  /\ Pre(Kinds(E) /\ (Admissible(E) \/ Unsound(E)), "call")
  /\ IF E.ok THEN Chk(~Unsound(E), <<"program ending in", E.op, E.h, "is accepted">>, "rejection by the compiler")
             ELSE Chk(~Admissible(E), <<"program ending in", E.op, E.h, "is rejected">>, "acceptance by the compiler")
  /\ objs' = IF Admissible(E) THEN Effect(E) ELSE objs

TNext == \/ ~AtEnd /\ Judge /\ l' = l + 1
         \/ AtEnd /\ UNCHANGED btvars
TSpec == TInit /\ [][TNext]_btvars
Where == [l |-> l]
=============================================================================
