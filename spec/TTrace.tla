-------------------------------- MODULE TTrace ------------------------------
(* Calls given to the Rust compiler, with its verdict and the type of the   *)
(* result that the program required: does each agree with Typing.tla?       *)
EXTENDS Typing, TLC, Json, IOUtils

VARIABLE l
Trace == TLCEval(ndJsonDeserialize(IOEnv.HTRACE))
E == Trace[l]
Starts == {i \in 1 .. Len(Trace) : Trace[i].op = "reset"}
TInit == l \in {i + 1 : i \in Starts}
AtEnd == l > Len(Trace) \/ Trace[l].op \in {"reset", "end"}
Chk(cond, what, expected) == IF cond THEN TRUE ELSE PrintT(<<"MISMATCH", "line", l, what, "expected", expected>>) /\ FALSE
Pre(cond, what) == IF cond THEN TRUE ELSE PrintT(<<"BADPROGRAM", "line", l, what>>) /\ FALSE
Judge ==
  /\ Pre(Accepted(E) \/ Refused(E), "call")
  /\ Accepted(E) => Pre(E.res = <<Result(E)>>, "type of the result")
  /\ IF E.ok THEN Chk(~Refused(E), <<E.op, E.x, "is accepted">>, "rejection by the compiler")
             ELSE Chk(~Accepted(E), <<E.op, E.x, "is rejected">>, "acceptance by the compiler")
TNext == \/ ~AtEnd /\ Judge /\ l' = l + 1
         \/ AtEnd /\ UNCHANGED l
TSpec == TInit /\ [][TNext]_l
Where == [l |-> l]
=============================================================================
