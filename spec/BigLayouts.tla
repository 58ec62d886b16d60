----------------------------- MODULE BigLayouts -----------------------------
(***************************************************************************)
(* The layouts of Layouts.tla for dimensions of any size: B records have   *)
(* BigNat components.  Positions and indices are related instead of        *)
(* computed (IsIndex holds of exactly the pairs with To1D(pos) = i).       *)
(* MCLayouts checks that the two definitions agree.                        *)
(***************************************************************************)
EXTENDS BigNat, Layouts

BEmpty(B) == B.r = <<>> \/ B.c = <<>>

\* twice the number of elements (halving is not needed)
BNElem2(B) == IF B.k = "UT" THEN BMul(B.r, BAdd(B.r, BOne)) ELSE BTwice(BMul(B.r, B.c))

BStored(B, p) == /\ BLess(p[1], B.r) /\ BLess(p[2], B.c)
                 /\ B.k = "UT" => BLeq(p[1], p[2])

\* i is the logical index of the stored position p
IsIndex(B, p, i) ==
  /\ BStored(B, p)
  /\ CASE B.k \in RowKinds -> i = BAdd(BMul(p[1], B.c), p[2])
       [] B.k \in ColKinds -> i = BAdd(BMul(p[2], B.r), p[1])
       [] B.k = "UT" -> LET q == BSub(BPred(B.r), p[1])
                        IN BTwice(i) = BAdd(BMul(q, BAdd(q, BOne)), BTwice(BSub(p[2], p[1])))

BStride(B) ==
  CASE B.k = "RM" -> <<B.c, BOne>>
    [] B.k = "CM" -> <<BOne, B.r>>
    [] B.k \in {"RV", "CV"} -> <<BOne, BOne>>
    [] B.k = "ASRV" -> <<BOne, B.s1>>
    [] B.k = "ASCV" -> <<B.s0, BOne>>
    [] OTHER -> <<B.s0, B.s1>>

\* raw is the location of the element at position p with index i
BRaw(B, p) == BAdd(BMul(p[1], BStride(B)[1]), BMul(p[2], BStride(B)[2]))
IsRaw(B, p, i, raw) == IF B.k = "UT" THEN raw = i ELSE raw = BRaw(B, p)

BFits(B, n) ==
  /\ BLeq(BNElem2(B), BTwice(n))
  /\ BEmpty(B) \/ B.k = "UT" \/ BLess(BRaw(B, <<BPred(B.r), BPred(B.c)>>), n)
=============================================================================
