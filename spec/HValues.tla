------------------------------ MODULE HValues ------------------------------
(***************************************************************************)
(* Exact scalar arithmetic of the four scalar types, on the values the     *)
(* conformance driver uses: integers (small enough to be exact in every    *)
(* scalar type and in TLC), the two infinities, NaN and negative zero.     *)
(* A real scalar is one such number, a complex scalar a pair <<re, im>>.   *)
(* The special numbers are coded as integers outside the working range.    *)
(*                                                                         *)
(* In rounding mode (m.p > 0) a real scalar is a floating-point number     *)
(* with m.p significant bits (Floats.tla) instead, without special ones.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Floats

NAN     == 2000000001
PINF    == 2000000002
NINF    == 2000000003
NZ      == 2000000004        \* negative zero
Special == {NAN, PINF, NINF, NZ}

IsZero(a) == a = 0 \/ a = NZ
Negative(a) == a = NINF \/ a = NZ \/ (a < 0)

\* nz: does the session distinguish the two zeros?
RNeg(nz, a) == CASE a = NAN  -> NAN
                 [] a = PINF -> NINF
                 [] a = NINF -> PINF
                 [] a = NZ   -> 0
                 [] a = 0    -> (IF nz THEN NZ ELSE 0)
                 [] OTHER    -> -a

RAdd(a, b) ==
  IF a \notin Special /\ b \notin Special THEN a + b
  ELSE CASE a = NAN \/ b = NAN -> NAN
         [] (a = PINF /\ b = NINF) \/ (a = NINF /\ b = PINF) -> NAN
         [] a = PINF \/ b = PINF -> PINF
         [] a = NINF \/ b = NINF -> NINF
         [] a = NZ -> b
         [] OTHER  -> a             \* b = NZ

RSub(nz, a, b) == RAdd(a, RNeg(nz, b))

RMul(nz, a, b) ==
  IF a \notin Special /\ b \notin Special /\ a # 0 /\ b # 0 THEN a * b
  ELSE LET neg == Negative(a) # Negative(b)
           inf(x) == x = PINF \/ x = NINF
       IN CASE a = NAN \/ b = NAN -> NAN
            [] (inf(a) /\ IsZero(b)) \/ (inf(b) /\ IsZero(a)) -> NAN
            [] inf(a) \/ inf(b) -> (IF neg THEN NINF ELSE PINF)
            [] OTHER -> (IF neg /\ nz THEN NZ ELSE 0)

\* Scalars: m is the arithmetic mode [cx |-> complex?, nz |-> signed zeros?, p |-> bits or 0]
VZero(m) == LET z == IF m.p > 0 THEN FZero ELSE 0 IN IF m.cx THEN <<z, z>> ELSE z
VOne(m)  == LET z == IF m.p > 0 THEN FZero ELSE 0
                o == IF m.p > 0 THEN FOne ELSE 1
            IN IF m.cx THEN <<o, z>> ELSE o

VAdd(m, a, b) == IF m.p > 0
                 THEN IF m.cx THEN <<FAdd(m.p, a[1], b[1]), FAdd(m.p, a[2], b[2])>> ELSE FAdd(m.p, a, b)
                 ELSE IF m.cx THEN <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
                 ELSE RAdd(a, b)

VMul(m, a, b) ==
  IF m.p > 0
  THEN IF m.cx
       THEN <<FSub(m.p, FMul(m.p, a[1], b[1]), FMul(m.p, a[2], b[2])),
              FAdd(m.p, FMul(m.p, a[1], b[2]), FMul(m.p, a[2], b[1]))>>
       ELSE FMul(m.p, a, b)
  ELSE IF m.cx
  THEN <<RSub(m.nz, RMul(m.nz, a[1], b[1]), RMul(m.nz, a[2], b[2])),
         RAdd(RMul(m.nz, a[1], b[2]), RMul(m.nz, a[2], b[1]))>>
  ELSE RMul(m.nz, a, b)

(***************************************************************************)
(* Products of inexact numbers: the result may differ from the exact one   *)
(* by the rounding of as many additions and multiplications as an inner    *)
(* product of that length has (and those for the two coefficients), in any *)
(* order.  Exact scalars and their magnitudes:                             *)
(***************************************************************************)
EAdd(m, a, b) == IF m.cx THEN <<XAdd2(a[1], b[1]), XAdd2(a[2], b[2])>> ELSE XAdd2(a, b)
EMul(m, a, b) == IF m.cx THEN <<XAdd2(XMul2(a[1], b[1]), FNeg(XMul2(a[2], b[2]))),
                                XAdd2(XMul2(a[1], b[2]), XMul2(a[2], b[1]))>>
                 ELSE XMul2(a, b)
EMag(m, a) == IF m.cx THEN BAdd(a[1][2], a[2][2]) ELSE a[2]
\* v is the exact number x within the rounding errors of an inner product of
\* length k whose terms have magnitudes that sum up to s
IsRounded(m, v, x, k, s) ==
  LET n == (2 * k + 16) * (IF m.cx THEN 2 ELSE 1)
      ok(a, b) == IsF(a) /\ Near(m.p, a, b, n, s)
  IN IF m.cx THEN ok(v[1], x[1]) /\ ok(v[2], x[2]) ELSE ok(v, x)
=============================================================================
