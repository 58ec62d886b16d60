------------------------------- MODULE Floats -------------------------------
(***************************************************************************)
(* Floating-point numbers with p significant bits, as integers (times a    *)
(* power of two that the driver keeps track of).  A number is <<sign,      *)
(* magnitude>> with sign -1, 0 or 1 and a BigNat.  Sums and products of    *)
(* two numbers are exact results rounded to nearest, ties to even (the     *)
(* exponent range is not exhausted by the driver).                         *)
(***************************************************************************)
EXTENDS BigNat

FZero == <<0, <<>>>>
FOne  == <<1, BOne>>
IsF(a) == a[1] \in {-1, 0, 1}

\* magnitude rounded to p bits
RoundTo(p, m) ==
  LET n == BitLen(m) IN
  IF n <= p THEN m
  ELSE LET d == n - p
           q == BShr(m, d)
           up == BBit(m, d - 1) = 1 /\ (~BLowZero(m, d - 1) \/ BBit(m, d) = 1)
       IN BShl(IF up THEN BAdd(q, BOne) ELSE q, d)

FNeg(a) == <<-a[1], a[2]>>
FAbs(a) == IF a[1] = 0 THEN a ELSE <<1, a[2]>>

\* exact
XAdd2(a, b) ==
  CASE a[1] = 0 -> b
    [] b[1] = 0 -> a
    [] a[1] = b[1] -> <<a[1], BAdd(a[2], b[2])>>
    [] a[2] = b[2] -> FZero
    [] OTHER -> IF BLess(a[2], b[2]) THEN <<b[1], BSub(b[2], a[2])>> ELSE <<a[1], BSub(a[2], b[2])>>
XMul2(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN FZero ELSE <<a[1] * b[1], BMul(a[2], b[2])>>

\* rounded
Rnd(p, a) == IF a[1] = 0 THEN a ELSE <<a[1], RoundTo(p, a[2])>>
FAdd(p, a, b) == Rnd(p, XAdd2(a, b))
FSub(p, a, b) == FAdd(p, a, FNeg(b))
FMul(p, a, b) == Rnd(p, XMul2(a, b))

\* |v - x| * 2^p <= k * s for the exact number x and the natural number s
Near(p, v, x, k, s) ==
  LET d == XAdd2(v, FNeg(x)) IN
  d[1] = 0 \/ BLeq(BShl(d[2], p), BMul(ToBig(k), s))
=============================================================================
