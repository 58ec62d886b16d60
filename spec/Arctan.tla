------------------------------- MODULE Arctan -------------------------------
(***************************************************************************)
(* The four-quadrant arctangent: an angle is right if its cosine and sine  *)
(* point to where the arguments point.                                     *)
(* A floating-point number is a record [cls, neg, m, e]: class "z" zero,   *)
(* "n" finite, "i" infinite, "nan"; neg its sign bit; value m * 2^e.       *)
(* Cosine and sine are in fixed point with W binary places.                *)
(***************************************************************************)
EXTENDS Floats

W == 108
FixMul(a, b) == LET p == XMul2(a, b) IN IF p[1] = 0 THEN p ELSE LET m == BShr(p[2], W) IN IF m = <<>> THEN FZero ELSE <<p[1], m>>

\* cosine and sine of t >= 0 by their power series; u is the term t^n / n!
RECURSIVE Series(_, _, _, _, _)
Series(t, u, n, c, s) ==
  IF u = <<>> THEN <<c, s>>
  ELSE LET sg == IF n % 4 < 2 THEN 1 ELSE -1
           c2 == TLCEval(IF n % 2 = 0 THEN XAdd2(c, <<sg, u>>) ELSE c)
           s2 == TLCEval(IF n % 2 = 1 THEN XAdd2(s, <<sg, u>>) ELSE s)
       IN Series(t, TLCEval(BDiv1(BShr(BMul(u, t), W), n + 1)), n + 1, c2, s2)
\* of the angle v / 2^W: the series for an eighth of it, doubled three times
Double(cs) == TLCEval(<<XAdd2(FixMul(cs[1], cs[1]), FNeg(FixMul(cs[2], cs[2]))),
                        FixMul(XMul2(<<1, <<2>>>>, cs[1]), cs[2])>>)
CosSin(v) == Double(Double(Double(Series(BShr(v, 3), Pow2(W), 0, FZero, FZero))))

Fixed(th) == IF th.cls = "z" THEN <<>>
             ELSE IF th.e + W >= 0 THEN BShl(th.m, th.e + W) ELSE BShr(th.m, -(th.e + W))

\* |th| is the angle of the direction (X, Y), Y >= 0 (exact numbers), within
\* two units in its last place (and the error of the fixed-point numbers)
Points(th, X, Y) ==
  /\ th.cls = "z" \/ BitLen(th.m) + th.e <= 2
  /\ LET cs == CosSin(Fixed(th))
         d  == XAdd2(XMul2(X, cs[2]), FNeg(XMul2(Y, cs[1])))
         along == XAdd2(XMul2(X, cs[1]), XMul2(Y, cs[2]))
         tol == BAdd(IF th.cls = "n" /\ th.e + 1 + W >= 0 THEN Pow2(th.e + 1 + W) ELSE <<>>, Pow2(14))
         r2 == BAdd(BMul(X[2], X[2]), BMul(Y[2], Y[2]))
     IN /\ along[1] = 1
        /\ BLeq(BMul(d[2], d[2]), BMul(BMul(tol, tol), r2))

Dist(a, b) == IF BLess(a, b) THEN BSub(b, a) ELSE BSub(a, b)
\* |th| is the quotient a 2^ea / (b 2^eb) within two units in its last place:
\* |m 2^e b 2^eb - a 2^ea| <= 2 * 2^e b 2^eb (and a little more)
IsQuotient(th, a, ea, b, eb) ==
  LET m == IF th.cls = "z" THEN <<>> ELSE th.m
      l == th.e + eb
      lo == IF l < ea THEN l ELSE ea
  IN IF ea - l > 4000 \/ l - ea > 4000 THEN FALSE
     ELSE BLeq(BShl(Dist(BShl(BMul(m, b), l - lo), BShl(a, ea - lo)), 8),
               BShl(BMul1(b, 513), l - lo))

Zero(f) == f.cls = "z"
One == <<1, BOne>>

\* th is the angle of the point (x, y), correct to two units in the last place
IsAtan2(y, x, th) ==
  IF y.cls = "nan" \/ x.cls = "nan" THEN th.cls = "nan"
  ELSE
  /\ th.cls \in {"z", "n"}
  /\ th.neg = y.neg
  /\ LET west == Points(th, FNeg(One), FZero)
         north == Points(th, FZero, One)
     IN
     CASE Zero(y) -> IF x.neg THEN west ELSE Zero(th)
       [] ~Zero(y) /\ Zero(x) -> north
       [] y.cls = "i" /\ x.cls = "i" -> Points(th, IF x.neg THEN FNeg(One) ELSE One, One)
       [] y.cls = "i" /\ x.cls = "n" -> north
       [] y.cls = "n" /\ x.cls = "i" -> IF x.neg THEN west ELSE Zero(th)
       [] OTHER ->
            \* how far apart are the two?
            LET gap == (BitLen(x.m) + x.e) - (BitLen(y.m) + y.e)
                lo == IF y.e < x.e THEN y.e ELSE x.e
            IN CASE gap > 32 /\ ~x.neg -> IsQuotient(th, y.m, y.e, x.m, x.e)
                 [] gap > 120  -> west
                 [] gap < -120 -> north
                 [] OTHER -> Points(th, <<IF x.neg THEN -1 ELSE 1, BShl(x.m, x.e - lo)>>, <<1, BShl(y.m, y.e - lo)>>)
=============================================================================
