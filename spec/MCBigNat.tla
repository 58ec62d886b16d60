------------------------------ MODULE MCBigNat ------------------------------
(* Arithmetic of BigNat against TLC's own, around one, two and three digits. *)
EXTENDS BigNat, TLC
VARIABLE p
Nums == UNION {{n - 1, n, n + 1} : n \in {1, 4, 99, 4096, 5000, 8192, 10000, 19999, 30000, 46339}}
Large == UNION {{n - 1, n, n + 1} : n \in {1, 9999, 10000, 20000, 99999, 9999999, 100000000, 199999999, 1000000000}}
Init == p \in (Nums \X Nums) \cup (Large \X Large)
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
Rounds  == FromBig(ToBig(p[1])) = p[1]
Sum     == BAdd(ToBig(p[1]), ToBig(p[2])) = ToBig(p[1] + p[2])
Product == (p[1] \in Nums /\ p[2] \in Nums) => BMul(ToBig(p[1]), ToBig(p[2])) = ToBig(p[1] * p[2])
Differ  == p[2] <= p[1] => BSub(ToBig(p[1]), ToBig(p[2])) = ToBig(p[1] - p[2])
Order   == (BLess(ToBig(p[1]), ToBig(p[2])) <=> p[1] < p[2]) /\ (BLeq(ToBig(p[1]), ToBig(p[2])) <=> p[1] <= p[2])
\* beyond TLC's integers: laws that tie products to sums, and undo them
Big(x) == BMul(BMul(ToBig(x), BWord), ToBig(x + 1))
Laws == LET a == Big(p[1])
            b == Big(p[2])
        IN /\ BAdd(a, b) = BAdd(b, a)
           /\ BSub(BAdd(a, b), b) = a
           /\ BMul(a, b) = BMul(b, a)
           /\ BMul(a, BAdd(b, BOne)) = BAdd(BMul(a, b), a)
           /\ BLess(a, BAdd(a, BOne)) /\ ~BLess(BAdd(a, BOne), a)
           /\ BTwice(a) = BMul(a, <<2>>)
\* many digits: (B^n + p)(B^m + q) = B^(n + m) + p B^m + q B^n + p q
Long == (p[1] = p[2] /\ p[1] \in {4095, 46340}) => \A n \in {99, 101, 205}, m \in {3, 101} :
          LET u == ToBig(p[1])
              v == ToBig(p[1] + 1)
          IN BMul(BAdd(Shift(BOne, n), u), BAdd(Shift(BOne, m), v))
             = BAdd(BAdd(Shift(BOne, n + m), BMul(u, v)), BAdd(Shift(u, m), Shift(v, n)))
=============================================================================
