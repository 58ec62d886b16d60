------------------------------ MODULE MCFloats ------------------------------
(* Rounding and arctangent of Floats.tla and Arctan.tla against their       *)
(* definitions, on small numbers and by identities.                         *)
EXTENDS Arctan, FiniteSets, TLC
VARIABLES p, done
Nums == 0 .. 80
Init == p \in (Nums \X {3, 4, 5}) \cup (Nums \X {100, 101, 4095, 4096, 4097, 30000}) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ p' = p
Spec == Init /\ [][Next]_<<p, done>>
Small == p[2] < 10

\* numbers with at most q significant bits
Pow(k) == FromBig(Pow2(k))
Repr(q) == {m * e : m \in 0 .. <<0, 0, 7, 15, 31>>[q], e \in {1, 2, 4, 8, 16, 32}}
Abs1(x) == IF x < 0 THEN -x ELSE x
R(q, n) == FromBig(RoundTo(q, ToBig(n)))
Nearest == (done /\ Small) =>
  LET r == R(p[2], p[1])
      d == Abs1(r - p[1])
  IN /\ r \in Repr(p[2])
     /\ \A m \in Repr(p[2]) : d <= Abs1(m - p[1])
     \* of two nearest candidates the one with an even last place is taken
     /\ \A m \in Repr(p[2]) : (m # r /\ Abs1(m - p[1]) = d) => (r \div Abs1(m - r)) % 2 = 0
     /\ r <= R(p[2], p[1] + 1)

F(n) == IF n = 0 THEN FZero ELSE <<IF n < 0 THEN -1 ELSE 1, ToBig(Abs1(n))>>
I(a) == a[1] * FromBig(a[2])
AddSub == done =>
          /\ I(XAdd2(F(p[1]), F(-p[2]))) = p[1] - p[2]
          /\ I(XAdd2(F(-p[1]), F(p[2]))) = p[2] - p[1]
          /\ I(XMul2(F(-p[1]), F(p[2]))) = -p[1] * p[2]
          /\ I(FAdd(60, F(p[1]), F(-p[2]))) = p[1] - p[2]
          /\ Near(4, F(p[1]), F(p[2]), 1, ToBig(16 * Abs1(p[1] - p[2])))
          /\ (p[1] # p[2] => ~Near(4, F(p[1]), F(p[2]), 1, ToBig(16 * Abs1(p[1] - p[2]) - 1)))
Bits == done => LET n == p[1] * p[2]
            b == ToBig(n)
        IN /\ n < Pow(BitLen(b)) /\ (n > 0 => n >= Pow(BitLen(b) - 1))
           /\ \A k \in {0, 1, 5, 11, 12, 13, 24} :
                /\ BShr(b, k) = ToBig(n \div Pow(k))
                /\ BBit(b, k) = (n \div Pow(k)) % 2
                /\ BLowZero(b, k) = (n % Pow(k) = 0)
                /\ BShr(BShl(b, k), k) = b
                /\ (n < 80 => BShl(b, k) = ToBig(n * Pow(k)))
           /\ BDiv1(b, 7) = ToBig(n \div 7)

Eps == Pow2(14)
\* pi is known to 31 decimal places, 100 binary ones
Close4(a, b) == LET d == XAdd2(a, FNeg(b)) IN d[1] = 0 \/ BLeq(d[2], Pow2(W - 100))
Close(a, b) == LET d == XAdd2(a, FNeg(b)) IN d[1] = 0 \/ BLeq(d[2], Eps)
Fix1 == <<1, Pow2(W)>>
\* angles p[1]/64 and (p[2] % 50)/64
Ang(n) == BShl(ToBig(n), W - 6)
AngleLaws == (done /\ ~Small) =>
  LET j == p[2] % 50
      a == CosSin(Ang(p[1]))
      b == CosSin(Ang(j))
      c == CosSin(Ang(p[1] + j))
  IN /\ Close(XAdd2(FixMul(a[1], a[1]), FixMul(a[2], a[2])), Fix1)
     /\ Close(XAdd2(FixMul(a[1], b[1]), FNeg(FixMul(a[2], b[2]))), c[1])
     /\ Close(XAdd2(FixMul(a[2], b[1]), FixMul(a[1], b[2])), c[2])

\* pi to 32 digits
Ten8 == ToBig(100000000)
PiD == BAdd(BMul(BAdd(BMul(BAdd(BMul(ToBig(31415926), Ten8), ToBig(53589793)), Ten8), ToBig(23846264)), Ten8), ToBig(33832795))
RECURSIVE DivTen(_, _)
DivTen(a, k) == IF k = 0 THEN a ELSE DivTen(BDiv1(a, 10), k - 1)
Pi == DivTen(BShl(PiD, W), 31)
PiAngles == (done /\ p = <<0, 3>>) =>
            /\ LET w == CosSin(Pi) IN Close4(w[1], FNeg(Fix1)) /\ Close4(w[2], FZero)
            /\ LET n == CosSin(BShr(Pi, 1)) IN Close4(n[1], FZero) /\ Close4(n[2], Fix1)
            /\ LET d == CosSin(BDiv1(Pi, 3)) IN Close4(d[1], <<1, Pow2(W - 1)>>)
N(neg, m) == [cls |-> IF m = 0 THEN "z" ELSE "n", neg |-> neg, m |-> ToBig(m), e |-> 0]
T(neg, v, bits) == [cls |-> "n", neg |-> neg, m |-> BShr(v, W - bits), e |-> -bits]
\* arguments, angle; another angle four units away is rejected
Case(y, x, v) ==
  LET Y == N(y < 0, Abs1(y))
      X == N(x < 0, Abs1(x))
      neg == y < 0
  IN /\ IsAtan2(Y, X, T(neg, v, 50))
     /\ ~IsAtan2(Y, X, T(~neg, v, 50))
     /\ ~IsAtan2(Y, X, T(neg, BAdd(v, BShl(<<4>>, W - 50)), 50))
     /\ ~IsAtan2(Y, X, T(neg, BSub(v, BShl(<<4>>, W - 50)), 50))
     /\ ~IsAtan2(Y, X, [cls |-> "z", neg |-> neg, m |-> <<>>, e |-> -1074])
     /\ ~IsAtan2(Y, X, [cls |-> "i", neg |-> neg, m |-> <<>>, e |-> 0])
     /\ ~IsAtan2(Y, X, [cls |-> "nan", neg |-> neg, m |-> <<>>, e |-> 0])
Times(v, k) == BMul1(v, k)
Angles == (done /\ p = <<0, 3>>) =>
  /\ Case(1, 1, BShr(Pi, 2)) /\ Case(-1, 1, BShr(Pi, 2)) /\ Case(7, 7, BShr(Pi, 2))
  /\ Case(1, -1, BShr(Times(Pi, 3), 2)) /\ Case(-1, -1, BShr(Times(Pi, 3), 2))
  /\ Case(5, 0, BShr(Pi, 1)) /\ Case(-5, 0, BShr(Pi, 1))
  /\ Case(0, -3, Pi)
  /\ IsAtan2(N(FALSE, 0), N(FALSE, 3), N(FALSE, 0)) /\ ~IsAtan2(N(FALSE, 0), N(FALSE, 3), N(TRUE, 0))
  /\ IsAtan2(N(TRUE, 0), N(FALSE, 0), N(TRUE, 0)) /\ ~IsAtan2(N(FALSE, 0), N(FALSE, 3), T(FALSE, Pi, 50))
  /\ IsAtan2(N(TRUE, 0), N(TRUE, 0), T(TRUE, Pi, 50)) /\ ~IsAtan2(N(TRUE, 0), N(TRUE, 0), N(TRUE, 0))
  \* a very small angle
  /\ LET y == [cls |-> "n", neg |-> FALSE, m |-> <<3>>, e |-> -500]
         x == N(FALSE, 3)
     IN /\ IsAtan2(y, x, [cls |-> "n", neg |-> FALSE, m |-> Pow2(52), e |-> -552])
        /\ IsAtan2(y, x, [cls |-> "n", neg |-> FALSE, m |-> BAdd(Pow2(52), <<2>>), e |-> -552])
        /\ ~IsAtan2(y, x, [cls |-> "n", neg |-> FALSE, m |-> BAdd(Pow2(52), <<3>>), e |-> -552])
        /\ ~IsAtan2(y, x, [cls |-> "n", neg |-> FALSE, m |-> Pow2(53), e |-> -552])
=============================================================================
