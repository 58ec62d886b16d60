------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of any size as sequences of base-2^12 digits, least     *)
(* significant first, without leading zeros (zero is <<>>).  TLC's own     *)
(* integers have 32 bits.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC      \* TLC: TLCEval(x) = x, evaluated at once

Base == 4096

Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE Norm(_)
Norm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE Carry(_, _, _)
\* digits a (possibly >= Base), from position i with carry c
Carry(a, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c % Base>> \o Carry(a, i + 1, c \div Base))
  ELSE <<(a[i] + c) % Base>> \o Carry(a, i + 1, (a[i] + c) \div Base)

Max2(x, y) == IF x < y THEN y ELSE x

BAdd(a, b) == TLCEval(Norm(Carry(TLCEval([i \in 1 .. Max2(Len(a), Len(b)) |-> Digit(a, i) + Digit(b, i)]), 1, 0)))

Shift(a, k) == IF a = <<>> THEN <<>> ELSE TLCEval([i \in 1 .. k |-> 0] \o a)
BMul1(a, d) == TLCEval(Norm(Carry(TLCEval([i \in 1 .. Len(a) |-> a[i] * d]), 1, 0)))     \* d < Base
\* column k of the product: sum of a[i] b[k + 1 - i] over i in lo .. hi
RECURSIVE Column(_, _, _, _, _)
Column(a, b, k, lo, hi) == IF lo > hi THEN 0 ELSE a[lo] * b[k + 1 - lo] + Column(a, b, k, lo + 1, hi)
Columns(a, b) == [k \in 1 .. Len(a) + Len(b) - 1 |->
  Column(a, b, k, Max2(1, k + 1 - Len(b)), IF k < Len(a) THEN k ELSE Len(a))]
RECURSIVE BMul(_, _)
BMul(a, b) ==
  CASE a = <<>> \/ b = <<>> -> <<>>
    [] Len(a) > Len(b) -> BMul(b, a)
    [] Len(a) > 100 ->          \* columns would not fit into TLC's integers
         BAdd(BMul(SubSeq(a, 1, 100), b), Shift(BMul(SubSeq(a, 101, Len(a)), b), 100))
    [] OTHER -> TLCEval(Norm(Carry(TLCEval(Columns(a, b)), 1, 0)))

RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i = 0 THEN FALSE
                     ELSE IF Digit(a, i) # Digit(b, i) THEN Digit(a, i) < Digit(b, i)
                     ELSE LessFrom(a, b, i - 1)
BLess(a, b) == LessFrom(a, b, Max2(Len(a), Len(b)))
BLeq(a, b) == ~BLess(b, a)

RECURSIVE Borrow(_, _, _, _)
Borrow(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET d == a[i] - Digit(b, i) - c
       IN IF d < 0 THEN <<d + Base>> \o Borrow(a, b, i + 1, 1) ELSE <<d>> \o Borrow(a, b, i + 1, 0)
BSub(a, b) == TLCEval(Norm(Borrow(a, b, 1, 0)))        \* b <= a

BOne == <<1>>
BPred(a) == BSub(a, BOne)                     \* a # 0
BTwice(a) == BAdd(a, a)

\* 2^64
BWord == <<0, 0, 0, 0, 0, 16>>

\* what is left after dropping the k lowest digits
High(a, k) == IF k >= Len(a) THEN <<>> ELSE SubSeq(a, k + 1, Len(a))

\* binary places: a digit has 12
P2 == [i \in 0 .. 12 |-> <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096>>[i + 1]]
BitLen1(d) == CHOOSE i \in 0 .. 12 : d < P2[i] /\ (i = 0 \/ d >= P2[i - 1])
BitLen(a) == IF a = <<>> THEN 0 ELSE 12 * (Len(a) - 1) + BitLen1(a[Len(a)])
Pow2(k) == Shift(<<P2[k % 12]>>, k \div 12)
BShl(a, k) == Shift(BMul1(a, P2[k % 12]), k \div 12)            \* a * 2^k
BShr(a, k) ==                                                    \* a \div 2^k
  LET h == High(a, k \div 12)
      r == P2[k % 12]
  IN TLCEval(Norm(TLCEval([i \in 1 .. Len(h) |-> h[i] \div r + (Digit(h, i + 1) % r) * (Base \div r)])))
BBit(a, k) == (Digit(a, k \div 12 + 1) \div P2[k % 12]) % 2
\* are the k lowest bits zero?
BLowZero(a, k) == /\ \A i \in 1 .. k \div 12 : Digit(a, i) = 0
                  /\ Digit(a, k \div 12 + 1) % P2[k % 12] = 0

\* quotient and remainder of a by one digit
RECURSIVE Div1From(_, _, _, _)
Div1From(a, d, i, r) == IF i = 0 THEN <<>> ELSE
  Append(Div1From(a, d, i - 1, (r * Base + a[i]) % d), (r * Base + a[i]) \div d)
BDiv1(a, d) == TLCEval(Norm(Div1From(a, d, Len(a), 0)))                   \* 0 < d < Base

RECURSIVE ToBig(_)
ToBig(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o ToBig(n \div Base)
RECURSIVE FromBig(_)
FromBig(a) == IF a = <<>> THEN 0 ELSE a[1] + Base * FromBig(Tail(a))
=============================================================================
