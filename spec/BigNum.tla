------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Integers of any size.  A natural number is a sequence of limbs base     *)
(* 10000, least significant first, no leading zero limb; an integer is     *)
(* [s: -1 | 0 | 1, m: natural].                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Base == 10000
IsNat(a) == /\ \A i \in 1..Len(a) : a[i] \in 0..(Base - 1)
            /\ Len(a) > 0 => a[Len(a)] # 0
IsBig(x) == IsNat(x.m) /\ x.s = (IF x.m = <<>> THEN 0 ELSE x.s) /\ x.s \in {-1, 0, 1} /\ (x.s = 0 => x.m = <<>>)

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxI(a, b) == IF a > b THEN a ELSE b
NCmp(a, b) == (* -1, 0, 1 *)
  IF Len(a) # Len(b) THEN IF Len(a) < Len(b) THEN -1 ELSE 1
  ELSE FoldLeft(LAMBDA acc, i : IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE acc, 0, [i \in 1..Len(a) |-> i])
NAdd(a, b) ==
  LET r == FoldLeft(LAMBDA acc, i : LET t == At(a, i) + At(b, i) + acc[2]
                                    IN <<Append(acc[1], t % Base), t \div Base>>,
                    << <<>>, 0>>, [i \in 1..MaxI(Len(a), Len(b)) |-> i])
  IN IF r[2] = 0 THEN r[1] ELSE Append(r[1], r[2])
(* a - b for a >= b *)
NSub(a, b) ==
  LET r == FoldLeft(LAMBDA acc, i : LET t == a[i] - At(b, i) - acc[2]
                                    IN IF t < 0 THEN <<Append(acc[1], t + Base), 1>> ELSE <<Append(acc[1], t), 0>>,
                    << <<>>, 0>>, [i \in 1..Len(a) |-> i])
  IN Trim(r[1])
(* column k of the product, low and high part of the sum kept apart *)
NMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE LET n == Len(a) + Len(b) - 1
           Col(k) == FoldLeft(LAMBDA acc, i : LET p == a[i] * b[k + 1 - i] IN <<acc[1] + (p % Base), acc[2] + (p \div Base)>>,
                              <<0, 0>>, [j \in 1..((IF k < Len(a) THEN k ELSE Len(a)) - (IF k > Len(b) THEN k - Len(b) ELSE 0)) |->
                                          j + (IF k > Len(b) THEN k - Len(b) ELSE 0)])
           r == FoldLeft(LAMBDA acc, k : LET c == Col(k)
                                             t == c[1] + acc[2]
                                         IN <<Append(acc[1], t % Base), (t \div Base) + c[2]>>,
                         << <<>>, 0>>, [k \in 1..n |-> k])
           top == r[2]
       IN Trim(r[1] \o <<top % Base, top \div Base>>)
RECURSIVE OfInt(_)
OfInt(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o OfInt(n \div Base)

BZero == [s |-> 0, m |-> <<>>]
BNat(a) == [s |-> IF a = <<>> THEN 0 ELSE 1, m |-> a]
BInt(n) == [s |-> IF n < 0 THEN -1 ELSE IF n = 0 THEN 0 ELSE 1, m |-> OfInt(IF n < 0 THEN -n ELSE n)]
BOne == BInt(1)
BNeg(x) == [s |-> -x.s, m |-> x.m]
BAbs(x) == [s |-> x.s * x.s, m |-> x.m]
BAdd(x, y) ==
  IF x.s = 0 THEN y ELSE IF y.s = 0 THEN x
  ELSE IF x.s = y.s THEN [s |-> x.s, m |-> NAdd(x.m, y.m)]
  ELSE LET c == NCmp(x.m, y.m)
       IN IF c = 0 THEN BZero
          ELSE IF c > 0 THEN [s |-> x.s, m |-> NSub(x.m, y.m)]
          ELSE [s |-> y.s, m |-> NSub(y.m, x.m)]
BSub(x, y) == BAdd(x, BNeg(y))
BMul(x, y) == IF x.s = 0 \/ y.s = 0 THEN BZero ELSE [s |-> x.s * y.s, m |-> NMul(x.m, y.m)]
BLeq(x, y) == LET d == BSub(x, y) IN d.s <= 0
(* n * 10 + d *)
NPush(n, d) == NAdd(NMul(n, <<10>>), OfInt(d))
=============================================================================
