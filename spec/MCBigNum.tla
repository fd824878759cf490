------------------------------ MODULE MCBigNum ------------------------------
(***************************************************************************)
(* The arithmetic of BigNum against TLC's own integers (results below      *)
(* 2^31), and its laws on larger numbers.                                  *)
(***************************************************************************)
EXTENDS Rational, Randomization
VARIABLES a, b, c
Big == {[s |-> 1, m |-> <<9999, 9999, 9999>>], [s |-> -1, m |-> <<0, 1>>], [s |-> 1, m |-> <<1, 0, 0, 2>>], BInt(-7), [s |-> -1, m |-> <<9999, 0, 9999>>], BZero}
Small == {-99999, -10001, -10000, -9999, -100, -1, 0, 1, 2, 99, 100, 9999, 10000, 10001, 12345, 20000}
Init == a \in Small /\ b \in Small /\ c \in Big
Next == UNCHANGED <<a, b, c>>
ToInt(x) == x.s * (FoldLeft(LAMBDA acc, i : acc * Base + x.m[Len(x.m) + 1 - i], 0, [i \in 1..Len(x.m) |-> i]))
A == BInt(a)
B == BInt(b)
D2 == BInt(a - b)
Inv == /\ IsBig(A) /\ ToInt(A) = a
       /\ ToInt(BAdd(A, B)) = a + b /\ ToInt(BSub(A, B)) = a - b
       /\ a \in -20000..20000 /\ b \in -99999..99999 => ToInt(BMul(A, B)) = a * b
       /\ BLeq(A, B) = (a <= b)
       /\ BMul(BAdd(A, B), c) = BAdd(BMul(A, c), BMul(B, c))
       /\ BMul(A, BMul(B, c)) = BMul(BMul(A, B), c)
       /\ BSub(BAdd(A, c), c) = A
       /\ IsBig(BMul(BMul(c, c), A)) /\ IsBig(BSub(c, A))
       /\ (b # 0 /\ a # 0) => /\ SameNum(QDiv(QMul(Num(A, B), Num(c, A)), Num(A, B)), Num(c, A))
                              /\ SameNum(QSub(QAdd(Num(A, B), Num(c, A)), Num(c, A)), Num(A, B))
=============================================================================
