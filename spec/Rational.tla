------------------------------ MODULE Rational ------------------------------
(***************************************************************************)
(* Exact rational numbers of any size, and their texts.  A number is       *)
(* [n, d] with d # 0; two are the same when they cross multiply.           *)
(***************************************************************************)
EXTENDS BigNum
Num(n, d) == [n |-> n, d |-> d]
SameNum(x, y) == BMul(x.n, y.d) = BMul(y.n, x.d)
QAdd(x, y) == Num(BAdd(BMul(x.n, y.d), BMul(y.n, x.d)), BMul(x.d, y.d))
QSub(x, y) == Num(BSub(BMul(x.n, y.d), BMul(y.n, x.d)), BMul(x.d, y.d))
QMul(x, y) == Num(BMul(x.n, y.n), BMul(x.d, y.d))
QDiv(x, y) == Num(BMul(x.n, y.d), BMul(x.d, y.n))
IsZeroQ(x) == x.n.s = 0

(* lowest terms, with a positive denominator; u, v witness that n and d    *)
(* have no common factor: u n + v d = 1                                    *)
Canonical(x) == /\ IsBig(x.n) /\ IsBig(x.d) /\ x.d.s = 1
                /\ BAdd(BMul(x.u, x.n), BMul(x.v, x.d)) = BOne

(* ---------------------------- reading ---------------------------------- *)
(* a text is a sequence of characters:                                     *)
(* blanks, sign, digits, and a slash with digits, blanks                   *)
DigitChars == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E i \in 1..10 : DigitChars[i] = c
Digit(c) == (CHOOSE i \in 1..10 : DigitChars[i] = c) - 1
IsBlank(c) == c \in {" ", "\t", "\n", "\r"}
(* a finite automaton: blank, sign, numerator, slash, denominator, blank   *)
ReadStep(st, c) ==
  IF ~st.ok THEN st
  ELSE CASE st.q = 0 /\ IsBlank(c) -> st
         [] st.q = 0 /\ c = "-" -> [st EXCEPT !.q = 1, !.neg = TRUE]
         [] st.q = 0 /\ c = "+" -> [st EXCEPT !.q = 1]
         [] st.q <= 2 /\ IsDigit(c) -> [st EXCEPT !.q = 2, !.n = NPush(st.n, Digit(c))]
         [] st.q <= 2 /\ c = "/" -> [st EXCEPT !.q = 3, !.ok = (st.q = 2)]
         [] st.q \in {3, 4} /\ IsDigit(c) -> [st EXCEPT !.q = 4, !.d = NPush(st.d, Digit(c))]
         [] st.q \in {1, 2, 4, 5} /\ IsBlank(c) -> [st EXCEPT !.q = 5, !.one = (st.q = 1) \/ st.one]
         [] OTHER -> [st EXCEPT !.ok = FALSE]
(* no digits at all mean one; a slash needs digits on both sides; a zero   *)
(* denominator is refused                                                  *)
ReadText(ch) ==
  LET r == FoldLeft(ReadStep, [ok |-> TRUE, q |-> 0, neg |-> FALSE, one |-> FALSE, n |-> <<>>, d |-> <<>>], ch)
      hasD == r.d # <<>>
      one == r.q \in {0, 1} \/ r.one
      n == IF one THEN BOne ELSE BNat(r.n)
      slash == \E i \in 1..Len(ch) : ch[i] = "/"
  IN IF ~r.ok \/ r.q = 3 \/ (slash /\ ~hasD) THEN [ok |-> FALSE, v |-> Num(BZero, BOne)]
     ELSE [ok |-> TRUE, v |-> Num(IF r.neg THEN BNeg(n) ELSE n, IF slash THEN BNat(r.d) ELSE BOne)]

(* ---------------------------- writing ---------------------------------- *)
(* a text cut in sign, digits, slash and digits (numbers as limbs; z: a    *)
(* needless leading zero)                                                  *)
IsOne(x) == x.m = <<1>>
GoodText(x, t, plus) ==
  /\ ~t.z
  /\ t.sg = IF x.n.s < 0 THEN "-" ELSE IF x.n.s > 0 /\ plus THEN "+" ELSE ""
  /\ IF IsOne(x.d) /\ IsOne(x.n) THEN ~t.hn /\ ~t.hd
     ELSE /\ t.hn /\ t.n.m = x.n.m
          /\ t.hd = ~IsOne(x.d) /\ (t.hd => t.d.m = x.d.m)
(* in LaTeX a positive number may carry a sign, and must when it is not    *)
(* the first                                                               *)
GoodLatex(x, t, first) ==
  /\ ~t.z
  /\ IF x.n.s < 0 THEN t.sg = "-" ELSE IF x.n.s > 0 /\ ~first THEN t.sg = "+" ELSE t.sg \in {"", "+"}
  /\ IF IsOne(x.d) /\ IsOne(x.n) THEN ~t.hd /\ (t.hn => IsOne(t.n))
     ELSE /\ t.hn /\ t.n.m = x.n.m
          /\ t.hd = ~IsOne(x.d) /\ (t.hd => t.d.m = x.d.m)

(* nearest double, to 14 digits; decimal text with six places *)
Ten14 == BMul(BInt(10000000), BInt(10000000))
Million == BInt(1000000)
NearDouble(x, f) ==
  BLeq(BMul(BAbs(BSub(BMul(f.n, x.d), BMul(x.n, f.d))), Ten14), BMul(BAbs(x.n), f.d))
NearDecimal(x, k) == (* k: the decimal times a million *)
  BLeq(BMul(BMul(BInt(200000000), BAbs(BSub(BMul(k, x.d), BMul(x.n, Million)))), BOne),
       BAdd(BMul(BInt(100000000), x.d), BMul(BInt(2), BAbs(x.n))))
=============================================================================
