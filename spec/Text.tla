------------------------------- MODULE Text -------------------------------
(***************************************************************************)
(* The texts of the objects: how indices, tensors, operators, terms and    *)
(* expressions are printed, how they are rendered in LaTeX, and how a text *)
(* is read.  Printed texts are strings; texts to be read are sequences of  *)
(* characters.                                                             *)
(***************************************************************************)
EXTENDS Terms

Join(ss, sep) == IF ss = <<>> THEN "" ELSE FoldLeft(LAMBDA acc, x : acc \o sep \o x, ss[1], Tail(ss))
Many(ss, sep) == Join(SelectSeq(ss, LAMBDA x : x # ""), sep)

(* ------------------------------- printing ------------------------------- *)
IdxText(sp, i) == sp[i[1] + 1].l \o ToString(i[2])
TensorText(sp, t) == t.l \o "^{" \o Join(Map(t.u, LAMBDA i : IdxText(sp, i)), ",") \o "}_{"
                         \o Join(Map(t.d, LAMBDA i : IdxText(sp, i)), ",") \o "}"
OpText(sp, o) == (IF FOp(sp, o) THEN "a" ELSE "b") \o (IF Cre(o) THEN "+" ELSE "-") \o "(" \o IdxText(sp, Idx(o)) \o ")"
TermText(sp, t) ==
  LET os == Map(t.o, LAMBDA o : OpText(sp, o))
  IN Join(Map(t.t, LAMBDA x : TensorText(sp, x))
          \o (IF t.o = <<>> THEN <<>> ELSE IF t.n THEN <<"{">> \o os \o <<"}">> ELSE os), " ")
(* a coefficient; a positive one shows its sign when it must (plus).  One  *)
(* and minus one are only signs.                                           *)
CoefText(c, plus) ==
  LET n == c[1]  p == IF plus /\ n > 0 THEN "+" ELSE ""
  IN IF n = 0 THEN "0"
     ELSE IF c[2] # 1 THEN p \o ToString(n) \o "/" \o ToString(c[2])
     ELSE IF n = 1 THEN p ELSE IF n = -1 THEN "-" ELSE p \o ToString(n)
IsSign(s) == s \in {"", "+", "-"}
(* the line of a term in an expression *)
LineText(sp, t, plus) ==
  LET c == CoefText(t.c, plus)  b == TermText(sp, t)
  IN IF b = "" THEN (IF IsSign(c) THEN c \o "1" ELSE c)
     ELSE IF IsSign(c) THEN c \o b ELSE c \o " " \o b
(* coefficients of any size are given by the texts of the absolute value   *)
(* of the numerator and of the denominator: <<sign, "12", "7">>            *)
BigCoefText(c, plus) ==
  LET p == IF c[1] = -1 THEN "-" ELSE IF plus THEN "+" ELSE ""
  IN IF c[3] # "1" THEN p \o c[2] \o "/" \o c[3] ELSE IF c[2] = "1" THEN p ELSE p \o c[2]
BigLineText(sp, t, plus) ==
  LET c == BigCoefText(t.c, plus)  b == TermText(sp, t)
  IN IF b = "" THEN (IF IsSign(c) THEN c \o "1" ELSE c)
     ELSE IF IsSign(c) THEN c \o b ELSE c \o " " \o b
BigExprText(sp, seq) == Join([i \in 1..Len(seq) |-> BigLineText(sp, seq[i], i > 1)], "\n")
ExprText(sp, seq) == Join([i \in 1..Len(seq) |-> LineText(sp, seq[i], i > 1)], "\n")
(* a term with its coefficient, alone *)
WholeTermText(sp, t) ==
  LET c == CoefText(t.c, FALSE)  b == TermText(sp, t)
  IN IF b = "" THEN (IF IsSign(c) THEN c \o "1" ELSE c)
     ELSE IF c = "" THEN b ELSE c \o " " \o b

(* -------------------------------- LaTeX --------------------------------- *)
IdxTex(sp, i) == IF i[2] < Len(sp[i[1] + 1].x) THEN sp[i[1] + 1].x[i[2] + 1]
                 ELSE sp[i[1] + 1].l \o "_{" \o ToString(i[2]) \o "}"
Greek == {"alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota", "kappa", "lambda", "mu", "nu",
          "xi", "omicron", "pi", "rho", "sigma", "tau", "upsilon", "phi", "chi", "psi", "omega"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
(* a label is a name and perhaps a number, with or without "_" between *)
NameEnd(l) == IF \E k \in 1..Len(l) : SubSeq(l, k, k) \in Digits \cup {"_"}
              THEN (CHOOSE k \in 1..Len(l) : /\ SubSeq(l, k, k) \in Digits \cup {"_"}
                                             /\ \A j \in 1..(k-1) : SubSeq(l, j, j) \notin Digits \cup {"_"}) - 1
              ELSE Len(l)
LabelName(l) == SubSeq(l, 1, NameEnd(l))
LabelNum(l) == LET r == SubSeq(l, NameEnd(l) + 1, Len(l))
               IN IF Len(r) > 0 /\ SubSeq(r, 1, 1) = "_" THEN SubSeq(r, 2, Len(r)) ELSE r
LabelTex(l) == IF LabelName(l) \in Greek THEN "{\\" \o LabelName(l) \o "}"
               ELSE "{" \o LabelName(l) \o (IF LabelNum(l) = "" THEN "" ELSE "_{" \o LabelNum(l) \o "}") \o "}"
TensorTex(sp, t) == LabelTex(t.l) \o "^{" \o Join(Map(t.u, LAMBDA i : IdxTex(sp, i)), " ") \o "}_{"
                                  \o Join(Map(t.d, LAMBDA i : IdxTex(sp, i)), " ") \o "}"
OpTex(sp, o) == "\\hat{" \o (IF FOp(sp, o) THEN "a" ELSE "b") \o "}" \o (IF Cre(o) THEN "^" ELSE "_")
                \o "{" \o IdxTex(sp, Idx(o)) \o "}"
(* fermionic operators, all creators before all annihilators *)
Compact(sp, os) == /\ \A i \in 1..Len(os) : FOp(sp, os[i])
                   /\ \A i, j \in 1..Len(os) : i < j /\ Cre(os[j]) => Cre(os[i])
OpsTex(sp, os) ==
  IF Compact(sp, os)
  THEN LET ix(s) == Map(s, LAMBDA o : IdxTex(sp, Idx(o)))
       IN <<"\\hat{a}^{" \o Join(ix(SelectSeq(os, Cre)), " ") \o "}_{"
            \o Join(Rev(ix(SelectSeq(os, LAMBDA o : ~Cre(o)))), " ") \o "}">>
  ELSE Map(os, LAMBDA o : OpTex(sp, o))
TermTex(sp, t) ==
  Join(Map(t.t, LAMBDA x : TensorTex(sp, x))
       \o (IF t.o = <<>> THEN <<>> ELSE IF t.n THEN <<"\\{">> \o OpsTex(sp, t.o) \o <<"\\}">> ELSE OpsTex(sp, t.o)), " ")
CoefTex(c, first) ==
  LET n == c[1] IN
  IF n = 0 THEN "0"
  ELSE IF c[2] # 1 THEN (IF n > 0 THEN "+" ELSE "-") \o "\\frac{" \o ToString(Abs(n)) \o "}{" \o ToString(c[2]) \o "}"
  ELSE IF n = 1 THEN "+" ELSE IF n = -1 THEN "-"
  ELSE (IF first \/ n < 0 THEN "" ELSE "+") \o ToString(n)
WholeTermTex(sp, t, first) ==
  LET c == CoefTex(t.c, first)  b == TermTex(sp, t)
  IN IF b = "" THEN (IF IsSign(c) THEN c \o "1" ELSE c \o " ") ELSE c \o " " \o b
BigCoefTex(c, first) ==
  IF c[3] # "1" THEN (IF c[1] = 1 THEN "+" ELSE "-") \o "\\frac{" \o c[2] \o "}{" \o c[3] \o "}"
  ELSE IF c[2] = "1" THEN (IF c[1] = 1 THEN "+" ELSE "-")
  ELSE (IF c[1] = -1 THEN "-" ELSE IF first THEN "" ELSE "+") \o c[2]
BigTermTex(sp, t, first) ==
  LET c == BigCoefTex(t.c, first)  b == TermTex(sp, t)
  IN IF b = "" THEN (IF IsSign(c) THEN c \o "1" ELSE c \o " ") ELSE c \o " " \o b
ExprTex(sp, seq, sep) == Join([i \in 1..Len(seq) |-> WholeTermTex(sp, seq[i], i = 1)], sep)

(* -------------------------------- reading -------------------------------- *)
LowerCase == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
UpperCase == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Letters == LowerCase \cup UpperCase
Blank == {" ", "\t"}
DigitSeq == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitVal == TLCEval([d \in Digits |-> (CHOOSE k \in 1..10 : DigitSeq[k] = d) - 1])
NatOf(ds) == FoldLeft(LAMBDA acc, d : 10 * acc + DigitVal[d], 0, ds)
(* end of the run of characters of a set that starts at i *)
RECURSIVE RunEnd(_,_,_)
RunEnd(s, i, set) == IF i > Len(s) \/ s[i] \notin set THEN i ELSE RunEnd(s, i + 1, set)
Spaces(sp, ch) == {k \in 1..Len(sp) : sp[k].l = ch}
Bad == [ok |-> FALSE]

(* an index: letter of a registered space, perhaps "_", digits *)
ReadIdx(sp, s) ==
  IF Len(s) < 2 \/ s[1] \notin Letters THEN Bad
  ELSE LET k == IF s[2] = "_" THEN 3 ELSE 2
       IN IF k > Len(s) \/ RunEnd(s, k, Digits) # Len(s) + 1 \/ Spaces(sp, s[1]) = {} THEN Bad
          ELSE [ok |-> TRUE, i |-> << (CHOOSE x \in Spaces(sp, s[1]) : TRUE) - 1, NatOf(SubSeq(s, k, Len(s))) >>]
RECURSIVE SplitAt(_,_)
SplitAt(s, c) == LET hits == {k \in 1..Len(s) : s[k] = c}
                 IN IF hits = {} THEN <<s>>
                    ELSE LET k == CHOOSE k \in hits : \A j \in hits : k <= j
                         IN <<SubSeq(s, 1, k - 1)>> \o SplitAt(SubSeq(s, k + 1, Len(s)), c)
RECURSIVE Trim(_)
Trim(s) == IF s = <<>> THEN s
           ELSE IF Head(s) \in Blank THEN Trim(Tail(s))
           ELSE IF s[Len(s)] \in Blank THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
(* a list of indices separated by commas *)
ReadIdxs(sp, s) ==
  IF s = <<>> THEN [ok |-> TRUE, is |-> <<>>]
  ELSE LET rs == Map(SplitAt(s, ","), LAMBDA x : ReadIdx(sp, Trim(x)))
       IN IF \A k \in 1..Len(rs) : rs[k].ok THEN [ok |-> TRUE, is |-> Map(rs, LAMBDA r : r.i)] ELSE Bad
StrOf(chars) == FoldLeft(LAMBDA acc, x : acc \o x, "", chars)
Find(s, i, c) == LET hits == {k \in i..Len(s) : s[k] = c} IN IF hits = {} THEN 0 ELSE CHOOSE k \in hits : \A j \in hits : k <= j
(* the tensor that starts at i: label^{indices}_{indices}; j is the        *)
(* position after it                                                       *)
ReadTensorAt(sp, s, i) ==
  LET a == RunEnd(s, i, Letters \cup Digits \cup {"_"})
  IN IF a = i \/ a + 1 > Len(s) \/ s[a] # "^" \/ s[a+1] # "{" THEN Bad
     ELSE LET b == Find(s, a, "}")
          IN IF b = 0 \/ b + 2 > Len(s) \/ s[b+1] # "_" \/ s[b+2] # "{" THEN Bad
             ELSE LET c == Find(s, b + 2, "}")
                  IN IF c = 0 THEN Bad
                     ELSE LET u == ReadIdxs(sp, SubSeq(s, a + 2, b - 1))
                              d == ReadIdxs(sp, SubSeq(s, b + 3, c - 1))
                          IN IF u.ok /\ d.ok THEN [ok |-> TRUE, j |-> c + 1, t |-> [l |-> StrOf(SubSeq(s, i, a - 1)), u |-> u.is, d |-> d.is]]
                             ELSE Bad
ReadTensor(sp, s) == LET r == ReadTensorAt(sp, s, 1) IN IF r.ok /\ r.j = Len(s) + 1 THEN r ELSE Bad
(* the operator that starts at i: a+(index) and so on *)
IsOpAt(s, i) == i + 2 <= Len(s) /\ s[i] \in {"a", "b"} /\ s[i+1] \in {"+", "-"} /\ s[i+2] = "("
ReadOpAt(sp, s, i) ==
  LET c == Find(s, i, ")")
  IN IF c = 0 THEN Bad
     ELSE LET x == ReadIdx(sp, SubSeq(s, i + 3, c - 1))
          IN IF x.ok THEN [ok |-> TRUE, j |-> c + 1, o |-> IF s[i+1] = "+" THEN OpCre(x.i) ELSE OpAnn(x.i)] ELSE Bad
(* the items after the coefficient; acc = [t, o, n] *)
RECURSIVE ReadItems(_,_,_,_)
ReadItems(sp, s, i, acc) ==
  LET k == RunEnd(s, i, Blank)
  IN IF k > Len(s) THEN [ok |-> TRUE, v |-> acc]
     ELSE IF s[k] = "{" THEN ReadItems(sp, s, k + 1, [acc EXCEPT !.n = TRUE])
     ELSE IF s[k] = "}" THEN ReadItems(sp, s, k + 1, acc)
     ELSE IF IsOpAt(s, k) THEN LET r == ReadOpAt(sp, s, k) IN IF r.ok THEN ReadItems(sp, s, r.j, [acc EXCEPT !.o = Append(@, r.o)]) ELSE Bad
     ELSE LET r == ReadTensorAt(sp, s, k) IN IF r.ok THEN ReadItems(sp, s, r.j, [acc EXCEPT !.t = Append(@, r.t)]) ELSE Bad
(* a line: sign, number, fraction (each may be absent), items *)
ReadTerm(sp, s) ==
  LET i0 == RunEnd(s, 1, Blank)
      neg == i0 <= Len(s) /\ s[i0] = "-"
      i1 == IF i0 <= Len(s) /\ s[i0] \in {"+", "-"} THEN i0 + 1 ELSE i0
      i2 == RunEnd(s, i1, Digits)
      num == IF i2 = i1 THEN 1 ELSE NatOf(SubSeq(s, i1, i2 - 1))
      frac == i2 > i1 /\ i2 <= Len(s) /\ s[i2] = "/"
      i3 == IF frac THEN RunEnd(s, i2 + 1, Digits) ELSE i2
      den == IF frac THEN NatOf(SubSeq(s, i2 + 1, i3 - 1)) ELSE 1
      r == ReadItems(sp, s, i3, [t |-> <<>>, o |-> <<>>, n |-> FALSE])
  IN IF den = 0 \/ ~r.ok THEN Bad
     ELSE [ok |-> TRUE, c |-> Rat(IF neg THEN -num ELSE num, den), k |-> [r.v EXCEPT !.n = @ /\ r.v.o # <<>>]]
(* the expression of a list of lines; an empty line adds nothing *)
ReadLines(sp, lines) ==
  FoldLeft(LAMBDA acc, s : IF ~acc.ok \/ s = <<>> THEN acc
                           ELSE LET r == ReadTerm(sp, s) IN IF r.ok THEN [ok |-> TRUE, f |-> LAdd(acc.f, r.k, r.c)] ELSE [ok |-> FALSE, f |-> Empty],
           [ok |-> TRUE, f |-> Empty], lines)
=============================================================================
