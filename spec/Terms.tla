------------------------------- MODULE Terms -------------------------------
(***************************************************************************)
(* The objects of the library:                                             *)
(*   space   [l: label, f: "f" | "b", y: "o" | "u" | "g", x: <<names>>]    *)
(*   index   <<space number (from 0), number>>                             *)
(*   op      <<1 (creator) | 0 (annihilator), space, number>>              *)
(*   tensor  [l: label, u: <<index>>, d: <<index>>, y: "a" | "s" | "n"]    *)
(*   term    [t: <<tensor>>, o: <<op>>, n: labelled normal ordered?]       *)
(*   an expression is a linear combination of terms.                       *)
(***************************************************************************)
EXTENDS Basics

Idx(op) == <<op[2], op[3]>>
Cre(op) == op[1] = 1
OpCre(i) == <<1, i[1], i[2]>>
OpAnn(i) == <<0, i[1], i[2]>>
Fermion(sp, s) == sp[s + 1].f = "f"
FOp(sp, op) == Fermion(sp, op[2])

(* what distinguishes two terms of an expression: tensors with their label *)
(* and indices in order, operators in order and, when there are operators, *)
(* the normal-ordering label                                               *)
TensorKey(t) == [l |-> t.l, u |-> t.u, d |-> t.d]
TermKey(tm) == [t |-> Map(tm.t, TensorKey), o |-> tm.o, n |-> tm.n /\ Len(tm.o) > 0]

(* an observed expression is a sequence of [t, o, n, c]; it is well formed *)
(* when its terms are distinct and its coefficients nonzero rationals      *)
ObsKeys(ob) == [i \in 1..Len(ob) |-> TermKey(ob[i])]
WellFormed(ob) ==
  /\ \A i \in 1..Len(ob) : ob[i].c[2] > 0 /\ ob[i].c[1] # 0 /\ IsRat(ob[i].c)
  /\ Cardinality(Range1(ObsKeys(ob))) = Len(ob)
ObsExpr(ob) == LOfSeq([i \in 1..Len(ob) |-> <<TermKey(ob[i]), ob[i].c>>])

(* index order: space, then number *)
IdxLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
IdxCode(i) == i[1] * 67108864 + i[2]
(* order of operators: creators first; creators increasing, annihilators   *)
(* decreasing                                                              *)
OpLess(a, b) == IF a[1] # b[1] THEN a[1] > b[1]
                ELSE IF a[1] = 1 THEN IdxLess(Idx(a), Idx(b)) ELSE IdxLess(Idx(b), Idx(a))
(* quasiparticle creators: annihilators of occupied spaces and creators of *)
(* the others                                                              *)
QpCre(sp, a) == IF sp[a[2] + 1].y = "o" THEN a[1] = 0 ELSE a[1] = 1
QpLess(sp, a, b) == IF QpCre(sp, a) # QpCre(sp, b) THEN QpCre(sp, a)
                    ELSE IF QpCre(sp, a) THEN IdxLess(Idx(a), Idx(b)) ELSE IdxLess(Idx(b), Idx(a))

(* product of two terms, neither labelled normal ordered *)
TermMul(a, b) == [t |-> a.t \o b.t, o |-> a.o \o b.o, n |-> FALSE]
OpAdj(op) == <<1 - op[1], op[2], op[3]>>
TermAdj(a) == [t |-> a.t, o |-> Map(Rev(a.o), OpAdj), n |-> a.n]

EAdjoint(f) == LOfSeq([i \in 1..Cardinality(DOMAIN f) |->
                         LET k == SetSeq(DOMAIN f)[i] IN <<TermAdj(k), f[k]>>])
EMul(f, g) == LTimes(f, g, TermMul)
=============================================================================
