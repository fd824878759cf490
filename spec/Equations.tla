----------------------------- MODULE Equations -----------------------------
(***************************************************************************)
(* Many-body equations and the code compiled from an equation.             *)
(* An equation is [l: term on the left, r: term on the right, c: factor].  *)
(***************************************************************************)
EXTENDS Text

(* the equation of a term t of an expression: annihilators up (in reverse) *)
(* and creators down on the left, the tensors of the term on the right     *)
Creators(t) == Map(SelectSeq(t.o, Cre), Idx)
Annihilators(t) == Map(SelectSeq(t.o, LAMBDA o : ~Cre(o)), Idx)
TermOfTensors(ts) == [t |-> ts, o |-> <<>>, n |-> FALSE]
LhsTensor(l, t) == [l |-> l, u |-> Rev(Annihilators(t)), d |-> Creators(t), y |-> "a"]
(* the group: labels of the spaces of the upper indices in registered      *)
(* order, "|", labels of the spaces of the lower indices in reverse order  *)
SpacesText(sp, is) == Join(Map(SortInts(Map(is, LAMBDA i : i[1])), LAMBDA s : sp[s + 1].l), "")
SpacesTextRev(sp, is) == Join(Rev(Map(SortInts(Map(is, LAMBDA i : i[1])), LAMBDA s : sp[s + 1].l)), "")
Group(sp, t) == SpacesText(sp, Annihilators(t)) \o "|" \o SpacesTextRev(sp, Creators(t))
EqOf(sp, l, t) == [k |-> Group(sp, t), l |-> TermOfTensors(<<LhsTensor(l, t)>>), r |-> TermOfTensors(t.t), c |-> t.c]

SameBagOf(s, t) == /\ Len(s) = Len(t)
                   /\ \A x \in Range1(s) \cup Range1(t) :
                        Cardinality({i \in 1..Len(s) : s[i] = x}) = Cardinality({i \in 1..Len(t) : t[i] = x})

EqText(sp, q) == TermText(sp, q.lhs) \o " += " \o CoefText(q.c, FALSE) \o " " \o TermText(sp, q.rhs)

(* ------------------------------ compilers -------------------------------- *)
B == INSTANCE BigNum
Pow10(d) == IF d = 0 THEN <<1>> ELSE B!NMul(B!OfInt(10), FoldLeft(LAMBDA a, k : B!NMul(a, B!OfInt(10)), <<1>>, [k \in 1..(d-1) |-> k]))
(* m (a big integer) is c times 10^d, rounded to the nearest integer *)
Rounded(m, c, d) ==
  LET lhs == B!BMul(m, B!BInt(2 * c[2]))
      rhs == B!BMul(B!BInt(2 * c[1]), B!BNat(Pow10(d)))
      diff == B!BSub(lhs, rhs)
  IN B!NCmp(diff.m, B!OfInt(c[2])) <= 0

Target(sp, t) == t.l \o Join(Map(t.u \o t.d, LAMBDA i : sp[i[1] + 1].l), "")
Blocks(sp, t) == Join(Map(t.u \o t.d, LAMBDA i : sp[i[1] + 1].l), "")
AmbitTensor(sp, t) == LET is == t.u \o t.d
                      IN IF is = <<>> THEN t.l ELSE t.l \o "[" \o Join(Map(is, LAMBDA i : IdxText(sp, i)), ",") \o "]"

(* letters: one letter for each index, different letters for different     *)
(* indices, over all factors and the target                                *)
LetterMap(is, cs) ==
  /\ Len(is) = Len(cs)
  /\ \A k \in 1..Len(cs) : cs[k] \in Letters
  /\ \A j, k \in 1..Len(is) : (is[j] = is[k]) <=> (cs[j] = cs[k])
Distinct(q) == Cardinality(Range1(Flat(Map(q.lhs.t \o q.rhs.t, LAMBDA t : t.u \o t.d))))
(* there are 52 letters; an equation with more indices is refused *)
TooWide(q) == Distinct(q) > 52
(* code adds a product of tensors to one tensor: other equations are       *)
(* refused                                                                 *)
Compilable(q) == Len(q.lhs.t) = 1 /\ q.lhs.o = <<>> /\ q.rhs.o = <<>>
CanEinsum(q) == Compilable(q) /\ ~TooWide(q)
GoodEinsum(sp, q, r, digits) ==
  LET lt == q.lhs.t[1]
      fs == q.rhs.t
  IN /\ r.ok
     /\ r.l = Target(sp, lt)
     /\ r.op = "+="
     /\ Rounded(r.num, q.c, digits)
     /\ IF fs = <<>> THEN ~r.ein
        ELSE /\ r.ein
             /\ r.fac = Map(fs, LAMBDA t : <<t.l, Blocks(sp, t)>>)
             /\ Len(r.ins) = Len(fs)
             /\ \A k \in 1..Len(fs) : Len(r.ins[k]) = Len(fs[k].u) + Len(fs[k].d)
             /\ LetterMap(Flat(Map(fs, LAMBDA t : t.u \o t.d)) \o lt.u \o lt.d, Flat(r.ins) \o r.out)
GoodAmbit(sp, q, r) ==
  /\ r.lhs = AmbitTensor(sp, q.lhs.t[1])
  /\ r.op = "+="
  /\ Rounded(r.num, q.c, 6)
  /\ r.rhs = Join(Map(q.rhs.t, LAMBDA t : AmbitTensor(sp, t)), " * ")
=============================================================================
