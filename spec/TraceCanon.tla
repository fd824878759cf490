----------------------------- MODULE TraceCanon -----------------------------
(* canonicalization of expressions *)
EXTENDS Canon, TraceBase
Start(t) == [v |-> 0]

Refused(ob) == \E i \in 1..Len(ob) : \E k \in 1..Len(ob[i].t) : ob[i].t[k].y = "n"
IdxSorted(s) == \A i \in 1..(Len(s)-1) : ~IdxLess(s[i+1], s[i])
(* every term: indices of every tensor in order, operators in order *)
SortedTerm(tm) ==
  /\ \A k \in 1..Len(tm.t) : IdxSorted(tm.t[k].u) /\ IdxSorted(tm.t[k].d)
  /\ \A i \in 1..(Len(tm.o)-1) : ~OpLess(tm.o[i+1], tm.o[i])
(* the bag of tensors (label, symmetry, ranks), the operator string up to  *)
(* names, and the normal-ordering label of a term                          *)
Bag(s) == [x \in Range1(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
Signature(tm) == <<Bag(Map(tm.t, LAMBDA t : <<t.l, t.y, Len(t.u), Len(t.d)>>)),
                   Bag(Map(tm.o, LAMBDA o : <<o[1], o[2]>>)), tm.n /\ Len(tm.o) > 0>>
OnTensor(tm) == UNION {Range1(tm.t[k].u) \cup Range1(tm.t[k].d) : k \in 1..Len(tm.t)}
(* indices on operators only *)
FreeOf(tm) == {Idx(tm.o[i]) : i \in 1..Len(tm.o)} \ OnTensor(tm)
(* a plain term: tensors with different labels, every index once on a      *)
(* tensor and once on an operator: upper indices on annihilators and lower *)
(* indices on creators, or the reverse.  (Equal terms with contracted tensors   *)
(* need not be recognized: the library sorts by a heuristic.)              *)
CountIn(q, x) == Cardinality({j \in 1..Len(q) : q[j] = x})
Uppers(tm, x) == SeqSum([k \in 1..Len(tm.t) |-> CountIn(tm.t[k].u, x)])
Lowers(tm, x) == SeqSum([k \in 1..Len(tm.t) |-> CountIn(tm.t[k].d, x)])
OnOps(tm, x) == Cardinality({i \in 1..Len(tm.o) : Idx(tm.o[i]) = x})
Distinct(tm) ==
  /\ Cardinality({tm.t[k].l : k \in 1..Len(tm.t)}) = Len(tm.t)
  /\ \A k \in 1..Len(tm.t) : Cardinality(Range1(tm.t[k].u) \cup Range1(tm.t[k].d)) = Len(tm.t[k].u) + Len(tm.t[k].d)
  /\ \A x \in OnTensor(tm) : <<Uppers(tm, x), Lowers(tm, x), OnOps(tm, x)>> \in {<<1,0,1>>, <<0,1,1>>}
  /\ FreeOf(tm) = {}
  /\ \E cre \in {0, 1} : \A i \in 1..Len(tm.o) : (tm.o[i][1] = cre) = (Lowers(tm, Idx(tm.o[i])) = 1)
(* like terms are merged: no two plain terms have the same value up to a   *)
(* factor                                                                  *)
Merged(sp, ob) ==
  \A i \in 1..Len(ob) : Distinct(ob[i]) =>
     LET c == Class(sp, ob[i])
     IN c.s # 0 => \A j \in 1..(i-1) : (Distinct(ob[j]) /\ Signature(ob[i]) = Signature(ob[j])) =>
          LET d == Class(sp, ob[j]) IN <<c.k, c.f>> # <<d.k, d.f>>
Same(a, b) == Len(a) = Len(b) /\ ObsExpr(a) = ObsExpr(b)

Step(sp, s, e) ==
  IF e.x # 0 THEN No
  ELSE CASE e.op = "canon" ->
         If(IF Refused(e.e) THEN ~e.r.ok /\ Same(e.r.y, e.e)
            ELSE /\ e.r.ok
                 /\ WellFormed(e.r.y) /\ Same(e.r.ret, e.r.y)
                 /\ \A i \in 1..Len(e.r.y) :
                      /\ SortedTerm(e.r.y[i])
                      /\ \E k \in 1..Len(e.e) : Signature(e.r.y[i]) = Signature(e.e[k]) /\ FreeOf(e.r.y[i]) = FreeOf(e.e[k])
                 /\ Value(sp, e.r.y) = Value(sp, e.e)
                 /\ Merged(sp, e.r.y), s)
       [] OTHER -> No
Init == TInit(Start)
Next == TNext(Step)
=============================================================================
