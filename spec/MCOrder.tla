----------------------------- MODULE MCOrder -----------------------------
(* The orders of indices and operators are strict total orders (hence      *)
(* strict weak orders consistent with equality), over every registry of    *)
(* two spaces; sorting reaches the sorted list with the sign of the        *)
(* permutation whatever the sequence of exchanges (bubble sort), and       *)
(* inversions give that sign.                                              *)
EXTENDS Terms
VARIABLES sp, tri, lst, sgn, orig
Reg == {<<[l |-> "p", f |-> f1, y |-> y1], [l |-> "q", f |-> f2, y |-> y2]>> :
          f1 \in {"f", "b"}, f2 \in {"f", "b"}, y1 \in {"o", "u", "g"}, y2 \in {"o", "u", "g"}}
Ixs == {<<a, b>> : a \in 0..1, b \in 0..1}
Ops == {<<c>> \o i : c \in 0..1, i \in Ixs}
Lists == {s \in [1..4 -> {<<a, b>> : a \in 0..1, b \in 0..1}] : Cardinality({s[k] : k \in 1..4}) = 4}
Init == /\ sp \in Reg /\ tri \in Ops \X Ops \X Ops
        /\ orig \in (IF sp = (CHOOSE r \in Reg : TRUE) /\ tri = (CHOOSE x \in Ops \X Ops \X Ops : TRUE) THEN Lists ELSE {<<>>})
        /\ lst = orig /\ sgn = 1
(* exchange of two neighbours out of order, any pair *)
Next == /\ \E k \in 1..(Len(lst) - 1) : /\ IdxLess(lst[k+1], lst[k])
                                         /\ lst' = [lst EXCEPT ![k] = lst[k+1], ![k+1] = lst[k]]
        /\ sgn' = -sgn
        /\ UNCHANGED <<sp, tri, orig>>
Total(less(_,_)) ==
  LET a == tri[1]  b == tri[2]  c == tri[3]
  IN /\ ~less(a, a)
     /\ ~(less(a, b) /\ less(b, a))
     /\ less(a, b) \/ less(b, a) \/ a = b
     /\ less(a, b) /\ less(b, c) => less(a, c)
Orders == /\ Total(OpLess)
          /\ Total(LAMBDA a, b : QpLess(sp, a, b))
          /\ Total(LAMBDA a, b : IF a[1] = b[1] THEN IdxLess(Idx(a), Idx(b)) ELSE a[1] < b[1])
(* quasiparticle order: creators of quasiparticles first *)
QpFirst == \A a, b \in Range1(tri) : QpCre(sp, a) /\ ~QpCre(sp, b) => QpLess(sp, a, b)
Stuck == ~\E k \in 1..(Len(lst) - 1) : IdxLess(lst[k+1], lst[k])
Sorted == orig # <<>> /\ Stuck =>
            /\ lst = SortSeq(orig, IdxLess)
            /\ sgn = ParitySign(Map(lst, LAMBDA x : CHOOSE k \in 1..Len(orig) : orig[k] = x))
Inv == Orders /\ QpFirst /\ Sorted
=============================================================================
