----------------------------- MODULE TraceNOForm -----------------------------
(* form of normal-ordered expressions; refusals; the normal-order test *)
EXTENDS NormalOrder, TraceBase
Start(t) == [v |-> 0]
Flagged(ob) == \E i \in 1..Len(ob) : ob[i].n
AllOrdered(ob) == \A i \in 1..Len(ob) : Ordered(ob[i].o)
NoRepeats(sp, ob) == \A i \in 1..Len(ob) : ~Vanishes(sp, ob[i].o)
(* t: tensors of a result term; orig: tensors of an input term *)
Extends1(t, orig) ==
  /\ Len(t) >= Len(orig)
  /\ \A j \in 1..Len(orig) : t[j].l = orig[j].l /\ t[j].u = orig[j].u /\ t[j].d = orig[j].d /\ t[j].y = orig[j].y
  /\ \A j \in (Len(orig)+1)..Len(t) :
       /\ IsDelta(t[j]) /\ Len(t[j].u) = 1 /\ Len(t[j].d) = 1
       /\ t[j].u[1] # t[j].d[1] /\ t[j].u[1][1] = t[j].d[1][1]
(* a delta never joins indices that the input term does not have; every    *)
(* delta removes a creator and an annihilator                              *)
FromInput(ob, tm) ==
  \E k \in 1..Len(ob) :
    /\ Extends1(tm.t, ob[k].t)
    /\ Len(tm.o) <= Len(ob[k].o)
    /\ \A j \in 1..Len(tm.o) : tm.o[j] \in Range1(ob[k].o)
    /\ \A j \in (Len(ob[k].t)+1)..Len(tm.t) :
         /\ OpAnn(tm.t[j].d[1]) \in Range1(ob[k].o) /\ OpCre(tm.t[j].u[1]) \in Range1(ob[k].o)
    /\ Len(tm.o) + 2 * (Len(tm.t) - Len(ob[k].t)) <= Len(ob[k].o)
Same(a, b) == Len(a) = Len(b) /\ ObsExpr(a) = ObsExpr(b)
Good(sp, e) ==
  LET y == e.r.y
  IN /\ WellFormed(y)
     /\ AllOrdered(y) /\ NoRepeats(sp, y)
     /\ \A i \in 1..Len(y) : FromInput(e.e, y[i])
     /\ e.same => \A i \in 1..Len(y) : \A k \in 1..Len(y[i].t) : ~IsDelta(y[i].t[k])
     /\ e.r.yno
     /\ WellFormed(e.r.yy) /\ Same(e.r.yy, y)
Step(sp, s, e) ==
  IF e.x # 0 THEN No
  ELSE CASE e.op = "vno" -> If(/\ e.r.isno = AllOrdered(e.e)
                               /\ e.r.ok = ~Flagged(e.e)
                               /\ WellFormed(e.r.after) /\ ObsExpr(e.r.after) = ObsExpr(e.e)
                               /\ e.r.ok => Good(sp, e), s)
         [] e.op = "isno" -> If(e.r = AllOrdered(e.e), s)
         [] OTHER -> No
Init == TInit(Start)
Next == TNext(Step)
=============================================================================
