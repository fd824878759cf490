---------------------------- MODULE TraceNOValue ----------------------------
(* normal ordering keeps the operator *)
EXTENDS NormalOrder, TraceBase
Start(t) == [v |-> 0]
Flagged(ob) == \E i \in 1..Len(ob) : ob[i].n
Step(sp, s, e) ==
  IF e.x # 0 THEN No
  ELSE CASE e.op = "vno" -> If(IF Flagged(e.e) THEN TRUE ELSE e.r.ok /\ SameOperator(sp, e.e, e.r.y, e.same), s)
         [] OTHER -> No
Init == TInit(Start)
Next == TNext(Step)
=============================================================================
