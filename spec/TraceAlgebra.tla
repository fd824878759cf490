---------------------------- MODULE TraceAlgebra ----------------------------
(* traces of expression registers *)
EXTENDS Algebra, TraceBase
B == INSTANCE BigAlgebra
Start(t) == <<>>
Observed(g) == [n \in DOMAIN g |-> ObsExpr(g[n])]
Step(sp, g, e) ==
  IF e.x # 0 THEN No
  ELSE IF SubSeq(e.op, 1, 1) = "q" THEN B!QStep(g, e, e.r)
  ELSE LET r == TLCEval(Effect(g, e))
       IN If(/\ e.r.ok = r.ok
             /\ DOMAIN e.r.g = DOMAIN r.g
             /\ \A n \in DOMAIN r.g : WellFormed(e.r.g[n]) /\ ObsExpr(e.r.g[n]) = r.g[n]
             /\ r.ok => GoodValue(e, r.v, e.r.v), r.g)
Init == TInit(Start)
Next == TNext(Step)
=============================================================================
