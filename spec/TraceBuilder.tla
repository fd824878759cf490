---------------------------- MODULE TraceBuilder ----------------------------
(* traces of objects built piece by piece; everything is observed after    *)
(* every action                                                            *)
EXTENDS Builder, TraceBase
Start(t) == Regs
Term(k, r) == [k |-> k, t |-> r.t, o |-> r.o, n |-> r.n, c |-> ROne]
Step(sp, g, e) ==
  IF e.x # 0 \/ ~CanDo(g, e) THEN No
  ELSE IF e.op = "bread" THEN
    IF DOMAIN g.x[e.a] = {} THEN If(~e.r.v.ok /\ Seen(sp, g, e.r.g), g)
    ELSE IF ~e.r.v.ok THEN No
    ELSE LET k == TermKey(e.r.v.t)
             h == PutT(g, e.z, Term("S", e.r.v.t))
         IN If(k \in DOMAIN g.x[e.a] /\ e.r.v.c = g.x[e.a][k] /\ Seen(sp, h, e.r.g), h)
  ELSE IF e.op = "bwalk" THEN
    LET h == TLCEval(Effect(g, e))
    IN If(WellFormed(e.r.v.e) /\ ObsExpr(e.r.v.e) = g.x[e.a] /\ Seen(sp, h, e.r.g), h)
  ELSE IF e.op = "bside" THEN
    LET q == g.q[e.a]
        h == PutT(g, e.z, [k |-> "S", c |-> ROne] @@ (IF e.w = "l" THEN q.l ELSE q.r))
    IN If(Seen(sp, h, e.r.g), h)
  ELSE LET h == TLCEval(Effect(g, e)) IN If(Seen(sp, h, e.r.g), h)
Init == TInit(Start)
Next == TNext(Step)
=============================================================================
