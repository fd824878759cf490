-------------------------- MODULE TraceEquations --------------------------
(* traces of many-body equations and of compiled code *)
EXTENDS Equations, TraceBase
Start(t) == 0
NoC(t) == [t |-> t.t, o |-> t.o, n |-> t.n]
ObsEq(q) == [k |-> q.k, l |-> q.l, r |-> q.r, c |-> q.c]
Step(sp, s, e) ==
  CASE e.op = "mbeq" ->
         If(/\ e.x = 0
            /\ SameBagOf(Map(e.r.q, ObsEq), Map(e.e, LAMBDA t : EqOf(sp, e.l, t)))
            /\ \A k \in 1..Len(e.r.q) : /\ WellFormed(e.r.q[k].x)
                                        /\ ObsExpr(e.r.q[k].x) = LOfSeq(<< <<TermKey(e.r.q[k].r), e.r.q[k].c>> >>)
            /\ ObsExpr(e.r.after) = ObsExpr(e.e), s)
    [] e.op = "eqtext" ->
         If(/\ e.x = 0 /\ e.r.s = EqText(sp, e)
            /\ e.r.l = NoC(e.lhs) /\ e.r.r = NoC(e.rhs) /\ e.r.c = e.c, s)
    [] e.op = "eqambit" -> If(IF Compilable(e) THEN e.x = 0 /\ GoodAmbit(sp, e, e.r) ELSE e.x = 1, s)
    [] e.op = "eqeinsum" -> If(IF CanEinsum(e) THEN e.x = 0 /\ GoodEinsum(sp, e, e.r, 9) ELSE e.x = 1, s)
    [] e.op = "pyeinsum" -> If(IF CanEinsum(e) THEN e.x = 0 /\ GoodEinsum(sp, e, e.r, 8) ELSE e.x = 1, s)
    [] e.op = "eqbad" -> If(IF (e.fmt = "ambit" /\ Compilable(e)) \/ (e.fmt = "einsum" /\ CanEinsum(e)) THEN e.x = 0 ELSE e.x = 1, s)
    [] OTHER -> No
Init == TInit(Start)
Next == TNext(Step)
=============================================================================
