---------------------------- MODULE TraceOrder ----------------------------
(* traces of comparisons, sorts and partitions *)
EXTENDS Terms, Partitions, TraceBase
Start(t) == 0
Distinct(s) == Cardinality(Range1(s)) = Len(s)
(* position of every element of s in t, for sequences without repetitions *)
PosIn(s, t) == Map(t, LAMBDA x : CHOOSE k \in 1..Len(s) : s[k] = x)
Step(sp, s, e) ==
  IF e.x # 0 THEN No
  ELSE CASE e.op = "ilt" -> If(e.r = [lt |-> IdxLess(e.a, e.b), eq |-> e.a = e.b, gt |-> IdxLess(e.b, e.a)], s)
         [] e.op = "olt" -> If(e.r = [lt |-> OpLess(e.a, e.b), eq |-> e.a = e.b, gt |-> OpLess(e.b, e.a),
                                      nlt |-> QpLess(sp, e.a, e.b), ngt |-> QpLess(sp, e.b, e.a)], s)
         [] e.op = "isort" ->
              LET less(a, b) == IF e.rev THEN IdxLess(b, a) ELSE IdxLess(a, b)
                  sorted == SortSeq(e.i, less)
              IN If(/\ e.r.i = sorted
                    /\ e.r.s \in {<<1, 1>>, <<-1, 1>>}
                    (* equal indices may stand in either order *)
                    /\ Distinct(e.i) => e.r.s = <<ParitySign(PosIn(e.i, sorted)), 1>>, s)
         [] e.op = "parts" -> If(Len(e.r) = Cardinality(Range1(e.r)) /\ Range1(e.r) = Parts(e.n, e.m, e.n), s)
         [] OTHER -> No
Init == TInit(Start)
Next == TNext(Step)
=============================================================================
