----------------------------- MODULE GenBuilder -----------------------------
(* histories of objects built piece by piece, generated from Builder; the  *)
(* pieces come from a file                                                 *)
EXTENDS Builder, Json, IOUtils
CONSTANTS Depth
VARIABLES hist, g
Pool == ndJsonDeserialize(IOEnv.POOL)
Ops == Pool[1].ops
Tens == Pool[1].tens
Terms4 == {"a", "b", "c"}
Exprs2 == {"x", "y"}
Scalars == {<<1,1>>, <<-1,1>>, <<0,1>>, <<2,1>>, <<1,2>>, <<-2,3>>, <<3,2>>}
Small(h) == /\ \A z \in DOMAIN h.t : Len(h.t[z].t) <= 3 /\ Len(h.t[z].o) <= 5
            /\ \A z \in DOMAIN h.x : \A k \in DOMAIN h.x[z] : Abs(h.x[z][k][1]) < 1000 /\ h.x[z][k][2] < 100
Init == hist = <<>> /\ g = Regs
(* the term that will be read is not known: any of them, and the histories *)
(* go on with the smallest                                                 *)
After(a) == IF a.op = "bread" THEN IF DOMAIN g.x[a.a] = {} THEN g
                                   ELSE LET k == CHOOSE k \in DOMAIN g.x[a.a] : TRUE
                                        IN PutT(g, a.z, [k |-> "S", t |-> Map(k.t, LAMBDA t : [l |-> t.l, u |-> t.u, d |-> t.d, y |-> "a"]), o |-> k.o, n |-> k.n, c |-> ROne])
            ELSE IF a.op = "bside" THEN PutT(g, a.z, [k |-> "S", c |-> ROne] @@ g.q[a.a].l)
            ELSE Effect(g, a)
Do(a) == /\ CanDo(g, a)
         /\ LET h == TLCEval(After(a))
            IN /\ Small(h) /\ g' = h
               /\ hist' = Append(hist, a)
               /\ Len(hist) + 1 = Depth => PrintT(<<"HIST", ToJson(hist')>>)
Next ==
  /\ Len(hist) < Depth
  /\ IF DOMAIN g.t # Terms4
     THEN LET z == CHOOSE z \in Terms4 : z \notin DOMAIN g.t IN \E k \in {"S", "T"} : Do([op |-> "bnew", z |-> z, k |-> k])
     ELSE IF DOMAIN g.x # Exprs2
     THEN LET z == CHOOSE z \in Exprs2 : z \notin DOMAIN g.x IN Do([op |-> "bexp", z |-> z])
     ELSE \E z \in {RandomElement(Terms4)} : \E a \in {RandomElement(Terms4)} : \E b \in {RandomElement(Terms4)} : \E x \in {RandomElement(Exprs2)} :
          \E i \in {RandomElement(1..Len(Ops))} : \E j \in {RandomElement(1..Len(Ops))} : \E t \in {RandomElement(1..Len(Tens))} :
          \E c \in {RandomElement(Scalars)} :
          \/ Do([op |-> "bop", z |-> z, o |-> Ops[i]])
          \/ Do([op |-> "bops", z |-> z, os |-> <<Ops[i], Ops[j]>>])
          \/ Do([op |-> "bten", z |-> z, t |-> Tens[t]])
          \/ Do([op |-> "bset", z |-> z, os |-> <<Ops[j]>>])
          \/ Do([op |-> "bset", z |-> a, os |-> <<>>])
          \/ Do([op |-> "bflag", z |-> z, v |-> c[1] > 0])
          \/ Do([op |-> "bcoef", z |-> z, c |-> c])
          \/ Do([op |-> "bterm", z |-> z, a |-> a])
          \/ g.t[a].k = "S" /\ Do([op |-> "bput", z |-> x, a |-> a, how |-> "sym", c |-> ROne])
          \/ g.t[a].k = "S" /\ Do([op |-> "bput", z |-> x, a |-> a, how |-> "pair", c |-> c])
          \/ g.t[a].k = "T" /\ Do([op |-> "bput", z |-> x, a |-> a, how |-> "term", c |-> ROne])
          \/ Do([op |-> "bread", z |-> z, a |-> x, i |-> i - 1])
          \/ \E y \in {RandomElement(Exprs2)} : \E y2 \in {RandomElement(Exprs2)} : \E h \in {RandomElement({"add", "sub", "neg", "mul"})} :
               Do([op |-> "bsum", z |-> x, a |-> y, b |-> y2, how |-> h, c |-> c])
          \/ Do([op |-> "bwalk", a |-> x, c |-> IF i > j THEN <<-1, 1>> ELSE c])
          \/ Do([op |-> "beq", z |-> "q", a |-> a, b |-> b, c |-> c])
          \/ Do([op |-> "bside", z |-> z, a |-> "q", w |-> IF i > j THEN "l" ELSE "r"])
          \/ Len(hist) > 8 /\ Do([op |-> "bnew", z |-> z, k |-> IF i > j THEN "S" ELSE "T"])
=============================================================================
