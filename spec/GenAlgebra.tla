----------------------------- MODULE GenAlgebra -----------------------------
(***************************************************************************)
(* Histories of expression registers, generated from the specification.    *)
(* The pool (literal expressions and terms) comes from a file; an action   *)
(* is taken only if the expressions stay small.                            *)
(***************************************************************************)
EXTENDS Algebra, Json, IOUtils
CONSTANTS Depth, Adjoint
VARIABLES hist, g
Pool == ndJsonDeserialize(IOEnv.POOL)
Exprs == Pool[1].exprs
TermPool == Pool[1].terms
Names == {"a", "b", "c"}
Scalars == {<<1,1>>, <<-1,1>>, <<0,1>>, <<2,1>>, <<1,2>>, <<-2,3>>, <<3,2>>}
Small(f, num, den, n) == /\ Cardinality(DOMAIN f) <= n
                         /\ \A k \in DOMAIN f : Abs(f[k][1]) <= num /\ f[k][2] <= den /\ Len(k.o) <= 6 /\ Len(k.t) <= 4
Init == hist = <<>> /\ g = <<>>
Do(a) == LET r == TLCEval(Effect(g, a))
         IN /\ \A n \in DOMAIN r.g : Small(r.g[n], 2000, 72, 10)
            /\ g' = r.g
            /\ hist' = Append(hist, a)
            /\ Len(hist) + 1 = Depth => PrintT(<<"HIST", ToJson(hist')>>)
R == DOMAIN g
Next ==
  /\ Len(hist) < Depth
  /\ IF Cardinality(R) < 3
     THEN LET z == CHOOSE z \in Names : z \notin R
          IN (\E k \in 1..Len(Exprs) : Do([op |-> "xlet", z |-> z, e |-> Exprs[k]])) \/ Do([op |-> "xnew", z |-> z])
     ELSE \E z \in {RandomElement(R)} : \E a \in {RandomElement(R)} : \E b \in {RandomElement(R)} :
          \E k \in {RandomElement(1..Len(Exprs))} : \E t \in {RandomElement(1..Len(TermPool))} :
          \/ Do([op |-> "xlet", z |-> z, e |-> Exprs[k]])
          \/ Do([op |-> "xcopy", z |-> z, a |-> a])
          \/ Do([op |-> "xneg", z |-> z, a |-> a])
          \/ Do([op |-> "xadj", z |-> z, a |-> a])
          \/ Adjoint /\ (Do([op |-> "xadj", z |-> z, a |-> b]) \/ Do([op |-> "xadj", z |-> a, a |-> z]))
          \/ Do([op |-> "xadd", z |-> z, a |-> a, b |-> b])
          \/ Do([op |-> "xsub", z |-> z, a |-> a, b |-> b])
          \/ Do([op |-> "xmul", z |-> z, a |-> a, b |-> b])
          \/ Do([op |-> "xmul", z |-> z, a |-> b, b |-> a])
          \/ \E c \in {RandomElement(Scalars)} : Do([op |-> "xscale", z |-> z, a |-> a, c |-> c])
          \/ \E h \in {RandomElement({"pair", "term", "sym"})} : Do([op |-> "xiadd", z |-> z, t |-> TermPool[t], how |-> h])
          \/ \E h \in {RandomElement({"pair", "term", "sym"})} : Do([op |-> "xiadd", z |-> a, t |-> TermPool[t], how |-> h])
          \/ \E h \in {RandomElement({"+", "-"})} : Do([op |-> "xiaddx", z |-> z, a |-> a, how |-> h])
          \/ Do([op |-> "xeq", a |-> a, b |-> b])
          \/ Do([op |-> "xlen", a |-> a])
          \/ /\ Small(g[a], 100, 12, 10) /\ Small(g[b], 100, 12, 10)
             /\ Do([op |-> "xdot", a |-> a, b |-> b])
          \/ Small(g[a], 100, 12, 10) /\ Do([op |-> "xnorm", a |-> a])
=============================================================================
