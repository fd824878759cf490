----------------------------- MODULE GenOpAlg -----------------------------
(***************************************************************************)
(* Histories of operator-expression registers, generated from the          *)
(* specification.  The pool (constructor calls) comes from a file.         *)
(***************************************************************************)
EXTENDS OpAlgebra, Json, IOUtils
CONSTANTS Depth, Mode
VARIABLES hist, g
Pool == ndJsonDeserialize(IOEnv.POOL)
Sp == Pool[1].sp
Make == Pool[1].make
Names == {"a", "b", "c"}
Scalars == {<<1,1>>, <<-1,1>>, <<0,1>>, <<2,1>>, <<1,2>>, <<-2,3>>, <<3,2>>}
Small(f, n, len) == /\ Cardinality(DOMAIN f) <= n
                    /\ \A k \in DOMAIN f : Abs(f[k][1]) <= 20000 /\ f[k][2] <= 800 /\ Len(k) <= len
Legs(p) == SeqSum(Map(p, OpRank))
Init == hist = <<>> /\ g = <<>>
Add(a, h) == /\ g' = h
             /\ hist' = Append(hist, a)
             /\ Len(hist) + 1 = Depth => PrintT(<<"HIST", ToJson(hist')>>)
Do(a) == LET r == TLCEval(OEffect(Sp, g, a))
         IN /\ \A n \in DOMAIN r.g : Small(r.g[n], 40, 5)
            /\ Add(a, r.g)
R == DOMAIN g
Card(f) == Cardinality(DOMAIN f)
LenOf(f) == Max({0} \cup {Len(p) : p \in DOMAIN f})
RECURSIVE Pow(_,_)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
(* the size of products, commutators and series, known beforehand *)
MulFits(f, h) == Card(f) * Card(h) <= 40 /\ LenOf(f) + LenOf(h) <= 5
BchFits(f, h, n) == n = 0 \/ (Card(f) * Pow(2 * Card(h), n) <= 60 /\ LenOf(f) + n * LenOf(h) <= 5)
CommFits(args) == FoldLeft(LAMBDA acc, n : acc * 2 * Card(g[n]), 1, args) <= 100 /\ FoldLeft(LAMBDA acc, n : acc + LenOf(g[n]), 0, args) <= 5
With(k, z) == [f \in DOMAIN Make[k] \cup {"z"} |-> IF f = "z" THEN z ELSE Make[k][f]]
Arith == Mode \in {"arith", "adj"}
Next ==
  /\ Len(hist) < Depth
  /\ IF Cardinality(R) < 3
     THEN LET z == CHOOSE z \in Names : z \notin R
          IN (\E k \in 1..Len(Make) : Do(With(k, z))) \/ Do([op |-> "onew", z |-> z])
     ELSE \E z \in {RandomElement(R)} : \E a \in {RandomElement(R)} : \E b \in {RandomElement(R)} :
          \E k \in {RandomElement(1..Len(Make))} : \E c \in {RandomElement(Scalars)} :
          \/ Do(With(k, z))
          \/ Do([op |-> "ocopy", z |-> z, a |-> a])
          \/ Do([op |-> "oadd", z |-> z, a |-> a, b |-> b])
          \/ Do([op |-> "osub", z |-> z, a |-> a, b |-> b])
          \/ MulFits(g[a], g[b]) /\ (Do([op |-> "omul", z |-> z, a |-> a, b |-> b]) \/ Do([op |-> "omul", z |-> z, a |-> b, b |-> a]))
          \/ Do([op |-> "oscale", z |-> z, a |-> a, c |-> c])
          \/ Do([op |-> "oadd2", z |-> z, a |-> a, c |-> c])
          \/ Do([op |-> "osize", a |-> a])
          \/ Do([op |-> "oeq", a |-> a, b |-> b])
          \/ Arith /\ \E n \in {RandomElement(0..4)} :
                        \/ \E args \in {[i \in 1..n |-> RandomElement(R)]} : CommFits(args) /\ Do([op |-> "ocomm", z |-> z, args |-> args])
                        \/ BchFits(g[a], g[b], n) /\ Do([op |-> "obch", z |-> z, a |-> a, b |-> b, n |-> n])
                        \/ BchFits(g[b], g[z], n) /\ Do([op |-> "obch", z |-> a, a |-> b, b |-> z, n |-> n])
          \/ Do([op |-> "oadj", z |-> z, a |-> a])
          \/ Mode = "adj" /\ (Do([op |-> "oadj", z |-> z, a |-> b]) \/ Do([op |-> "oadj", z |-> b, a |-> b]))
          \/ Mode = "canon" /\ \/ Add([op |-> "ocanon", z |-> z], g)
                               \/ Add([op |-> "ocanon", z |-> a], g)
                               \/ /\ Cardinality(DOMAIN g[a]) <= 4 /\ g[a] # Empty
                                  /\ \A p \in DOMAIN g[a] : Legs(p) <= 8 /\ \A i \in 1..Len(p) : OpRank(p[i]) > 0
                                  /\ Add([op |-> "ocontract", a |-> a, lo |-> 0, hi |-> IF Len(hist) % 2 = 0 THEN 100 ELSE 2], g)
=============================================================================
