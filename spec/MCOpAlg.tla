------------------------------- MODULE MCOpAlg -------------------------------
(***************************************************************************)
(* Operator expressions.  A behaviour starts from a product of operators   *)
(* and exchanges neighbours that have no possible contraction with each    *)
(* other, with a sign when both have an odd number of legs.                *)
(*  Form:     every product of a class has the same least form and the     *)
(*            sign follows the exchanges; products without value vanish    *)
(*  Contract: the exchanges keep the value of the contraction              *)
(*  Needed:   an exchange of two neighbours with a possible contraction    *)
(*            changes it (so that no larger class would do), unless the    *)
(*            two are the same operator                                    *)
(* Once, over pairs and triples of small expressions (Series):             *)
(*    commutators and the series against their explicit sums               *)
(***************************************************************************)
EXTENDS OpAlgebra, Engine
CONSTANTS MaxOps, MaxLegs
VARIABLES p, p0, sg
SP == <<[l |-> "o", f |-> "f", y |-> "o"], [l |-> "v", f |-> "f", y |-> "u"]>>
Cnt == {<<0,0>>, <<1,0>>, <<0,1>>, <<1,1>>}
Total(o) == SeqSum(o.c) + SeqSum(o.a)
OpSet == {o \in {[l |-> l, c |-> c, a |-> a] : l \in {"A", "B"}, c \in Cnt, a \in Cnt} : Total(o) \in 1..3}
LegsOf(q) == SeqSum(Map(q, Total))
Starts == {q \in UNION {[1..k -> {o \in OpSet : Total(o) <= 5 - k}] : k \in 2..MaxOps} : LegsOf(q) <= MaxLegs /\ q[1].l = "A"}
Init == p \in Starts /\ p0 = p /\ sg = 1
Exch(s, i) == [s EXCEPT ![i] = s[i+1], ![i+1] = s[i]]
Next == /\ p0' = p0
        /\ \E i \in 1..(Len(p) - 1) : /\ Independent(p[i], p[i+1])
                                      /\ p' = Exch(p, i)
                                      /\ sg' = IF Odd(p[i]) /\ Odd(p[i+1]) THEN -sg ELSE sg
Rank(q) == LET ks == SetToSeq(Range1(q)) IN [o \in Range1(q) |-> CHOOSE i \in 1..Len(ks) : ks[i] = o]
Form == /\ ZeroProd(p) = ZeroProd(p0)
        /\ ~ZeroProd(p) => LET r == Rank(p0)  a == LeastForm(p0, r)  b == LeastForm(p, r) IN a.p = b.p /\ b.s * sg = a.s
WV(q) == WickValue(SP, << <<q, ROne>> >>, ROne, 100, 0, 100)
Contract == /\ WV(p) = LScale(WV(p0), RInt(sg))
            /\ ZeroProd(p) => WV(p) = Empty
Needed == p = p0 => \A i \in 1..(Len(p) - 1) :
   (~Independent(p[i], p[i+1]) /\ p[i] # p[i+1]) =>
      LET w == Exch(p, i) IN WV(p) # Empty => (WV(w) # WV(p) /\ WV(w) # LNeg(WV(p)))

(* ------------------------------ the series ------------------------------ *)
X(l) == <<[l |-> l, c |-> <<1,0>>, a |-> <<0,1>>]>>
E1 == X("A") :> ROne
E2 == (X("B") :> <<2,1>>) @@ (X("A") :> <<1,3>>)
E3 == X("C") :> <<-1,2>>
Pow(f, k) == FoldLeft(LAMBDA acc, i : OMul(acc, f), (<<>> :> ROne), [i \in 1..k |-> i])
Explicit(f, h, n) == \* SUM_k SUM_j (-1)^j / (j! (k-j)!) h^j f h^(k-j)
  FoldLeft(LAMBDA acc, k : FoldLeft(LAMBDA a2, j :
      LPlus(a2, LScale(OMul(OMul(Pow(h, j), f), Pow(h, k - j)), Rat(IF j % 2 = 0 THEN 1 ELSE -1, Fact(j) * Fact(k - j)))),
      acc, [j \in 1..(k + 1) |-> j - 1]), Empty, [k \in 1..(n + 1) |-> k - 1])
Series ==
  /\ \A f, h \in {E1, E2, E3} :
       /\ Comm(f, h) = LNeg(Comm(h, f)) /\ Comm(f, f) = Empty
       /\ OAdj(OAdj(f)) = f /\ OAdj(OMul(f, h)) = OMul(OAdj(h), OAdj(f)) /\ OAdj(Comm(f, h)) = Comm(OAdj(h), OAdj(f))
       /\ \A n \in 0..4 : BCH(f, h, n) = Explicit(f, h, n)
       /\ CommList(<<f, h>>) = Comm(f, h)
  /\ \A f, h, k \in {E1, E2, E3} :
       /\ LPlus(LPlus(Comm(Comm(f, h), k), Comm(Comm(h, k), f)), Comm(Comm(k, f), h)) = Empty
       /\ CommList(<<f, h, k>>) = Comm(Comm(f, h), k)
ASSUME Series
=============================================================================
