---------------------------- MODULE TraceOpAlg ----------------------------
(***************************************************************************)
(* Traces of operator-expression registers.  State: g, the registers; w,   *)
(* what every register was before it was canonicalized.  A contraction of  *)
(* a register must have the value of both.                                 *)
(***************************************************************************)
EXTENDS OpAlgebra, Engine, TraceBase
B == INSTANCE BigNum
Start(t) == [g |-> <<>>, w |-> <<>>]
GoodDump(sp, d, g) == /\ DOMAIN d = DOMAIN g
                      /\ \A n \in DOMAIN g : GoodOpExpr(sp, d[n]) /\ ObsOpExpr(sp, d[n]) = g[n]
(* the expressions as contracted *)
AsQuestion(f) == LET ks == SetToSeq(DOMAIN f) IN [i \in 1..Len(ks) |-> <<ks[i], f[ks[i]]>>]

Canonicalized(sp, s, e) ==
  LET z == e.z
      h == ObsOpExpr(sp, e.r.g[z])
      g2 == [s.g EXCEPT ![z] = h]
  IN If(/\ e.r.ok
        /\ GoodDump(sp, e.r.g, g2)
        /\ SameOpValue(s.g[z], h) /\ Rearranged(s.g[z], h), [s EXCEPT !.g = g2])
Contracted(sp, s, e) ==
  If(/\ e.r.ok /\ GoodDump(sp, e.r.g, s.g)
     /\ WellFormed(e.r.v)
     /\ \A f \in {s.g[e.a], s.w[e.a]} :
          Value(sp, AsNormal(e.r.v)) = WickValue(sp, AsQuestion(f), ROne, DefaultMaxCumulant, e.lo, e.hi), s)

(* The series of two different operators u, v to order n, term by term:    *)
(* the terms with k commutators are v^j u v^(k-j) with the coefficients    *)
(* (-1)^j / (j! (k-j)!).  MCOpAlg.tla has this from the nested commutators.*)
NatFact(n) == FoldLeft(LAMBDA acc, k : B!NMul(acc, B!OfInt(k)), <<1>>, [k \in 1..n |-> k])
BchDeep(sp, s, e) ==
  LET n == e.n
      fact == TLCEval([k \in 0..n |-> NatFact(k)])
      Pos(p) == {i \in 1..Len(p) : p[i] = e.u}
      Good(x) == LET p == ObsProd(sp, x.p)
                     k == Len(p) - 1
                     j == (CHOOSE i \in Pos(p) : TRUE) - 1
                 IN /\ \A i \in 1..Len(p) : GoodOp(sp, x.p[i]) /\ p[i] \in {e.u, e.v}
                    /\ Cardinality(Pos(p)) = 1 /\ k <= n
                    /\ x.c.n = B!BInt(IF j % 2 = 0 THEN 1 ELSE -1)
                    /\ x.c.d = B!BNat(B!NMul(fact[j], fact[k - j]))
  IN If(/\ \A i \in 1..Len(e.r) : Good(e.r[i])
        /\ Len(e.r) = ((n + 1) * (n + 2)) \div 2
        /\ Cardinality({ObsProd(sp, e.r[i].p) : i \in 1..Len(e.r)}) = Len(e.r), s)

(* calls that must be refused *)
GoodCounts(sp, c) == Len(c) = Len(sp) /\ \A i \in 1..Len(c) : c[i] >= 0
Refused(sp, e) ==
  CASE e.op = "diagop" -> BadLegs(sp, e.legs)
    [] e.op = "operator" -> Len(sp) > MaxSpaces \/ ~GoodCounts(sp, e.c) \/ ~GoodCounts(sp, e.a)
    [] e.op = "ofact" -> Len(sp) > MaxSpaces
    [] e.op \in {"opexprs", "opexprs_d"} -> \E i \in 1..Len(e.legs) : \E j \in 1..Len(e.legs[i]) : e.legs[i][j][2] < 0
    [] OTHER -> FALSE

Step(sp, s, e) ==
  IF Refused(sp, e) THEN If(e.x = 1, s)
  ELSE IF e.x # 0 THEN No
  ELSE CASE e.op = "ocanon" -> Canonicalized(sp, s, e)
         [] e.op = "ocontract" -> Contracted(sp, s, e)
         [] e.op \in {"diagop", "operator"} -> If(GoodOp(sp, e.r) /\ ObsOp(sp, e.r) = OpOf(sp, e.l, e.legs), s)
         [] e.op \in {"opexprs", "opexprs_d"} ->
              If(/\ WellFormed(e.r)
                 /\ \A i \in 1..Len(e.r) : \A k \in 1..Len(e.r[i].t) : e.r[i].t[k].y = IF e.op = "opexprs" THEN e.y ELSE "a"
                 /\ ObsExpr(e.r) = OperatorExprOf(sp, e.l, e.legs, e.n, IF e.op = "opexprs" THEN e.c ELSE ROne), s)
         [] e.op = "bchdeep" -> BchDeep(sp, s, e)
         [] e.op = "ofact" -> (* one over the product of the factorials *)
              LET f == FoldLeft(LAMBDA acc, n : FoldLeft(LAMBDA a2, k : B!NMul(a2, B!OfInt(k)), acc, [k \in 1..n |-> k]), <<1>>, e.c \o e.a)
              IN If(e.r.n = B!BOne /\ e.r.d = B!BNat(f), s)
         [] e.op = "expand" ->
              If(/\ WellFormed(e.r)
                 /\ \A i \in 1..Len(e.r) : \A k \in 1..Len(e.r[i].t) : e.r[i].t[k].y = "a"
                 /\ Value(sp, AsNormal(e.r)) =
                      WickValue(sp, << << <<[l |-> "T", c |-> e.c, a |-> e.a]>>, ROne>> >>, ROne, 1, 0, 100), s)
         [] OTHER ->
              LET r == TLCEval(OEffect(sp, s.g, e))
              IN If(/\ e.r.ok = r.ok
                    /\ GoodDump(sp, e.r.g, r.g)
                    /\ r.ok => e.r.v = r.v,
                    [g |-> r.g, w |-> IF "z" \in DOMAIN e /\ r.ok THEN OPut(s.w, e.z, r.g[e.z]) ELSE s.w])
Init == TInit(Start)
Next == TNext(Step)
=============================================================================
