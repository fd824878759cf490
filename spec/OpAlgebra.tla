----------------------------- MODULE OpAlgebra -----------------------------
(***************************************************************************)
(* Operator expressions as a state machine: registers that hold linear     *)
(* combinations of products of operators.  An operator is                  *)
(* [l: label, c: creators per space, a: annihilators per space].           *)
(***************************************************************************)
EXTENDS Canon

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
(* the operator of a component given as a sequence of legs                 *)
(* <<1 creator / 0 annihilator, space from 0>>                             *)
OpOf(sp, l, legs) == [l |-> l, c |-> [s \in 1..Len(sp) |-> Count(legs, <<1, s-1>>)],
                               a |-> [s \in 1..Len(sp) |-> Count(legs, <<0, s-1>>)]]
OpRank(o) == SeqSum(o.c) + SeqSum(o.a)
OpFactor(o) == Rat(1, FoldLeft(LAMBDA acc, n : acc * Fact(n), 1, o.c \o o.a))
(* the legs as shown: creators by space, annihilators by space backwards *)
OpLegText(o) == LET ns == Len(o.c)
                IN Flat([s \in 1..ns |-> [j \in 1..o.c[s] |-> <<1, s-1>>]])
                   \o Flat([s \in 1..ns |-> [j \in 1..o.a[ns+1-s] |-> <<0, ns-s>>]])
(* an operator as shown is well formed: all its legs in order, the         *)
(* prefactor of its component                                              *)
GoodOp(sp, x) == LET o == OpOf(sp, x.l, x.g) IN x.g = OpLegText(o) /\ x.f = OpFactor(o)
ObsOp(sp, x) == OpOf(sp, x.l, x.g)
ObsProd(sp, p) == Map(p, LAMBDA x : ObsOp(sp, x))
GoodOpExpr(sp, ob) ==
  /\ \A i \in 1..Len(ob) : /\ IsRat(ob[i].c) /\ ob[i].c[1] # 0
                           /\ \A j \in 1..Len(ob[i].p) : GoodOp(sp, ob[i].p[j])
  /\ Cardinality({ObsProd(sp, ob[i].p) : i \in 1..Len(ob)}) = Len(ob)
ObsOpExpr(sp, ob) == LOfSeq([i \in 1..Len(ob) |-> <<ObsProd(sp, ob[i].p), ob[i].c>>])

ProdMul(p, q) == p \o q
OMul(f, g) == LTimes(f, g, ProdMul)
Comm(f, g) == LMinus(OMul(f, g), OMul(g, f))
RECURSIVE CommList(_)
CommList(s) == IF s = <<>> THEN Empty
               ELSE IF Len(s) = 1 THEN s[1] ELSE Comm(CommList(SubSeq(s, 1, Len(s)-1)), s[Len(s)])
RECURSIVE Nested(_,_,_)
(* [...[[f, g], g]..., g], k times *)
Nested(f, g, k) == IF k = 0 THEN f ELSE Comm(Nested(f, g, k-1), g)
BCH(f, g, n) == FoldLeft(LAMBDA acc, k : LPlus(acc, LScale(Nested(f, g, k), Rat(1, Fact(k)))), f, [k \in 1..n |-> k])
OpAdjO(o) == [l |-> o.l, c |-> o.a, a |-> o.c]
ProdAdj(p) == Map(Rev(p), OpAdjO)
OAdj(f) == FoldSet(LAMBDA p, acc : LAdd(acc, ProdAdj(p), f[p]), Empty, DOMAIN f)

(* all multisets of k elements of the ordered sequence ss, as sequences in *)
(* the order of ss                                                         *)
RECURSIVE Multisets(_,_)
Multisets(ss, k) ==
  IF k = 0 THEN {<<>>}
  ELSE IF ss = <<>> THEN {}
  ELSE {<<ss[1]>> \o m : m \in Multisets(ss, k-1)} \cup Multisets(Tail(ss), k)
(* the components of an operator of a rank with creators in the spaces cs  *)
(* and annihilators in the spaces as                                       *)
GenComps(rank, cs, as, diag) ==
  LET asc(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
      C == Multisets(asc(Range1(cs)), rank)
      A == Multisets(asc(Range1(as)), rank)
  IN {p \in C \X A : diag \/ p[1] # p[2]}
CompLegs(p) == Map(p[1], LAMBDA s : <<1, s>>) \o Map(p[2], LAMBDA s : <<0, s>>)

(* component lists: every component once (unique), or merged with the      *)
(* number of its occurrences                                               *)
OpExprOf(sp, l, comps, unique) ==
  LET ops == [i \in 1..Len(comps) |-> <<OpOf(sp, l, comps[i])>>]
  IN IF unique THEN [k \in Range1(ops) |-> ROne]
     ELSE LOfSeq([i \in 1..Len(ops) |-> <<ops[i], ROne>>])

OPut(g, z, f) == [n \in DOMAIN g \cup {z} |-> IF n = z THEN f ELSE g[n]]
ODone(g, z, f) == [ok |-> TRUE, g |-> OPut(g, z, f), v |-> 0]
OSays(g, v) == [ok |-> TRUE, g |-> g, v |-> v]
ORefuses(g) == [ok |-> FALSE, g |-> g, v |-> 0]

(* a label that is not registered; more spaces than operators can span *)
MaxSpaces == 8
BadLegs(sp, legs) == Len(sp) > MaxSpaces \/ \E j \in 1..Len(legs) : legs[j][2] < 0

OEffect(sp, g, a) ==
  CASE a.op = "onew"   -> ODone(g, a.z, Empty)
    [] a.op = "oop"    -> IF (\E i \in 1..Len(a.legs) : BadLegs(sp, a.legs[i])) THEN ORefuses(g)
                          ELSE ODone(g, a.z, OpExprOf(sp, a.l, a.legs, "unique" \in DOMAIN a /\ a.unique))
    [] a.op = "ogen"   -> 
                          LET C == GenComps(a.rank, a.csp, a.asp, IF "diag" \in DOMAIN a THEN a.diag ELSE TRUE)
                          IN IF Len(sp) > MaxSpaces /\ C # {} THEN ORefuses(g)
                             ELSE ODone(g, a.z, [k \in {<<OpOf(sp, a.l, CompLegs(p))>> : p \in C} |-> ROne])
    [] a.op = "oadd"   -> ODone(g, a.z, LPlus(g[a.a], g[a.b]))
    [] a.op = "osub"   -> ODone(g, a.z, LMinus(g[a.a], g[a.b]))
    [] a.op = "omul"   -> ODone(g, a.z, OMul(g[a.a], g[a.b]))
    [] a.op = "oscale" -> ODone(g, a.z, LScale(g[a.a], Rat(a.c[1], a.c[2])))
    [] a.op = "oadd2"  -> ODone(g, a.z, LPlus(g[a.z], LScale(g[a.a], Rat(a.c[1], a.c[2]))))
    [] a.op = "ocomm"  -> ODone(g, a.z, CommList(Map(a.args, LAMBDA n : g[n])))
    [] a.op = "obch"   -> ODone(g, a.z, BCH(g[a.a], g[a.b], a.n))
    [] a.op = "oadj"   -> ODone(g, a.z, OAdj(g[a.a]))
    [] a.op = "ocopy"  -> ODone(g, a.z, g[a.a])
    [] a.op = "oeq"    -> OSays(g, g[a.a] = g[a.b])
    [] a.op = "osize"  -> OSays(g, Cardinality(DOMAIN g[a.a]))
    [] OTHER -> [ok |-> FALSE, g |-> <<>>, v |-> 0]

(* --------------------------------------------------------------------- *)
(* Two operators with no possible contraction with each other exchange,    *)
(* with a sign when both have an odd number of legs.  Products that differ *)
(* by such exchanges form a class; its representative is the least one in  *)
(* the order in which ks lists the operators.                              *)
Independent(a, b) == SeqSum([s \in 1..Len(a.c) |-> a.a[s] * b.c[s] + a.c[s] * b.a[s]]) = 0
Odd(o) == OpRank(o) % 2 = 1
(* i before j for ever: a chain of dependent operators joins them *)
RECURSIVE Blocked(_,_,_)
Blocked(p, i, j) == i < j /\ (~Independent(p[i], p[j]) \/ \E k \in (i+1)..(j-1) : ~Independent(p[i], p[k]) /\ Blocked(p, k, j))
(* two equal odd operators that can meet: zero *)
ZeroProd(p) == \E i, j \in 1..Len(p) : i < j /\ p[i] = p[j] /\ Odd(p[i]) /\ ~Blocked(p, i, j)
RECURSIVE LeastForm(_,_)
LeastForm(p, rank) ==
  IF p = <<>> THEN [s |-> 1, p |-> <<>>]
  ELSE LET front == {i \in 1..Len(p) : \A j \in 1..(i-1) : Independent(p[j], p[i])}
           i == CHOOSE i \in front : \A j \in front : rank[p[i]] < rank[p[j]] \/ (rank[p[i]] = rank[p[j]] /\ i <= j)
           passed == Cardinality({j \in 1..(i-1) : Odd(p[j])})
           sg == IF Odd(p[i]) /\ passed % 2 = 1 THEN -1 ELSE 1
           r == LeastForm(SubSeq(p, 1, i-1) \o SubSeq(p, i+1, Len(p)), rank)
       IN [s |-> sg * r.s, p |-> <<p[i]>> \o r.p]
OpsOf(f) == UNION {Range1(p) : p \in DOMAIN f}
ClassValue(f, rank) ==
  FoldSet(LAMBDA p, acc : IF ZeroProd(p) THEN acc
                          ELSE LET r == LeastForm(p, rank) IN LAdd(acc, r.p, IF r.s = 1 THEN f[p] ELSE RNeg(f[p])),
          Empty, DOMAIN f)
SameOpValue(f, h) ==
  LET ks == SetToSeq(OpsOf(f) \cup OpsOf(h))
      rank == TLCEval([o \in Range1(ks) |-> CHOOSE i \in 1..Len(ks) : ks[i] = o])
  IN ClassValue(f, rank) = ClassValue(h, rank)
(* every product of the result is a rearrangement of one of the input *)
SameBag(p, q) == Len(p) = Len(q) /\ \A x \in Range1(p) \cup Range1(q) : Count(p, x) = Count(q, x)
Rearranged(f, h) == \A p \in DOMAIN h : \E q \in DOMAIN f : SameBag(p, q)

(* ------------------------- operator_expr -------------------------------- *)
(* one term: tensor label with lower indices of the creators and upper     *)
(* indices of the annihilators (in reverse), creators then annihilators;   *)
(* indices of a space are numbered creators up, then annihilators down     *)
OperatorTerm(sp, l, legs, n) ==
  LET N == Len(legs)
      cp == SelectSeq([i \in 1..N |-> i], LAMBDA i : legs[i][1] = 1)
      ap == SelectSeq([i \in 1..N |-> i], LAMBDA i : legs[i][1] = 0)
      Before(q, i) == Cardinality({j \in Range1(q) : j < i /\ legs[j][2] = legs[i][2]})
      After(q, i) == Cardinality({j \in Range1(q) : j > i /\ legs[j][2] = legs[i][2]})
      All(q, i) == Cardinality({j \in Range1(q) : legs[j][2] = legs[i][2]})
      cidx == Map(cp, LAMBDA i : <<legs[i][2], Before(cp, i)>>)
      aidx == Map(ap, LAMBDA i : <<legs[i][2], All(cp, i) + After(ap, i)>>)
  IN [t |-> <<[l |-> l, u |-> Rev(aidx), d |-> cidx]>>,
      o |-> Map(cidx, OpCre) \o Map(aidx, OpAnn), n |-> n /\ N > 0]
OperatorExprOf(sp, l, legss, n, c) == LOfSeq([i \in 1..Len(legss) |-> <<OperatorTerm(sp, l, legss[i], n), c>>])
=============================================================================
