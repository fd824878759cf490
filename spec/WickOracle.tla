----------------------------- MODULE WickOracle -----------------------------
(***************************************************************************)
(* Wick's theorem for a product of normal-ordered operators.               *)
(*                                                                         *)
(* A product is a sequence of operators [l: label, c: creators per space,  *)
(* a: annihilators per space].  The legs stand in the order: operator by   *)
(* operator, creators by increasing space, annihilators by decreasing      *)
(* space.  An elementary contraction is a block: a bag of kinds of legs    *)
(* <<operator, 1 creator / 0 annihilator, space>>.                         *)
(*                                                                         *)
(* A full contraction of the labelled legs is a set of disjoint blocks.    *)
(* All labelled contractions with the same multiplicities m_b of the       *)
(* blocks b have the same value, and there are                             *)
(*     PROD_x (legs of kind x)! /                                          *)
(*       (PROD_b (PROD_x b[x]!)^(m_b) m_b!  PROD_x (uncontracted legs)!)   *)
(* of them; the prefactor of the operators is 1/PROD_x (legs of kind x)!.  *)
(* MCWick.tla checks this count and the signs against the sum over all     *)
(* labelled contractions and against matrices on Fock space.               *)
(***************************************************************************)
EXTENDS Canon

Spaces(sp) == 1..Len(sp)
LegKinds(sp, ops) == {x \in (1..Len(ops)) \X {0,1} \X Spaces(sp) :
                        (IF x[2] = 1 THEN ops[x[1]].c[x[3]] ELSE ops[x[1]].a[x[3]]) > 0}
LegCount(ops, x) == IF x[2] = 1 THEN ops[x[1]].c[x[3]] ELSE ops[x[1]].a[x[3]]

RECURSIVE Vecs(_,_)
(* vectors of naturals v, v[i] <= lim[i], with sum k *)
Vecs(lim, k) ==
  IF Len(lim) = 0 THEN IF k = 0 THEN {<<>>} ELSE {}
  ELSE UNION {{<<v>> \o w : w \in Vecs(Tail(lim), k - v)} : v \in 0..(IF lim[1] < k THEN lim[1] ELSE k)}

BagFun(n, s, cv, av) ==
  LET D == {<<i, 1, s>> : i \in {j \in 1..n : cv[j] > 0}} \cup {<<i, 0, s>> : i \in {j \in 1..n : av[j] > 0}}
  IN [x \in D |-> IF x[2] = 1 THEN cv[x[1]] ELSE av[x[1]]]

(* the elementary contractions allowed by the types of the spaces *)
PairBlocks(sp, ops, s) ==
  {[k |-> IF sp[s].y = "o" THEN "o" ELSE "u",
    b |-> IF sp[s].y = "o" THEN (<<p[1],1,s>> :> 1) @@ (<<p[2],0,s>> :> 1)
                           ELSE (<<p[1],0,s>> :> 1) @@ (<<p[2],1,s>> :> 1)]
     : p \in {q \in (1..Len(ops)) \X (1..Len(ops)) :
               /\ q[1] < q[2]
               /\ IF sp[s].y = "o" THEN ops[q[1]].c[s] > 0 /\ ops[q[2]].a[s] > 0
                                   ELSE ops[q[1]].a[s] > 0 /\ ops[q[2]].c[s] > 0}}
GenBlocks(sp, ops, s, maxcum) ==
  LET n == Len(ops)
      cl == [i \in 1..n |-> ops[i].c[s]]
      al == [i \in 1..n |-> ops[i].a[s]]
      nc == SeqSum(cl)
      na == SeqSum(al)
      top == Min({nc, na, maxcum})
      Two(cv, av) == Cardinality({i \in 1..n : cv[i] + av[i] > 0}) >= 2
      Kind(k, cv, av) == IF k > 1 THEN "l"
                         ELSE IF (CHOOSE i \in 1..n : cv[i] = 1) < (CHOOSE i \in 1..n : av[i] = 1)
                              THEN "g" ELSE "e"
  IN UNION {{[k |-> Kind(k, p[1], p[2]), b |-> BagFun(n, s, p[1], p[2])]
               : p \in {q \in Vecs(cl, k) \X Vecs(al, k) : Two(q[1], q[2])}} : k \in 1..top}
Blocks(sp, ops, maxcum) ==
  UNION {IF sp[s].y = "g" THEN GenBlocks(sp, ops, s, maxcum) ELSE PairBlocks(sp, ops, s) : s \in Spaces(sp)}

(* the legs of the product in order: <<operator, kind, space, index number>> *)
OpLegs(sp, ops, i) ==
  LET ns == Len(sp)
      cre == Flat([s \in 1..ns |-> [j \in 1..ops[i].c[s] |-> <<i, 1, s>>]])
      ann == Flat([s \in 1..ns |-> [j \in 1..ops[i].a[ns + 1 - s] |-> <<i, 0, ns + 1 - s>>]])
  IN cre \o ann
Legs(sp, ops) == Flat([i \in 1..Len(ops) |-> OpLegs(sp, ops, i)])

CumLabel(b, k) == IF b = "g" THEN "gamma1" ELSE IF b = "e" THEN "eta1" ELSE "lambda" \o ToString(k)

(* the term of a set of disjoint blocks, each a set of positions in the    *)
(* leg string; bl: sequence of [k, p: set of positions]                    *)
ContractionTerm(sp, ops, legs, bl) ==
  LET N == Len(legs)
      CreOf(P) == SelectSeq([i \in 1..N |-> i], LAMBDA i : i \in P /\ legs[i][2] = 1)
      AnnOf(P) == SelectSeq([i \in 1..N |-> i], LAMBDA i : i \in P /\ legs[i][2] = 0)
      used == UNION {bl[j].p : j \in 1..Len(bl)}
      rest == SelectSeq([i \in 1..N |-> i], LAMBDA i : i \notin used)
      BlockOrder(b) == IF b.k = "e" \/ b.k = "u" THEN AnnOf(b.p) \o CreOf(b.p) ELSE CreOf(b.p) \o AnnOf(b.p)
      order == Flat([j \in 1..Len(bl) |-> BlockOrder(bl[j])]) \o rest
      sign == ParitySign(order)
      (* contracted pairs of single-reference spaces share one index *)
      owner == [i \in 1..N |-> IF \E j \in 1..Len(bl) : bl[j].k \in {"o","u"} /\ i \in bl[j].p
                               THEN Min((CHOOSE b \in {bl[j] : j \in 1..Len(bl)} : i \in b.p).p) ELSE i]
      idx == [i \in 1..N |-> <<legs[i][3] - 1, owner[i]>>]
      OpTensor(i) == [l |-> ops[i].l, y |-> "a",
                      d |-> Map(CreOf({q \in 1..N : legs[q][1] = i}), LAMBDA q : idx[q]),
                      u |-> Map(Rev(AnnOf({q \in 1..N : legs[q][1] = i})), LAMBDA q : idx[q])]
      cums == SelectSeq(bl, LAMBDA b : b.k \in {"g","e","l"})
      CumTensor(b) == [l |-> CumLabel(b.k, Cardinality(b.p) \div 2), y |-> "a",
                       u |-> Map(CreOf(b.p), LAMBDA q : idx[q]),
                       d |-> Map(Rev(AnnOf(b.p)), LAMBDA q : idx[q])]
  IN [t |-> [i \in 1..Len(ops) |-> OpTensor(i)] \o Map(cums, CumTensor),
      o |-> Map(rest, LAMBDA q : <<legs[q][2], idx[q][1], idx[q][2]>>),
      n |-> TRUE, c |-> RInt(sign)]

(* first free positions for the legs of a block *)
RECURSIVE TakePos(_,_,_)
TakePos(legs, used, want) ==
  (* want: sequence of <<kind, count>> *)
  IF want = <<>> THEN {}
  ELSE LET free == SelectSeq([i \in 1..Len(legs) |-> i], LAMBDA i : legs[i] = want[1][1] /\ i \notin used)
           P == {free[j] : j \in 1..want[1][2]}
       IN P \cup TakePos(legs, used \cup P, Tail(want))

(* representative of a choice: sequence of <<block, multiplicity>> *)
Representative(sp, ops, legs, choice) ==
  LET flat == Flat([i \in 1..Len(choice) |-> [j \in 1..choice[i][2] |-> choice[i][1]]])
      R[i \in 0..Len(flat)] ==
        IF i = 0 THEN [used |-> {}, bl |-> <<>>]
        ELSE LET prev == R[i-1]
                 ks == SetSeq(DOMAIN flat[i].b)
                 P == TakePos(legs, prev.used, [q \in 1..Len(ks) |-> <<ks[q], flat[i].b[ks[q]]>>])
             IN [used |-> prev.used \cup P, bl |-> Append(prev.bl, [k |-> flat[i].k, p |-> P])]
  IN ContractionTerm(sp, ops, legs, R[Len(flat)].bl)

RECURSIVE IPow(_,_)
IPow(x, n) == IF n = 0 THEN 1 ELSE x * IPow(x, n - 1)
BagFact(b) == FoldSet(LAMBDA x, acc : acc * Fact(b[x]), 1, DOMAIN b)

(* 1 / (PROD_b (b!)^m m! PROD rest!) *)
ChoiceWeight(choice, rem) ==
  Rat(1, FoldLeft(LAMBDA acc, ch : acc * IPow(BagFact(ch[1].b), ch[2]) * Fact(ch[2]), 1, choice)
         * BagFact(rem))

RECURSIVE Selections(_,_,_)
(* all <<choice, rem>> : multiplicities for the blocks bs[i..] *)
Selections(bs, i, rem) ==
  IF i > Len(bs) THEN {<< <<>>, rem >>}
  ELSE LET b == bs[i].b
           top == Min({rem[x] \div b[x] : x \in DOMAIN b})
       IN UNION {LET r == [x \in DOMAIN rem |-> IF x \in DOMAIN b THEN rem[x] - m * b[x] ELSE rem[x]]
                 IN IF m = 0 THEN Selections(bs, i + 1, r)
                    ELSE {<< <<<<bs[i], m>>>> \o ch[1], ch[2] >> : ch \in Selections(bs, i + 1, r)}
                 : m \in 0..top}

Remaining(rem) == FoldSet(LAMBDA x, acc : acc + rem[x], 0, DOMAIN rem)

(* the terms of the contraction of one product, as a set of               *)
(* <<choice, term with coefficient>>                                      *)
WickTerms(sp, ops, coef, maxcum, minrank, maxrank) ==
  LET legs == Legs(sp, ops)
      rem0 == [x \in LegKinds(sp, ops) |-> LegCount(ops, x)]
      bs == SetSeq(Blocks(sp, ops, maxcum))
      C == {ch \in Selections(bs, 1, rem0) : Remaining(ch[2]) >= minrank /\ Remaining(ch[2]) <= maxrank}
      T(ch) == LET tm == Representative(sp, ops, legs, ch[1])
               IN [tm EXCEPT !.c = RMul(coef, RMul(tm.c, ChoiceWeight(ch[1], ch[2])))]
  IN {<<ch, T(ch)>> : ch \in C}

(* value of the contraction of an operator expression: sequence of         *)
(* <<product, coefficient>>                                                *)
WickValue(sp, exprs, factor, maxcum, minrank, maxrank) ==
  FoldLeft(LAMBDA acc, p :
             LPlus(acc, Value(sp, Map(SetSeq(WickTerms(sp, p[1], RMul(factor, p[2]), maxcum, minrank, maxrank)),
                                      LAMBDA w : w[2]))),
           Empty, exprs)
=============================================================================
