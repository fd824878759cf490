-------------------------------- MODULE MCWick --------------------------------
(***************************************************************************)
(* The Wick expansion of the specification against first principles.       *)
(*                                                                         *)
(* A behaviour builds a product operator by operator.  In every state      *)
(*  Labelled: the sum over all labelled contractions (every set of         *)
(*     disjoint allowed blocks of leg positions, with the prefactor of the *)
(*     operators) has the value of the expansion by multiplicities;        *)
(*  Windows: the expansions of the windows of one rank add up to the full  *)
(*     one, and the terms of a window are those of its ranks;              *)
(*  AsMap: over occupied and unoccupied spaces the expansion is the same   *)
(*     linear map on Fock space as the product of the operators.           *)
(***************************************************************************)
EXTENDS Fock, WickOracle
CONSTANTS Reg, MaxOps, MaxLegs, MaxPerOp, MaxFock
VARIABLE ops

SP == CASE Reg = 1 -> <<[l |-> "o", f |-> "f", y |-> "o"], [l |-> "v", f |-> "f", y |-> "u"]>>
        [] Reg = 2 -> <<[l |-> "v", f |-> "f", y |-> "u"], [l |-> "o", f |-> "f", y |-> "o"]>>
        [] Reg = 3 -> <<[l |-> "a", f |-> "f", y |-> "g"]>>
        [] Reg = 4 -> <<[l |-> "o", f |-> "f", y |-> "o"], [l |-> "a", f |-> "f", y |-> "g"]>>
        [] Reg = 5 -> <<[l |-> "g", f |-> "f", y |-> "g"], [l |-> "a", f |-> "f", y |-> "g"]>>
NS == Len(SP)
Dims == IF Reg <= 2 THEN <<2, 2>> ELSE <<>>
Counts == UNION {[1..NS -> 0..2]}
Total(o) == SeqSum(o.c) + SeqSum(o.a)
OpSet == {o \in {[l |-> l, c |-> c, a |-> a] : l \in {"A", "B"}, c \in Counts, a \in Counts} : Total(o) \in 1..MaxPerOp}
LegsOf(p) == SeqSum([i \in 1..Len(p) |-> Total(p[i])])

Init == ops = <<>>
Next == /\ Len(ops) < MaxOps
        /\ \E o \in OpSet : /\ LegsOf(ops) + Total(o) <= MaxLegs
                            /\ (ops # <<>> /\ o.l = "A") => ops[1].l = "A"  (* at least the first label is A *)
                            /\ ops = <<>> => o.l = "A"
                            /\ ops' = Append(ops, o)

(* ------------------------- labelled contractions ------------------------ *)
(* the allowed blocks whose first position is i, others in F (all > i) *)
BlocksAt(legs, i, F) ==
  LET s == legs[i][3]
      y == SP[s].y
      same == {j \in F : legs[j][3] = s}
  IN CASE y = "o" -> IF legs[i][2] = 1 THEN {[k |-> "o", p |-> {i, j}] : j \in {q \in same : legs[q][2] = 0 /\ legs[q][1] # legs[i][1]}} ELSE {}
       [] y = "u" -> IF legs[i][2] = 0 THEN {[k |-> "u", p |-> {i, j}] : j \in {q \in same : legs[q][2] = 1 /\ legs[q][1] # legs[i][1]}} ELSE {}
       [] y = "g" -> {[k |-> IF Cardinality(P) > 2 THEN "l" ELSE IF legs[i][2] = 1 THEN "g" ELSE "e", p |-> P] :
                        P \in {Q \cup {i} : Q \in SUBSET same} \cap
                              {P \in SUBSET (same \cup {i}) : /\ Cardinality({j \in P : legs[j][2] = 1}) * 2 = Cardinality(P)
                                                              /\ Cardinality({legs[j][1] : j \in P}) > 1}}
RECURSIVE Sets(_,_,_)
(* all sequences of disjoint blocks over the positions F, from position i on *)
Sets(legs, i, F) ==
  IF i > Len(legs) THEN {<<>>}
  ELSE IF i \notin F THEN Sets(legs, i + 1, F)
  ELSE Sets(legs, i + 1, F \ {i})
       \cup UNION {{<<b>> \o r : r \in Sets(legs, i + 1, F \ b.p)} : b \in BlocksAt(legs, i, F \ {i})}
Prefactor(p) == Rat(1, FoldSet(LAMBDA x, acc : acc * Fact(LegCount(p, x)), 1, LegKinds(SP, p)))
Sum(p) ==
  LET legs == TLCEval(Legs(SP, p))
      all == SetToSeq(Sets(legs, 1, 1..Len(legs)))
  IN Value(SP, Map(all, LAMBDA bl : [ContractionTerm(SP, p, legs, bl) EXCEPT !.c = RMul(@, Prefactor(p))]))
Whole(p) == WickValue(SP, << <<p, ROne>> >>, ROne, 100, 0, 100)

Labelled == Sum(ops) = Whole(ops)
Windows == LET N == LegsOf(ops)
           IN FoldLeft(LAMBDA acc, r : LPlus(acc, WickValue(SP, << <<ops, ROne>> >>, ROne, 100, r - 1, r - 1)), Empty, [r \in 1..(N + 1) |-> r])
                = Whole(ops)
Terms0(p) == Map(SetToSeq(WickTerms(SP, p, ROne, 100, 0, 100)), LAMBDA w : w[2])
AsMap == Dims # <<>> /\ LegsOf(ops) <= MaxFock /\ ops # <<>> =>
           ProductMap(SP, Dims, <<"A", "B">>, ops, ROne) = ExprMap(SP, Dims, <<"A", "B">>, Terms0(ops))
=============================================================================
