------------------------------ MODULE MCCumulant ------------------------------
(***************************************************************************)
(* The conventions of the generalized Wick theorem against matrices.       *)
(*                                                                         *)
(* A state Psi of two particles (or of one or two, in superposition of     *)
(* determinants) on four modes fixes the densities, and with them the hole *)
(* densities and the cumulants: a cumulant is what remains of the          *)
(* expectation value of creators followed by annihilators after all        *)
(* products of smaller cumulants.  A normal-ordered string is what remains *)
(* of the string after all contractions within it.  A behaviour builds two *)
(* or three strings leg by leg; in every state                             *)
(*  Vacuum: the expectation value of each normal-ordered string is zero;   *)
(*  Theorem: the product of the normal-ordered strings, as a matrix on     *)
(*     Fock space, is the sum over all contractions between different      *)
(*     strings, with the labels (gamma1, eta1, lambda_k), index places and *)
(*     signs that WickOracle gives them, times the normal-ordered rest.    *)
(***************************************************************************)
EXTENDS Fock, WickOracle
CONSTANTS State, MaxStrings, MaxLegs, MaxCre
VARIABLES strs
M == 4
Modes == 1..M
SP == <<[l |-> "a", f |-> "f", y |-> "g"]>>
(* determinant -> amplitude *)
Psi == CASE State = 1 -> ({1,2} :> 2) @@ ({3,4} :> 1)
         [] State = 2 -> ({1,2} :> 3) @@ ({1,3} :> -1) @@ ({2,4} :> 2) @@ ({3,4} :> 1)
         [] State = 3 -> ({1,2,3} :> 1) @@ ({1,2,4} :> 1) @@ ({2,3,4} :> -2)
         [] State = 4 -> ({1,2} :> 1)
Norm == FoldSet(LAMBDA D, acc : acc + Psi[D] * Psi[D], 0, DOMAIN Psi)
Expect(str) == FoldSet(LAMBDA D, acc : LET r == ActString(str, D)
                                       IN IF r[1] = 0 \/ r[2] \notin DOMAIN Psi THEN acc
                                          ELSE RAdd(acc, Rat(r[1] * Psi[r[2]] * Psi[D], Norm)), RZero, DOMAIN Psi)
CreModes(c) == Map(c, LAMBDA m : <<1, m>>)
AnnModes(a) == Map(a, LAMBDA m : <<0, m>>)

(* balanced blocks of positions of a string that hold its position i, i    *)
(* the first free one; own: only blocks within one string are wanted       *)
BlocksOf(str, own, i, F) ==
  {P \in {Q \cup {i} : Q \in SUBSET (F \ {i})} :
     /\ 2 * Cardinality({j \in P : str[j][1] = 1}) = Cardinality(P)
     /\ own = <<>> \/ Cardinality({own[j] : j \in P}) > 1}
RECURSIVE AllSets(_,_,_,_)
AllSets(str, own, i, F) ==
  IF i > Len(str) THEN {<<>>}
  ELSE IF i \notin F THEN AllSets(str, own, i + 1, F)
  ELSE AllSets(str, own, i + 1, F \ {i})
       \cup UNION {{<<P>> \o r : r \in AllSets(str, own, i + 1, F \ P)} : P \in BlocksOf(str, own, i, F)}
Cres(str, P) == SelectSeq([j \in 1..Len(str) |-> j], LAMBDA j : j \in P /\ str[j][1] = 1)
Anns(str, P) == SelectSeq([j \in 1..Len(str) |-> j], LAMBDA j : j \in P /\ str[j][1] = 0)
IsEta(str, P) == Cardinality(P) = 2 /\ Anns(str, P)[1] < Cres(str, P)[1]
BlockSeq(str, P) == IF IsEta(str, P) THEN Anns(str, P) \o Cres(str, P) ELSE Cres(str, P) \o Anns(str, P)
RestOf(str, bl) == SelectSeq([j \in 1..Len(str) |-> j], LAMBDA j : ~\E q \in 1..Len(bl) : j \in bl[q])
SignOf(str, bl) == ParitySign(Flat(Map(bl, LAMBDA P : BlockSeq(str, P))) \o RestOf(str, bl))

RECURSIVE Lam(_,_)
(* cumulant of the string creators c then annihilators a *)
Lam(c, a) ==
  LET str == CreModes(c) \o AnnModes(a)
      n == Len(str)
      other == {bl \in AllSets(str, <<>>, 1, 1..n) : Len(bl) > 1 /\ RestOf(str, bl) = <<>>}
  IN RAdd(Expect(str),
          RNeg(FoldSet(LAMBDA bl, acc :
             RAdd(acc, FoldLeft(LAMBDA v, P : IF v[1] = 0 THEN v ELSE RMul(v, Lam(Map(Cres(str, P), LAMBDA j : str[j][2]), Map(Anns(str, P), LAMBDA j : str[j][2]))),
                                RInt(SignOf(str, bl)), bl)), RZero, other)))
(* the tensors: upper the creators, lower the annihilators reversed *)
KSeqs(k) == {s \in [1..k -> Modes] : \A i, j \in 1..k : i < j => s[i] # s[j]}
TabG == [p \in Modes, q \in Modes |-> Lam(<<p>>, <<q>>)]
TabE == [p \in Modes, q \in Modes |-> RAdd(RInt(IF p = q THEN 1 ELSE 0), RNeg(Lam(<<p>>, <<q>>)))]
(* higher ones once for every pair of sets, the rest by antisymmetry; with *)
(* a repeated mode the expectation value of the string is zero, and the    *)
(* cumulant is antisymmetric: zero                                         *)
Tab2 == [p \in kSubset(2, Modes), q \in kSubset(2, Modes) |-> Lam(Asc(p), Rev(Asc(q)))]
Tab3 == [p \in kSubset(3, Modes), q \in kSubset(3, Modes) |-> Lam(Asc(p), Rev(Asc(q)))]
ASSUME TLCSet(10, TLCEval(TabG)) /\ TLCSet(11, TLCEval(TabE)) /\ TLCSet(12, TLCEval(Tab2)) /\ TLCSet(13, TLCEval(Tab3))
ASSUME /\ \E p, q \in Modes : TLCGet(10)[p, q][1] # 0
       /\ State \in {1, 2} => \E p, q \in kSubset(2, Modes) : TLCGet(12)[p, q][1] # 0
CumVal(u, d) ==  (* value of the tensor with these upper and lower modes *)
  LET k == Len(u)
  IN IF Cardinality(Range1(u)) < k \/ Cardinality(Range1(d)) < k THEN RZero
     ELSE LET t == CASE k = 1 -> TLCGet(10)[u[1], d[1]]
                     [] k = 2 -> TLCGet(12)[Range1(u), Range1(d)]
                     [] k = 3 -> TLCGet(13)[Range1(u), Range1(d)]
                     [] k > 3 -> Lam(Asc(Range1(u)), Rev(Asc(Range1(d))))
          IN RMul(RInt(ParitySign(u) * ParitySign(d)), t)
Val(str, P) ==
  LET c == Map(Cres(str, P), LAMBDA j : str[j][2])
      a == Map(Anns(str, P), LAMBDA j : str[j][2])
  IN IF IsEta(str, P) THEN TLCGet(11)[c[1], a[1]] ELSE CumVal(c, Rev(a))

(* ------------------------------- matrices ------------------------------ *)
Basis == SUBSET Modes
Mat(str) == [S \in Basis |-> LET r == ActString(str, S) IN IF r[1] = 0 THEN Empty ELSE (r[2] :> RInt(r[1]))]
MScale(f, c) == [S \in Basis |-> LScale(f[S], c)]
MAdd(f, g) == [S \in Basis |-> LPlus(f[S], g[S])]
MZero == [S \in Basis |-> Empty]
MMul(f, g) == [S \in Basis |-> FoldSet(LAMBDA T, acc : LPlus(acc, LScale(f[T], g[S][T])), Empty, DOMAIN g[S])]
SetVal(str, bl) == FoldLeft(LAMBDA v, P : IF v[1] = 0 THEN v ELSE RMul(v, Val(str, P)), RInt(SignOf(str, bl)), bl)
(* vacuum order of a string inside of braces *)
CreFirst(str) == LET N == Len(str) IN Cres(str, 1..N) \o Anns(str, 1..N)
RECURSIVE GNO(_)
(* the matrix of a normal-ordered string that is in vacuum order *)
GNO(str) ==
  FoldSet(LAMBDA bl, acc :
            LET v == SetVal(str, bl)
            IN IF v[1] = 0 THEN acc ELSE MAdd(acc, MScale(GNO(Map(RestOf(str, bl), LAMBDA j : str[j])), RNeg(v))),
          Mat(str), AllSets(str, <<>>, 1, 1..Len(str)) \ {<<>>})
Braces(str) == LET ord == CreFirst(str) IN MScale(GNO(Map(ord, LAMBDA j : str[j])), RInt(ParitySign(ord)))

Product(ss) == FoldLeft(LAMBDA acc, s : MMul(acc, GNO(s)), Mat(<<>>), ss)
Expansion(ss) ==
  LET str == Flat(ss)
      own == Flat([k \in 1..Len(ss) |-> [j \in 1..Len(ss[k]) |-> k]])
  IN FoldSet(LAMBDA bl, acc :
               LET v == TLCEval(SetVal(str, bl))
               IN IF v[1] = 0 THEN acc
                  ELSE LET rest == Map(RestOf(str, bl), LAMBDA j : str[j]) IN MAdd(acc, MScale(Braces(rest), v)),
             MZero, AllSets(str, own, 1, 1..Len(str)))
MeanValue(f) == FoldSet(LAMBDA D, acc : FoldSet(LAMBDA T, a2 : IF T \in DOMAIN Psi THEN RAdd(a2, RMul(f[D][T], Rat(Psi[T] * Psi[D], Norm))) ELSE a2,
                                               acc, DOMAIN f[D]), RZero, DOMAIN Psi)

(* the block labels, index places and signs are those of WickOracle *)
SameAsOracle ==
  LET ss == strs
      str == Flat(ss)
      own == Flat([k \in 1..Len(ss) |-> [j \in 1..Len(ss[k]) |-> k]])
      ops == [k \in 1..Len(ss) |-> [l |-> "A", c |-> <<Len(SelectSeq(ss[k], LAMBDA x : x[1] = 1))>>, a |-> <<Len(SelectSeq(ss[k], LAMBDA x : x[1] = 0))>>]]
      legs == Legs(SP, ops)
  IN \A bl \in AllSets(str, own, 1, 1..Len(str)) :
       LET tm == ContractionTerm(SP, ops, legs, Map(bl, LAMBDA P : [k |-> IF IsEta(str, P) THEN "e" ELSE IF Cardinality(P) = 2 THEN "g" ELSE "l", p |-> P]))
           cums == SubSeq(tm.t, Len(ops) + 1, Len(tm.t))
       IN /\ tm.c = RInt(SignOf(str, bl))
          /\ \A k \in 1..Len(bl) :
               /\ cums[k].l = (IF IsEta(str, bl[k]) THEN "eta1" ELSE IF Cardinality(bl[k]) = 2 THEN "gamma1" ELSE "lambda" \o ToString(Cardinality(bl[k]) \div 2))
               /\ Map(cums[k].u, LAMBDA x : x[2]) = Cres(str, bl[k])
               /\ Map(cums[k].d, LAMBDA x : x[2]) = Rev(Anns(str, bl[k]))

Legal(s) == (* creators rising, then annihilators falling *)
  \A j \in 1..(Len(s) - 1) : \/ s[j][1] = 1 /\ s[j+1][1] = 1 /\ s[j][2] < s[j+1][2]
                             \/ s[j][1] = 1 /\ s[j+1][1] = 0
                             \/ s[j][1] = 0 /\ s[j+1][1] = 0 /\ s[j][2] > s[j+1][2]
CountOf(s, b) == Len(SelectSeq(s, LAMBDA x : x[1] = b))
Init == strs = <<>>
Next ==
  /\ Len(Flat(strs)) < MaxLegs
  /\ \E b \in {0, 1}, m \in Modes :
       \/ /\ Len(strs) < MaxStrings
          /\ strs' = Append(strs, << <<b, m>> >>)
       \/ /\ strs # <<>>
          /\ LET s == Append(strs[Len(strs)], <<b, m>>)
             IN /\ Legal(s) /\ CountOf(s, b) <= MaxCre
                /\ strs' = [strs EXCEPT ![Len(strs)] = s]
Vacuum == strs # <<>> => MeanValue(GNO(strs[Len(strs)]))[1] = 0
Theorem == strs # <<>> => Product(strs) = Expansion(strs)
=============================================================================
