------------------------------- MODULE Canon -------------------------------
(***************************************************************************)
(* The value of a term of an expression whose operator string is read as   *)
(* normal ordered: two terms have the same value up to sign iff one turns  *)
(* into the other by renaming the summed indices (those that appear on a   *)
(* tensor), permuting the indices of an (anti)symmetric tensor, reordering *)
(* the tensors, and (anti)commuting the operators.                         *)
(*                                                                         *)
(* A term is a hypergraph: every tensor contributes a group of upper and a *)
(* group of lower slots, the operators contribute four groups (fermion and *)
(* boson creators and annihilators), and every index is an edge that joins *)
(* the groups in which it appears.  Its class is the bag of edge types,    *)
(* minimal over the permutations of like tensors; the sign is the parity   *)
(* of sorting every antisymmetric group by edge type.                      *)
(***************************************************************************)
EXTENDS Terms

LOCAL TKey(t) == <<t.l, t.y, Len(t.u), Len(t.d)>>

(* all permutations of 1..n as sequences *)
RECURSIVE PermSeqs(_)
PermSeqs(S) == IF S = {} THEN {<<>>}
               ELSE UNION {{<<x>> \o p : p \in PermSeqs(S \ {x})} : x \in S}

(* all ways to number the tensors 1..n such that tensors with the same key *)
(* get consecutive numbers, keys in the order ks                           *)
RECURSIVE Numberings(_,_,_)
Numberings(keys, ks, i) ==
  IF i > Len(ks) THEN {<<>>}
  ELSE LET P == {j \in 1..Len(keys) : keys[j] = ks[i]}
       IN {p \o q : p \in PermSeqs(P), q \in Numberings(keys, ks, i + 1)}

(* the slots of a term: <<index, tensor number (0: operators), kind, antisymmetric>> *)
LOCAL TensorSlots(t, k) ==
  [j \in 1..Len(t.u) |-> <<t.u[j], k, IF t.y = "n" THEN 10 + j ELSE 1, t.y = "a">>] \o
  [j \in 1..Len(t.d) |-> <<t.d[j], k, IF t.y = "n" THEN 24 + j ELSE 2, t.y = "a">>]
LOCAL OpKind(sp, op) == IF FOp(sp, op) THEN IF Cre(op) THEN 1 ELSE 2
                        ELSE IF Cre(op) THEN 3 ELSE 4
Slots(sp, tm) ==
  FoldLeft(LAMBDA acc, k : acc \o TensorSlots(tm.t[k], k), <<>>, [k \in 1..Len(tm.t) |-> k])
  \o [j \in 1..Len(tm.o) |-> <<Idx(tm.o[j]), 0, OpKind(sp, tm.o[j]), FOp(sp, tm.o[j])>>]

ZeroClass == [k |-> <<"zero">>, f |-> <<>>, s |-> 0]

(* class and sign of a term.  Sets are turned into sequences in a fixed    *)
(* order (equal sets, equal sequences), so that no order has to be chosen. *)
Class(sp, tm) ==
  LET NT == Len(tm.t)
      keys == [k \in 1..NT |-> TKey(tm.t[k])]
      slots == Slots(sp, tm)
      N == Len(slots)
      indices == {slots[i][1] : i \in 1..N}
      occ == TLCEval([x \in indices |-> {i \in 1..N : slots[i][1] = x}])
      bound == {x \in indices : \E i \in occ[x] : slots[i][2] > 0}
      antigroups == {<<slots[i][2], slots[i][3]>> : i \in {j \in 1..N : slots[j][4]}}
      inGroup == TLCEval([g \in antigroups |-> SelectSeq([i \in 1..N |-> i], LAMBDA i : <<slots[i][2], slots[i][3]>> = g)])
      (* sign of moving the fermion creators before the fermion annihilators *)
      fops == SelectSeq(tm.o, LAMBDA o : FOp(sp, o))
      opsign == LET inv == SeqSum([i \in 1..Len(fops) |->
                               IF Cre(fops[i]) THEN Cardinality({j \in 1..(i-1) : ~Cre(fops[j])}) ELSE 0])
                IN IF inv % 2 = 0 THEN 1 ELSE -1
      (* an index twice in the same antisymmetric group: zero *)
      twice == \E x \in indices : Cardinality(occ[x]) > 1 /\
                 \E i \in occ[x] : slots[i][4] /\ \E j \in occ[x] :
                   i < j /\ slots[i][2] = slots[j][2] /\ slots[i][3] = slots[j][3]
      (* how an index is joined to the groups; num numbers the tensors *)
      Ends(x, num) == {<<num[slots[i][2]], slots[i][3],
                         Cardinality({j \in occ[x] : slots[j][2] = slots[i][2] /\ slots[j][3] = slots[i][3]})>> : i \in occ[x]}
      EdgeCode(x, num) == <<x[1], IF x \in bound THEN -1 ELSE x[2], Ends(x, num)>>
      (* a first description of every tensor, independent of names: its key  *)
      (* and the edges at its slots, with the keys of the tensors they reach *)
      keyNum == LET ks0 == SetToSeq(Range1(keys))
                IN TLCEval([k \in 0..NT |-> IF k = 0 THEN 0 ELSE CHOOSE i \in 1..Len(ks0) : ks0[i] = keys[k]])
      code1 == TLCEval([x \in indices |-> EdgeCode(x, keyNum)])
      OwnCode(k) == {<<code1[x], {slots[i][3] : i \in {j \in occ[x] : slots[j][2] = k}}>> :
                       x \in {slots[i][1] : i \in {j \in 1..N : slots[j][2] = k}}}
      OwnCount(k) == {<<c, Cardinality({x \in indices : (\E j \in occ[x] : slots[j][2] = k) /\ code1[x] = c[1]
                            /\ {slots[i][3] : i \in {j \in occ[x] : slots[j][2] = k}} = c[2]})>> : c \in OwnCode(k)}
      desc == TLCEval([k \in 1..NT |-> <<keyNum[k], IF Cardinality(Range1(keys)) = NT THEN {} ELSE OwnCount(k)>>])
      ks == SetToSeq(Range1(desc))
      nums == Numberings(desc, ks, 1)
      NumOf(ord) == TLCEval([k \in 0..NT |-> IF k = 0 THEN 0 ELSE CHOOSE i \in 1..NT : ord[i] = k])
      Result(ord) == (* ord: sequence of tensor positions, in the new order *)
        LET num == NumOf(ord)
            code == TLCEval([x \in indices |-> EdgeCode(x, num)])
            codes == SetToSeq({code[x] : x \in indices})
            at == TLCEval([x \in indices |-> (CHOOSE i \in 1..Len(codes) : codes[i] = code[x]) * 1000 + Cardinality({y \in indices : IdxCode(y) < IdxCode(x)})])
            sgn == FoldSet(LAMBDA g, acc : acc * ParitySign([k \in 1..Len(inGroup[g]) |-> at[slots[inGroup[g][k]][1]]]), 1, antigroups)
        IN <<[i \in 1..Len(codes) |-> <<codes[i], Cardinality({x \in indices : code[x] = codes[i]})>>], sgn>>
      (* two like edges whose exchange changes the sign: zero *)
      antiEnds(x) == Cardinality({i \in occ[x] : slots[i][4]})
      num0 == TLCEval([k \in 0..NT |-> k])
      code0 == TLCEval([x \in indices |-> EdgeCode(x, num0)])
      oddPair == \E x \in indices : antiEnds(x) % 2 = 1 /\ \E y \in indices : x # y /\ code0[x] = code0[y]
  IN IF twice \/ oddPair THEN ZeroClass
     ELSE LET R == TLCEval({Result(p) : p \in nums})
              forms == {r[1] : r \in R}
              f == CHOOSE f \in forms : TRUE
              sg == {r[2] : r \in {r \in R : r[1] = f}}
          IN IF Cardinality(sg) = 2 THEN ZeroClass
             ELSE [k |-> <<[i \in 1..Cardinality(Range1(keys)) |->
                              LET q == SetToSeq(Range1(keys))[i] IN <<q, Cardinality({j \in 1..NT : keys[j] = q})>>],
                           tm.n /\ Len(tm.o) > 0>>,
                   f |-> <<[i \in 1..Len(ks) |-> <<ks[i][1], Cardinality({k \in 1..NT : desc[k] = ks[i]})>>], f>>,
                   s |-> opsign * (CHOOSE x \in sg : TRUE)]

(* the value of a sequence of terms with coefficients *)
Value(sp, seq) ==
  FoldLeft(LAMBDA acc, tm :
             LET c == Class(sp, tm)
             IN IF c.s = 0 THEN acc
                ELSE LAdd(acc, <<c.k, c.f>>, IF c.s = 1 THEN tm.c ELSE RNeg(tm.c)),
           Empty, seq)
SameValue(sp, s1, s2) == Value(sp, s1) = Value(sp, s2)
=============================================================================
