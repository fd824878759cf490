----------------------------- MODULE NormalOrder -----------------------------
(***************************************************************************)
(* Normal order with respect to the true vacuum.  Strings of elementary    *)
(* operators over orbitals (an orbital is an index <<space, number>>);     *)
(* fermion operators anticommute, boson operators commute, a fermion and a *)
(* boson commute, and an annihilator next to a creator of the same orbital *)
(* leaves a contraction.                                                   *)
(***************************************************************************)
EXTENDS Terms

SwapSign(sp, a, b) == IF FOp(sp, a) /\ FOp(sp, b) THEN -1 ELSE 1
Contracts(a, b) == a[1] = 0 /\ b[1] = 1 /\ Idx(a) = Idx(b)

(* the rewriting rule at position i of a string: a linear combination      *)
SwapAt(sp, w, i) ==
  LET a == w[i]
      b == w[i+1]
      rest == SubSeq(w, 1, i-1) \o SubSeq(w, i+2, Len(w))
      sw == [w EXCEPT ![i] = b, ![i+1] = a]
  IN LAdd((sw :> RInt(SwapSign(sp, a, b))), rest, IF Contracts(a, b) THEN ROne ELSE RZero)
Disordered(w, i) == OpLess(w[i+1], w[i])
Vanishes(sp, w) == \E i \in 1..(Len(w)-1) : w[i] = w[i+1] /\ FOp(sp, w[i])
Ordered(w) == \A i \in 1..(Len(w)-1) : ~Disordered(w, i)

(* the normal form, by inserting the operators from the right one by one   *)
RECURSIVE Insert(_,_,_)
Insert(sp, p, w) ==
  IF w = <<>> THEN <<p>> :> ROne
  ELSE LET h == w[1]
       IN IF OpLess(p, h) \/ (p = h /\ ~FOp(sp, p)) THEN <<p>> \o w :> ROne
          ELSE IF p = h THEN Empty
          ELSE LET sub == Insert(sp, p, Tail(w))
                   ks == SetToSeq(DOMAIN sub)
                   pre == LOfSeq([i \in 1..Len(ks) |-> <<<<h>> \o ks[i], RMul(RInt(SwapSign(sp, p, h)), sub[ks[i]])>>])
               IN LAdd(pre, Tail(w), IF Contracts(p, h) THEN ROne ELSE RZero)
NF(sp, str) ==
  FoldLeft(LAMBDA acc, i :
             FoldSet(LAMBDA w, acc2 : LPlus(acc2, LScale(Insert(sp, str[i], w), acc[w])), Empty, DOMAIN acc),
           <<>> :> ROne, [k \in 1..Len(str) |-> Len(str) + 1 - k])

(* --------------------------------------------------------------------- *)
(* assignments of orbitals to the indices of an expression: every index is *)
(* its own orbital or the orbital of an earlier index of its space         *)
IndicesOf(ob) == UNION {UNION {Range1(ob[k].t[j].u) \cup Range1(ob[k].t[j].d) : j \in 1..Len(ob[k].t)}
                        \cup {Idx(ob[k].o[j]) : j \in 1..Len(ob[k].o)} : k \in 1..Len(ob)}
RECURSIVE Partitions(_,_)
(* functions given as sequences parallel to ixs *)
Partitions(ixs, done) ==
  IF Len(done) = Len(ixs) THEN {done}
  ELSE LET x == ixs[Len(done) + 1]
           reps == {ixs[j] : j \in {j \in 1..Len(done) : done[j] = ixs[j] /\ ixs[j][1] = x[1]}}
       IN UNION {Partitions(ixs, Append(done, r)) : r \in reps \cup {x}}
(* only the partitions with few merged indices, when there are many *)
RECURSIVE FewMerged(_,_,_)
FewMerged(ixs, done, n) ==
  IF Len(done) = Len(ixs) THEN {done}
  ELSE LET x == ixs[Len(done) + 1]
           reps == IF n = 0 THEN {} ELSE {ixs[j] : j \in {j \in 1..Len(done) : done[j] = ixs[j] /\ ixs[j][1] = x[1]}}
       IN FewMerged(ixs, Append(done, x), n) \cup UNION {FewMerged(ixs, Append(done, r), n - 1) : r \in reps}

IsDelta(t) == t.l = "delta"
(* value of an expression under an assignment f (index -> orbital): linear *)
(* combination of <<tensors, ordered string>>                              *)
ValueUnder(sp, ob, f) ==
  FoldLeft(LAMBDA acc, tm :
     LET deltas == SelectSeq(tm.t, IsDelta)
         others == SelectSeq(tm.t, LAMBDA t : ~IsDelta(t))
         alive == \A j \in 1..Len(deltas) : /\ Len(deltas[j].u) = 1 /\ Len(deltas[j].d) = 1
                                            /\ f[deltas[j].u[1]] = f[deltas[j].d[1]]
         key == Map(others, LAMBDA t : [l |-> t.l, u |-> Map(t.u, LAMBDA x : f[x]), d |-> Map(t.d, LAMBDA x : f[x])])
     IN IF ~alive THEN acc
        ELSE LET nf == NF(sp, Map(tm.o, LAMBDA o : LET x == f[Idx(o)] IN <<o[1], x[1], x[2]>>))
             IN FoldSet(LAMBDA w, acc2 : LAdd(acc2, <<key, w>>, RMul(tm.c, nf[w])), acc, DOMAIN nf),
     Empty, ob)

(* two expressions are the same operator.  onlySame: distinct labels       *)
(* denote distinct orbitals                                                *)
SameOperator(sp, a, b, onlySame) ==
  LET ixset == IndicesOf(a) \cup IndicesOf(b)
      ixs == SetToSeq(ixset)
      FS == IF onlySame THEN {ixs}
            ELSE IF Len(ixs) <= 5 THEN Partitions(ixs, <<>>) ELSE FewMerged(ixs, <<>>, IF Len(ixs) <= 7 THEN 2 ELSE 1)
  IN \A p \in FS : LET f == TLCEval([x \in ixset |-> p[CHOOSE i \in 1..Len(ixs) : ixs[i] = x]])
                   IN ValueUnder(sp, a, f) = ValueUnder(sp, b, f)
=============================================================================
