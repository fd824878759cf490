---------------------------- MODULE MCBacktrack ----------------------------
EXTENDS Backtrack
Sp == <<[l |-> "o", f |-> "f", y |-> "o"], [l |-> "a", f |-> "f", y |-> "g"], [l |-> "v", f |-> "f", y |-> "u"]>>
Op(l, c, a) == [l |-> l, c |-> c, a |-> a]
(* product, largest cumulant, window *)
Questions == <<
  [p |-> <<Op("V", <<2,0,0>>, <<0,0,2>>), Op("T", <<0,0,2>>, <<2,0,0>>)>>, m |-> 100, lo |-> 0, hi |-> 100],
  [p |-> <<Op("V", <<1,0,1>>, <<1,0,1>>), Op("T", <<0,0,1>>, <<1,0,0>>), Op("T", <<0,0,1>>, <<1,0,0>>)>>, m |-> 100, lo |-> 0, hi |-> 4],
  [p |-> <<Op("A", <<0,2,0>>, <<0,1,1>>), Op("B", <<0,1,1>>, <<0,2,0>>)>>, m |-> 100, lo |-> 2, hi |-> 6],
  [p |-> <<Op("A", <<0,2,0>>, <<0,1,1>>), Op("B", <<0,1,1>>, <<0,2,0>>)>>, m |-> 1, lo |-> 0, hi |-> 100],
  [p |-> <<Op("A", <<1,1,0>>, <<0,1,0>>), Op("B", <<0,1,0>>, <<1,1,0>>)>>, m |-> 2, lo |-> 0, hi |-> 2],
  [p |-> <<Op("A", <<1,0,0>>, <<0,0,1>>)>>, m |-> 100, lo |-> 0, hi |-> 100],
  [p |-> <<>>, m |-> 100, lo |-> 0, hi |-> 0] >>
(* whether the state of the last question is kept for the invariant *)
VARIABLE last
Init == BInit /\ last = 0
Cur == Questions[IF q = 0 THEN last ELSE q]
Next ==
  \/ \E n \in 1..Len(Questions) : /\ Ask(Sp, n, Questions[n].p, Questions[n].m, Questions[n].lo, Questions[n].hi)
                                  /\ last' = n
  \/ q # 0 /\ (Extend(Cur.lo, Cur.hi) \/ Retreat \/ Finish) /\ UNCHANGED last
Spec == Init /\ [][Next]_<<bvars, last>> /\ WF_<<bvars, last>>(Next)
Inv == last # 0 => /\ Conserved(Sp, Cur.p)
                   /\ Sorted
                   /\ q = 0 => Complete(Sp, Cur.p, Cur.lo, Cur.hi)
Ends == []<>(q = 0)
=============================================================================
