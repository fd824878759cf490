------------------------------ MODULE GenEngine ------------------------------
(***************************************************************************)
(* Histories of two contraction engines, generated from the specification: *)
(* settings in any order, questions from a list, repeated questions.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, NQ
VARIABLES hist, made, last
Ks == {1, 2}
Init == hist = <<>> /\ made = {} /\ last = [k \in Ks |-> <<>>]
Do(a) == /\ Len(hist) < Depth
         /\ hist' = Append(hist, a)
         /\ Len(hist) + 1 = Depth => PrintT(<<"HIST", ToJson(hist')>>)
Set(k) == \/ \E v \in {1, 2, 3, 100} : Do([op |-> "maxcum", k |-> k, v |-> v])
          \/ \E v \in {TRUE, FALSE} : Do([op |-> "single", k |-> k, v |-> v]) \/ Do([op |-> "graph", k |-> k, v |-> v])
          \/ \E v \in {0, 1, 2} : Do([op |-> "setprint", k |-> k, v |-> v])
          \/ Do([op |-> "timers", k |-> k])
          \/ Do([op |-> "warm", k |-> k])
          \/ Do([op |-> "fail", k |-> k])
Ask(k) == \E q \in 1..NQ : \E w \in 1..3 : Do([op |-> "ask", k |-> k, q |-> q, w |-> w]) /\ last' = [last EXCEPT ![k] = <<q, w>>]
(* the last question once more, perhaps after the settings have changed *)
Again(k) == last[k] # <<>> /\ Do([op |-> "ask", k |-> k, q |-> last[k][1], w |-> last[k][2]]) /\ UNCHANGED last
Next ==
  \/ \E k \in Ks : k \notin made /\ Do([op |-> "eng", k |-> k]) /\ made' = made \cup {k} /\ UNCHANGED last
  \/ /\ UNCHANGED made
     /\ \E k \in {RandomElement(IF made = {} THEN {0} ELSE made)} : \E how \in {RandomElement(1..5)} :
           /\ made # {}
           /\ CASE how <= 2 -> Set(k) /\ UNCHANGED last
                [] how = 3 \/ last[k] = <<>> -> Ask(k)
                [] OTHER -> Again(k)
=============================================================================
