---------------------------- MODULE Partitions ----------------------------
(***************************************************************************)
(* Integer partitions: the non-increasing sequences of positive numbers    *)
(* with sum n and at most m parts.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences
RECURSIVE Parts(_,_,_)
(* ... with no part above k *)
Parts(n, m, k) == IF n = 0 THEN {<<>>}
                  ELSE IF m <= 0 \/ n < 0 THEN {}
                  ELSE UNION {{<<p>> \o q : q \in Parts(n - p, m - 1, p)} : p \in 1..(IF k < n THEN k ELSE n)}
=============================================================================
