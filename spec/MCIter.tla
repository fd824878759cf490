------------------------------- MODULE MCIter -------------------------------
(***************************************************************************)
(* Reading the terms of an expression one by one while the reader changes  *)
(* it: adds multiples of any term, so that terms appear, change and vanish. *)
(* With Copied the reader walks over a copy of the terms, without it over  *)
(* the sorted map itself (a cursor that stands on a term, which may be     *)
(* removed under it).  Reads: what was shown is a prefix of the terms the  *)
(* expression had at the start, all of them in the end, each once.         *)
(***************************************************************************)
EXTENDS Basics, TLC
CONSTANTS Keys, Copied, MaxChanges
Coefs == {-1, 1, 2}
VARIABLES x, start, copy, at, seen, changes, done
vars == <<x, start, copy, at, seen, changes, done>>
Sorted(f) == SortInts(SetToSeq(DOMAIN f))
TermsOf(f) == Map(Sorted(f), LAMBDA k : <<k, f[k]>>)
Put(f, k, c) == LET v == (IF k \in DOMAIN f THEN f[k] ELSE 0) + c
                IN IF v = 0 THEN [j \in DOMAIN f \ {k} |-> f[j]]
                   ELSE [j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]]
Init == /\ \E D \in SUBSET Keys : x \in [D -> Coefs]
        /\ start = x /\ copy = TermsOf(x) /\ at = 0 /\ seen = <<>> /\ changes = 0 /\ done = FALSE
(* the next term: of the copy, or the one after the cursor (a cursor on a  *)
(* removed term has no successor: reading ends, or goes astray)            *)
Later == {k \in DOMAIN x : k > at}
Read == /\ ~done
        /\ IF Copied
           THEN IF Len(seen) = Len(copy) THEN done' = TRUE /\ UNCHANGED <<seen, at>>
                ELSE seen' = Append(seen, copy[Len(seen) + 1]) /\ UNCHANGED <<at, done>>
           ELSE IF Later = {} \/ (at # 0 /\ at \notin DOMAIN x) THEN done' = TRUE /\ UNCHANGED <<seen, at>>
                ELSE LET k == CHOOSE k \in Later : \A j \in Later : k <= j
                     IN at' = k /\ seen' = Append(seen, <<k, x[k]>>) /\ UNCHANGED done
        /\ UNCHANGED <<x, start, copy, changes>>
Change == /\ ~done /\ changes < MaxChanges
          /\ \E k \in Keys : \E c \in Coefs : x' = Put(x, k, c)
          /\ changes' = changes + 1
          /\ UNCHANGED <<start, copy, at, seen, done>>
Next == Read \/ Change \/ (done /\ UNCHANGED vars)
Reads == /\ \A i \in 1..Len(seen) : i <= Len(TermsOf(start)) /\ seen[i] = TermsOf(start)[i]
         /\ done => seen = TermsOf(start)
=============================================================================
