------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* A contraction engine as a state machine.  The only part of its state    *)
(* that an answer may depend on is the largest cumulant; the number of     *)
(* threads, graph canonicalization, printing and everything contracted     *)
(* before leave no trace in the answers.                                   *)
(***************************************************************************)
EXTENDS WickOracle

DefaultMaxCumulant == 100
NewEngine == [maxcum |-> DefaultMaxCumulant]
SetMaxCumulant(eng, v) == [eng EXCEPT !.maxcum = v]
SetSingle(eng, v) == eng
SetGraph(eng, v) == eng
SetPrint(eng, v) == eng

(* the value of a contraction *)
Answer(sp, eng, exprs, factor, lo, hi) == WickValue(sp, exprs, factor, eng.maxcum, lo, hi)
(* the shape of an answer: distinct terms, proper coefficients, every rank *)
(* in the window.  Every operator string of an answer is meant to be       *)
(* normal ordered; the library does not label it so.                       *)
GoodShape(ob, lo, hi) ==
  /\ WellFormed(ob)
  /\ \A i \in 1..Len(ob) : Len(ob[i].o) >= lo /\ Len(ob[i].o) <= hi
AsNormal(ob) == Map(ob, LAMBDA tm : [tm EXCEPT !.n = TRUE])
=============================================================================
