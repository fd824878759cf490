----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Checks recorded traces against a specification.  A trace module defines *)
(*   Start(trace)     the abstract state at the start                      *)
(*   Step(sp, st, e)  [ok, st]: whether the event e is an action of the    *)
(*                    specification in state st, and the state after it    *)
(* Every trace is one initial state; the behaviour of a trace is linear.   *)
(* An event is accepted only with the result the specification gives.      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tnum, tpos, tst
tvars == <<tnum, tpos, tst>>

TInit(Start(_)) == tnum \in 1..Len(Traces) /\ tpos = 0 /\ tst = Start(Traces[tnum])

(* result of an event whose answer is correct / incorrect *)
Yes(s) == [ok |-> TRUE, st |-> s]
No == [ok |-> FALSE, st |-> 0]
If(b, s) == [ok |-> b, st |-> s]

TNext(Step(_,_,_)) ==
  /\ tpos >= 0 /\ tpos < Len(Traces[tnum].ev)
  /\ LET t == Traces[tnum]
         e == t.ev[tpos + 1]
         r == IF e.x = 2 THEN No ELSE Step(t.sp, tst, e)
     IN IF r.ok
        THEN /\ tpos' = tpos + 1
             /\ tst' = r.st
             /\ tpos + 1 = Len(t.ev) => PrintT(<<"ACC", t.id>>)
        ELSE /\ tpos' = -1 - tpos
             /\ tst' = tst
             /\ PrintT(<<"REJ", t.id, tpos + 1, e.op>>)
  /\ tnum' = tnum
=============================================================================
