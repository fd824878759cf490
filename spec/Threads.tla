------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* The multi-threaded contraction (process_contractions_threads): the main *)
(* thread starts one task per composite contraction and adds the results   *)
(* in the order of the contractions, waiting for each task; every task     *)
(* turns its contraction into a term (a pure function of shared data that  *)
(* nobody writes), and twice adds the time it took to an entry of the      *)
(* timers shared by all tasks, inside a critical section.                  *)
(*                                                                         *)
(* A task holds a thread until its result is taken.  The system has        *)
(* Capacity threads and refuses one more, which ends the call; the main    *)
(* thread therefore takes the oldest result before it starts a task when   *)
(* Window results are waiting.                                             *)
(*                                                                         *)
(* The entry is updated in three steps (find or create the entry, read,    *)
(* write), as the code does.  Locking = FALSE is the code without the lock.*)
(*                                                                         *)
(* Tasks 1..N.  Term[i] is the <<key, coefficient>> task i computes (0: its*)
(* rank is outside the window and it returns nothing).                     *)
(***************************************************************************)
EXTENDS Basics
CONSTANTS N, Locking, Keys, Coefs, Window, Capacity

VARIABLES term,    \* task -> <<key, coefficient>> or <<0, 0>>
          pc,      \* task -> where it is
          reg,     \* task -> value read from the timer entry
          fut,     \* task -> result of the finished task, or "none"
          timers,  \* entry -> time; absent until first used
          lock,    \* holder of the lock, 0 if free
          started, \* number of tasks started
          merged,  \* number of results added
          result,  \* key -> coefficient, as the main thread has it
          writers, \* tasks that are creating an entry (they change the shared map)
          failed   \* the system refused a thread
vars == <<term, pc, reg, fut, timers, lock, started, merged, result, writers, failed>>

Entries == {"canon", "eval"}
Phases == <<"canon", "eval">>

Init ==
  /\ term \in [1..N -> (Keys \X Coefs) \cup {<<0, 0>>}]
  /\ pc = [i \in 1..N |-> <<"idle", 0>>]
  /\ reg = [i \in 1..N |-> 0]
  /\ fut = [i \in 1..N |-> <<"none">>]
  /\ timers = [e \in {} |-> 0]
  /\ lock = 0 /\ started = 0 /\ merged = 0
  /\ result = [k \in {} |-> RZero]
  /\ writers = {} /\ failed = FALSE

(* main thread *)
Held == started - merged
Refuse == /\ ~failed /\ started < N /\ Held < Window /\ Held >= Capacity
          /\ failed' = TRUE
          /\ UNCHANGED <<term, pc, reg, fut, timers, lock, started, merged, result, writers>>
Spawn == /\ ~failed /\ started < N /\ Held < Window /\ Held < Capacity
         /\ started' = started + 1
         /\ pc' = [pc EXCEPT ![started + 1] = IF term[started + 1] = <<0,0>> THEN <<"done", 0>> ELSE <<"work", 1>>]
         /\ UNCHANGED <<term, reg, fut, timers, lock, merged, result, writers, failed>>
Merge == /\ ~failed /\ merged < N
         /\ started = N \/ Held = Window
         /\ fut[merged + 1] # <<"none">>
         /\ merged' = merged + 1
         /\ result' = IF fut[merged + 1] = <<"empty">> THEN result
                      ELSE LAdd(result, fut[merged + 1][2][1], RInt(fut[merged + 1][2][2]))
         /\ UNCHANGED <<term, pc, reg, fut, timers, lock, started, writers, failed>>

(* task i; phase p *)
At(i, w) == pc[i][1] = w
Entry(i) == Phases[pc[i][2]]
Goto(i, w) == pc' = [pc EXCEPT ![i] = <<w, pc[i][2]>>]
Work(i) == /\ At(i, "work") /\ Goto(i, "want")
           /\ UNCHANGED <<term, reg, fut, timers, lock, started, merged, result, writers, failed>>
Acquire(i) == /\ At(i, "want")
              /\ IF Locking THEN lock = 0 /\ lock' = i ELSE UNCHANGED lock
              /\ Goto(i, "find")
              /\ writers' = IF Entry(i) \in DOMAIN timers THEN writers ELSE writers \cup {i}
              /\ UNCHANGED <<term, reg, fut, timers, started, merged, result, failed>>
Find(i) == /\ At(i, "find")
           /\ timers' = IF Entry(i) \in DOMAIN timers THEN timers ELSE timers @@ (Entry(i) :> 0)
           /\ writers' = writers \ {i}
           /\ Goto(i, "read")
           /\ UNCHANGED <<term, reg, fut, lock, started, merged, result, failed>>
Read(i) == /\ At(i, "read")
           /\ reg' = [reg EXCEPT ![i] = timers[Entry(i)]]
           /\ Goto(i, "write")
           /\ UNCHANGED <<term, fut, timers, lock, started, merged, result, writers, failed>>
Write(i) == /\ At(i, "write")
            /\ timers' = [timers EXCEPT ![Entry(i)] = reg[i] + 1]
            /\ lock' = IF Locking THEN 0 ELSE lock
            /\ pc' = [pc EXCEPT ![i] = IF pc[i][2] = Len(Phases) THEN <<"done", 0>> ELSE <<"work", pc[i][2] + 1>>]
            /\ UNCHANGED <<term, reg, fut, started, merged, result, writers, failed>>
Finish(i) == /\ At(i, "done")
             /\ fut' = [fut EXCEPT ![i] = IF term[i] = <<0,0>> THEN <<"empty">> ELSE <<"term", term[i]>>]
             /\ Goto(i, "end")
             /\ UNCHANGED <<term, reg, timers, lock, started, merged, result, writers, failed>>

Task(i) == Work(i) \/ Acquire(i) \/ Find(i) \/ Read(i) \/ Write(i) \/ Finish(i)
Next == Spawn \/ Refuse \/ Merge \/ \E i \in 1..N : Task(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next) /\ \A i \in 1..N : WF_vars(Task(i))

(* --------------------------------------------------------------------- *)
Sequential == LOfSeq([i \in 1..N |-> <<term[i][1], RInt(term[i][2])>>])
Live(i) == term[i] # <<0,0>>
(* the multi-threaded answer is the sequential one *)
SameAnswer == merged = N => result = Sequential
(* prefix property: no result is lost or added twice on the way *)
Partial == result = LOfSeq([i \in 1..merged |-> <<term[i][1], RInt(term[i][2])>>])
(* nobody else is at the timers while a task is *)
Inside(i) == pc[i][1] \in {"find", "read", "write"}
Exclusive == \A i, j \in 1..N : i # j /\ Inside(i) => ~Inside(j)
NoConflict == Cardinality(writers) > 0 => \A i, j \in 1..N : (i # j /\ i \in writers) => ~Inside(j)
(* the timers count every task once *)
TimersTotal == merged = N => \A e \in Entries :
                 (IF e \in DOMAIN timers THEN timers[e] ELSE 0) = Cardinality({i \in 1..N : Live(i)})
(* never more results waiting than the system has threads for *)
Bounded == ~failed /\ Held <= Window
(* the call returns *)
Returns == <>(merged = N)
Inv == SameAnswer /\ Partial /\ Exclusive /\ NoConflict /\ TimersTotal /\ Bounded
=============================================================================
