------------------------------ MODULE MCParts ------------------------------
(***************************************************************************)
(* Parts against the enumeration by successors.  State: a partition of N   *)
(* in anti-lexicographic order (1,1,...,1 first) and the set already       *)
(* passed.  The successor of a partition: the largest proper suffix that   *)
(* can be shortened gives one unit to the part before it.  The walk must   *)
(* meet every partition exactly once and end at <<N>>; every prefix of     *)
(* the limits on the number of parts and Euler's pentagonal recurrence     *)
(* hold.  This is the algorithm ZS2 that the implementation unrolls.       *)
(***************************************************************************)
EXTENDS Partitions, FiniteSets, TLC
CONSTANT MaxN
VARIABLES n, x, seen
SumOf(s) == LET f[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE f[i-1] + s[i] IN f[Len(s)]
IsPartition(s, k) == SumOf(s) = k /\ \A i \in 1..Len(s) : s[i] > 0 /\ (i > 1 => s[i-1] >= s[i])
Ones(k) == [i \in 1..k |-> 1]
(* the next partition: the last part that can grow within the partition,   *)
(* taking from what stands behind it, which falls apart into ones          *)
CanGrow(s, i) == i < Len(s) /\ (i = 1 \/ s[i-1] > s[i])
Grow(s, i) == LET rest == SumOf(SubSeq(s, i + 1, Len(s)))
              IN SubSeq(s, 1, i - 1) \o <<s[i] + 1>> \o Ones(rest - 1)
Succ(s) == LET P == {i \in 1..Len(s) : CanGrow(s, i)}
           IN Grow(s, CHOOSE i \in P : \A j \in P : j <= i)
Init == n \in 0..MaxN /\ x = Ones(n) /\ seen = {Ones(n)}
Next == /\ Len(x) > 1
        /\ x' = Succ(x) /\ seen' = seen \cup {x'} /\ n' = n
        /\ Assert(x' \notin seen, "met twice")
Valid == \A p \in {x} : IsPartition(p, n)
Count(k) == IF k < 0 THEN 0 ELSE Cardinality(Parts(k, k, k))
(* p(k) = SUM_{q # 0} (-1)^(q+1) p(k - q(3q-1)/2) *)
Pent(q) == (q * (3 * q - 1)) \div 2
Euler == LET Q == {q \in -6..6 : q # 0 /\ Pent(q) <= n}
             S[T \in SUBSET Q] == IF T = {} THEN 0 ELSE LET q == CHOOSE q \in T : TRUE
                                                       IN (IF q % 2 = 0 THEN -1 ELSE 1) * Count(n - Pent(q)) + S[T \ {q}]
         IN n > 0 => Count(n) = S[Q]
Done == Len(x) <= 1 =>
          /\ seen = Parts(n, n, n)
          /\ Euler
          /\ \A m \in -1..(n + 2) : Parts(n, m, n) = {p \in seen : Len(p) <= m} \cup (IF n = 0 THEN {<<>>} ELSE {})
          /\ \A m \in 0..n : \A k \in 0..n : Parts(n, m, k) = {p \in seen : Len(p) <= m /\ (p = <<>> \/ p[1] <= k)}
=============================================================================
