---------------------------- MODULE MCRegistry ----------------------------
(* all histories of the registry over few labels and names: labels and     *)
(* names stay unique, order is order of acceptance, a refused request      *)
(* changes nothing, a reset makes everything available                     *)
EXTENDS Registry
CONSTANT MaxLen
VARIABLES reg, last, n
Reqs == {[l |-> l, f |-> f, y |-> y, x |-> x, e |-> e] :
           l \in {"o", "v", "a"}, f \in {"fermion", "fermi"}, y \in {"occupied", "occ"},
           x \in {<<>>, <<"i">>, <<"i", "j">>, <<"i", "i">>, <<"k">>}, e \in {<<>>, <<"o">>, <<"v">>}}
Init == reg = <<>> /\ last = [op |-> "none", ok |-> TRUE, before |-> <<>>] /\ n = 0
Next == /\ n < MaxLen /\ n' = n + 1
        /\ \/ \E a \in Reqs : reg' = Add(reg, a) /\ last' = [op |-> "add", ok |-> CanAdd(reg, a), before |-> reg]
           \/ reg' = <<>> /\ last' = [op |-> "reset", ok |-> TRUE, before |-> reg]
Unique == /\ Cardinality(Labels(reg)) = Len(reg)
          /\ \A k, m \in 1..Len(reg) : k # m => NamesOf(reg[k]) \cap NamesOf(reg[m]) = {}
          /\ \A k \in 1..Len(reg) : Cardinality(NamesOf(reg[k])) = Len(reg[k].x)
Effects == /\ last.op = "add" => IF last.ok THEN Len(reg) = Len(last.before) + 1 /\ SubSeq(reg, 1, Len(last.before)) = last.before
                                 ELSE reg = last.before
           /\ last.op = "reset" => \A a \in Reqs : a.f = "fermion" /\ a.y = "occupied" /\ Cardinality(NamesOf(a)) = Len(a.x) /\ Elementary(a) \subseteq {a.l} => CanAdd(reg, a)
Resolves == \A k \in 1..Len(reg) : PosOf(reg, reg[k].l) = k - 1
=============================================================================
