----------------------------- MODULE Registry -----------------------------
(***************************************************************************)
(* The registry of orbital spaces as a state machine: a sequence of        *)
(* accepted spaces.  A request to add is                                   *)
(*   [l: label, f: field, y: type, x: <<names>>, e: <<labels>>]            *)
(* (e, the labels of elementary spaces, may be absent).                    *)
(***************************************************************************)
EXTENDS Text

Fields == {"fermion", "boson"}
Types == {"occupied", "unoccupied", "general"}
Labels(reg) == {reg[k].l : k \in 1..Len(reg)}
NamesOf(s) == Range1(s.x)
Names(reg) == UNION {NamesOf(reg[k]) : k \in 1..Len(reg)}
Elementary(a) == IF "e" \in DOMAIN a THEN Range1(a.e) ELSE {}

CanAdd(reg, a) ==
  /\ Len(a.l) = 1
  /\ a.f \in Fields /\ a.y \in Types
  /\ a.l \notin Labels(reg)
  /\ NamesOf(a) \cap Names(reg) = {} /\ Cardinality(NamesOf(a)) = Len(a.x)
  /\ Elementary(a) \subseteq Labels(reg) \cup {a.l}
SpaceOf(a) == [l |-> a.l, f |-> a.f, y |-> a.y, x |-> a.x]
Add(reg, a) == IF CanAdd(reg, a) THEN Append(reg, SpaceOf(a)) ELSE reg

(* what the registry shows *)
PosOf(reg, lab) == IF lab \in Labels(reg) /\ lab \in Letters THEN (CHOOSE k \in 1..Len(reg) : reg[k].l = lab) - 1 ELSE -1
ShowSpace(s) == "space label: " \o s.l \o "\nfield type: " \o s.f \o "\nspace type: " \o s.y
                \o "\nindices: [" \o Join(s.x, ",") \o "]"
ShowAll(reg) == Join(Map(reg, ShowSpace), "\n\n")
(* in an occupied space the annihilator creates a quasiparticle *)
CreFirst(s) == IF s.y = "occupied" THEN 0 ELSE 1
NameOf(s, j) == IF j <= Len(s.x) THEN s.x[j] ELSE s.l \o "_{" \o ToString(j - 1) \o "}"

Look(reg, labs) ==
  [n |-> Len(reg), l |-> Map(reg, LAMBDA s : s.l), x |-> Map(reg, LAMBDA s : s.x), s |-> ShowAll(reg),
   at |-> Map(labs, LAMBDA lab : PosOf(reg, lab)),
   f |-> Map(reg, LAMBDA s : s.f), q |-> Map(reg, CreFirst),
   ix |-> Map(reg, LAMBDA s : [j \in 1..4 |-> NameOf(s, j)])]
(* contraction of a creator and an annihilator of a fermionic space: in    *)
(* this order, in the other order, and with a density matrix?              *)
Pair(s) == CASE s.y = "occupied"   -> [ab |-> 1, ba |-> 0, g |-> 0]
             [] s.y = "unoccupied" -> [ab |-> 0, ba |-> 1, g |-> 0]
             [] s.y = "general"    -> [ab |-> 1, ba |-> 1, g |-> 1]
=============================================================================
