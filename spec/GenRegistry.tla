--------------------------- MODULE GenRegistry ---------------------------
(* histories of the registry: Depth requests, drawn so that accepted and   *)
(* refused ones alternate                                                  *)
EXTENDS Registry, Json
CONSTANT Depth
VARIABLES reg, hist
Pool == <<"o", "v", "a", "b", "O", "z", "1">>
NamePool == <<"i", "j", "k", "a", "b", "u", "o", "x1", "", "alpha">>
Pick(S) == RandomElement(S)
SubNames(k) == [j \in 1..k |-> NamePool[Pick(1..Len(NamePool))]]
Fresh(k) == LET free == {n \in Range1(NamePool) : n \notin Names(reg)}
                s == SetToSeq(free)
            IN SubSeq(s, 1, IF k < Len(s) THEN k ELSE Len(s))
Request(d) ==
  LET base == [l |-> IF Pick(1..20) = 1 THEN Pick({"", "ov"}) ELSE Pool[Pick(1..Len(Pool))],
               f |-> IF Pick(1..15) = 1 THEN Pick({"fermi", "", "Fermion"}) ELSE Pick(Fields),
               y |-> IF Pick(1..15) = 1 THEN Pick({"virtual", "", "occ"}) ELSE Pick(Types),
               x |-> IF Pick(1..3) < 3 THEN Fresh(Pick(0..3)) ELSE SubNames(Pick(0..3))]
  IN IF Pick(1..4) = 1 THEN base @@ [e |-> [j \in 1..Pick(0..2) |-> IF Pick(1..3) < 3 /\ Labels(reg) # {} THEN Pick(Labels(reg) \cup {base.l}) ELSE Pool[Pick(1..6)]]] ELSE base
Init == reg = <<>> /\ hist = <<>>
Do(a) == /\ hist' = Append(hist, a)
         /\ reg' = IF a.op = "addspace" THEN Add(reg, a.a) ELSE IF a.op = "resetspace" THEN <<>> ELSE reg
Next == /\ Len(hist) < Depth
        /\ \E d \in {1} :
             LET u == Pick(1..12)
             IN IF u = 1 THEN Do([op |-> "resetspace", osi |-> Pick({TRUE, FALSE})])
                ELSE IF u <= 3 /\ \E k \in 1..Len(reg) : reg[k].f = "fermion" /\ reg[k].l \in Letters
                THEN Do([op |-> "probe", lab |-> reg[Pick({k \in 1..Len(reg) : reg[k].f = "fermion" /\ reg[k].l \in Letters})].l])
                ELSE \E a \in {Request(d)} : Do([op |-> "addspace", a |-> a])
        /\ Len(hist') = Depth => PrintT(<<"HIST", ToJson(hist')>>)
=============================================================================
