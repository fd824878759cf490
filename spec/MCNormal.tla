------------------------------ MODULE MCNormal ------------------------------
(***************************************************************************)
(* Normal order of the specification, from first principles.               *)
(*                                                                         *)
(* A behaviour starts from a string of elementary operators over two       *)
(* fermion orbitals and one boson orbital and rewrites a linear            *)
(* combination of strings: it exchanges two neighbours that are out of     *)
(* order, with the sign and the contraction of the (anti)commutation       *)
(* relation, or drops a string with a repeated fermion operator, in any    *)
(* order of the steps.                                                     *)
(*  Sound:     the normal form of the combination never changes            *)
(*  Confluent: when no step is left the combination is the normal form,    *)
(*             whatever the order of the steps was                         *)
(*  Ends:      every behaviour ends                                        *)
(*  AsMatrix:  the combination and the string are the same matrix (fermion *)
(*             modes on their Fock space; the boson on its polynomials, an *)
(*             annihilator as the derivative)                              *)
(***************************************************************************)
EXTENDS NormalOrder
CONSTANTS MaxLen, WithBoson
VARIABLES w0, f
SP == <<[l |-> "o", f |-> "f", y |-> "o"], [l |-> "b", f |-> "b", y |-> "u"]>>
Orbitals == {<<0,0>>, <<0,1>>} \cup (IF WithBoson THEN {<<1,0>>} ELSE {})
Ops == {OpCre(i) : i \in Orbitals} \cup {OpAnn(i) : i \in Orbitals}
Strings == UNION {[1..n -> Ops] : n \in 0..MaxLen}
Init == w0 \in Strings /\ f = (w0 :> ROne)
Swap(w, i) == f' = LPlus([x \in DOMAIN f \ {w} |-> f[x]], LScale(SwapAt(SP, w, i), f[w]))
Drop(w) == f' = [x \in DOMAIN f \ {w} |-> f[x]]
Next == /\ UNCHANGED w0
        /\ \E w \in DOMAIN f : \/ \E i \in 1..(Len(w) - 1) : Disordered(w, i) /\ Swap(w, i)
                               \/ Vanishes(SP, w) /\ Drop(w)
Spec == Init /\ [][Next]_<<w0, f>> /\ WF_<<w0, f>>(Next)
(* normal form of a linear combination *)
NFOf(g) == FoldSet(LAMBDA w, acc : LPlus(acc, LScale(NF(SP, w), g[w])), Empty, DOMAIN g)
Done == \A w \in DOMAIN f : ~Vanishes(SP, w) /\ Ordered(w)
Sound == NFOf(f) = NF(SP, w0)
Confluent == Done => f = NF(SP, w0)
Ends == <>[]Done
(* basis states: occupied fermion modes and the power of the boson *)
Mode(i) == i[2] + 1
Act(a, st) ==  \* st: <<coefficient, set of modes, power>>
  IF st[1] = 0 THEN st
  ELSE IF a[2] = 1 THEN IF Cre(a) THEN <<st[1], st[2], st[3] + 1>>
                        ELSE IF st[3] = 0 THEN <<0, {}, 0>> ELSE <<st[1] * st[3], st[2], st[3] - 1>>
  ELSE LET m == Mode(Idx(a))  s == IF Cardinality({x \in st[2] : x < m}) % 2 = 0 THEN 1 ELSE -1
       IN IF Cre(a) THEN IF m \in st[2] THEN <<0, {}, 0>> ELSE <<s * st[1], st[2] \cup {m}, st[3]>>
          ELSE IF m \in st[2] THEN <<s * st[1], st[2] \ {m}, st[3]>> ELSE <<0, {}, 0>>
ActStr(w, st) == FoldLeft(LAMBDA acc, a : Act(a, acc), st, Rev(w))
Image(g, S, p) == FoldSet(LAMBDA w, acc : LET r == ActStr(w, <<1, S, p>>)
                                          IN IF r[1] = 0 THEN acc ELSE LAdd(acc, <<r[2], r[3]>>, RMul(g[w], RInt(r[1]))),
                          Empty, DOMAIN g)
AsMatrix == \A S \in SUBSET {1, 2} : \A p \in (IF WithBoson THEN 0..3 ELSE {0}) : Image(f, S, p) = Image(w0 :> ROne, S, p)
=============================================================================
