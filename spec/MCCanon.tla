------------------------------- MODULE MCCanon -------------------------------
(***************************************************************************)
(* The class of a term (Canon), which decides when two terms have the same *)
(* value up to sign, from first principles.                                *)
(*                                                                         *)
(* A behaviour starts from a term and changes it by steps that keep its    *)
(* value or change its sign: the exchange of two neighbouring indices of a *)
(* tensor (sign of its symmetry), of two neighbouring tensors, of two      *)
(* neighbouring operators (normal ordered: sign of their statistics), the  *)
(* renaming of a summed index.                                             *)
(*  Invariant:  class and sign follow every step                           *)
(*  Separates (of the whole set of terms, once): two terms of the set have *)
(*     the same class exactly if they are, up to the signs of the classes, *)
(*     the same operator, the amplitudes being independent variables       *)
(***************************************************************************)
EXTENDS Canon, Fock, Randomization
CONSTANTS Level
VARIABLES tm, tm0, sg
SP == <<[l |-> "o", f |-> "f", y |-> "o"], [l |-> "v", f |-> "f", y |-> "u"]>>
BP == <<[l |-> "o", f |-> "f", y |-> "o"], [l |-> "b", f |-> "b", y |-> "u"]>>
Ix == {<<0,0>>, <<0,1>>, <<1,0>>}
Fresh == Ix \cup {<<0,2>>, <<1,1>>}
Upto(S, n) == UNION {[1..k -> S] : k \in 0..n}
T1(ys) == {[l |-> "A", u |-> u, d |-> d, y |-> y] : u \in Upto(Ix, 2), d \in Upto(Ix, 1), y \in ys}
T2(ys) == {[l |-> l, u |-> u, d |-> d, y |-> y] : l \in {"A", "B"}, u \in Upto(Ix, 1), d \in Upto(Ix, 1), y \in ys}
OpsOver(n) == Upto({<<k, i[1], i[2]>> : k \in {0, 1}, i \in Ix}, n)
Ys == IF Level = 1 THEN {"a"} ELSE {"a", "s", "n"}
Starts == {[t |-> ts, o |-> o, n |-> TRUE, c |-> ROne] :
             ts \in {<<a>> : a \in T1(Ys)} \cup {<<a, b>> : a \in {x \in T1(Ys) : Level > 1 \/ Len(x.u) # 1}, b \in T2({"a"})},
             o \in OpsOver(IF Level = 1 THEN 1 ELSE 2)}
(* the terms take the place of states: some of them only, at random *)
Init == /\ tm \in RandomSubset(IF Level = 1 THEN 1200 ELSE 6000, Starts) /\ tm0 = tm /\ sg = 1
Exch(s, i) == [s EXCEPT ![i] = s[i+1], ![i+1] = s[i]]
SymSign(y) == IF y = "a" THEN -1 ELSE 1
BothSp == BP   \* the second space bosonic: operators of it commute
OnT(t) == UNION {Range1(t.t[k].u) \cup Range1(t.t[k].d) : k \in 1..Len(t.t)}
Ren(x, y, i) == IF i = x THEN y ELSE i
RenTerm(t, x, y) == [t EXCEPT !.t = Map(@, LAMBDA r : [r EXCEPT !.u = Map(@, LAMBDA i : Ren(x, y, i)), !.d = Map(@, LAMBDA i : Ren(x, y, i))]),
                              !.o = Map(@, LAMBDA a : IF Idx(a) = x THEN <<a[1], y[1], y[2]>> ELSE a)]
UsedIn(t) == OnT(t) \cup {Idx(t.o[i]) : i \in 1..Len(t.o)}
Next ==
  /\ UNCHANGED tm0
  /\ \/ \E k \in 1..Len(tm.t) : tm.t[k].y # "n" /\ sg' = sg * SymSign(tm.t[k].y) /\
          (\/ \E i \in 1..(Len(tm.t[k].u) - 1) : tm' = [tm EXCEPT !.t[k].u = Exch(@, i)]
           \/ \E i \in 1..(Len(tm.t[k].d) - 1) : tm' = [tm EXCEPT !.t[k].d = Exch(@, i)])
     \/ \E k \in 1..(Len(tm.t) - 1) : tm' = [tm EXCEPT !.t = Exch(@, k)] /\ sg' = sg
     \/ \E i \in 1..(Len(tm.o) - 1) : /\ tm' = [tm EXCEPT !.o = Exch(@, i)]
                                      /\ sg' = IF FOp(BothSp, tm.o[i]) /\ FOp(BothSp, tm.o[i+1]) THEN -sg ELSE sg
     \/ \E x \in OnT(tm) : \E y \in {y \in Fresh : y[1] = x[1]} \ UsedIn(tm) : tm' = RenTerm(tm, x, y) /\ sg' = sg
Same == LET c == Class(BothSp, tm)  c0 == Class(BothSp, tm0)
        IN IF c0.s = 0 THEN c.s = 0 ELSE <<c.k, c.f>> = <<c0.k, c0.f>> /\ c.s * sg = c0.s

(* separation: over fermions, with as many modes as needed *)
Bound(t) == {Idx(t.o[i]) : i \in 1..Len(t.o)} \subseteq OnT(t)
Sample == {t \in {[t |-> ts, o |-> o, n |-> TRUE, c |-> ROne] :
                    ts \in {<<a>> : a \in T1({"a"})} \cup {<<a, b>> : a \in {x \in T1({"a"}) : Len(x.u) = 2 \/ Len(x.d) = 0}, b \in T2({"a"})},
                    o \in OpsOver(IF Level = 1 THEN 1 ELSE 2)} : Bound(t)}
Some == IF Level = 1 THEN RandomSubset(400, Sample) ELSE RandomSubset(1500, Sample)
Dims == <<3, 2>>
(* the value with amplitudes that are independent variables: a linear      *)
(* combination of <<bag of amplitudes, ordered string of modes>>           *)
BagAdd(b, x) == IF x \in DOMAIN b THEN [b EXCEPT ![x] = @ + 1] ELSE b @@ (x :> 1)
Table(t) ==
  LET ixs == SetToSeq(UsedIn(t))
      n == Len(ixs)
      asg == {a \in [1..n -> 1..NModes(Dims)] : \A i \in 1..n : a[i] \in ModesOf(Dims, ixs[i][1] + 1)}
      One(a) ==
        LET m(x) == a[CHOOSE i \in 1..n : ixs[i] = x]
            side(q) == Map(q, m)
            dead(q) == Cardinality(Range1(side(q))) < Len(q)
            ss == SortString(SP, Dims, Map(t.o, LAMBDA o : <<o[1], m(Idx(o))>>))
            bag == FoldLeft(LAMBDA acc, x : BagAdd(acc, <<x.l, Range1(side(x.u)), Range1(side(x.d))>>), <<>>, t.t)
            sgn == FoldLeft(LAMBDA acc, x : acc * ParitySign(side(x.u)) * ParitySign(side(x.d)), ss[1], t.t)
        IN IF ss[1] = 0 \/ \E k \in 1..Len(t.t) : dead(t.t[k].u) \/ dead(t.t[k].d) THEN <<0, <<>>>> ELSE <<sgn, <<bag, ss[2]>>>>
  IN FoldSet(LAMBDA a, acc : LET r == One(a) IN IF r[1] = 0 THEN acc ELSE LAdd(acc, r[2], RInt(r[1])), Empty, asg)
Separates ==
  LET rows == TLCEval({LET c == Class(SP, t)  v == Table(t)
                       IN [c |-> <<c.k, c.f, c.s # 0>>, v |-> IF c.s = -1 THEN LNeg(v) ELSE v] : t \in Some})
  IN /\ \A r \in rows : r.c[3] = (r.v # Empty)
     /\ Cardinality({r.c : r \in rows}) = Cardinality(rows)
     /\ Cardinality({r.v : r \in rows} \cup {LNeg(r.v) : r \in {r \in rows : r.v # Empty}}) = 2 * Cardinality({r \in rows : r.c[3]}) + (IF \E r \in rows : ~r.c[3] THEN 1 ELSE 0)
ASSUME Separates
=============================================================================
