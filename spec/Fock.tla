-------------------------------- MODULE Fock --------------------------------
(***************************************************************************)
(* Operators as linear maps on a finite Fock space.                        *)
(*                                                                         *)
(* dims[s]: number of modes of space s; the modes are numbered 1..M, space *)
(* after space.  A fermion basis state is the set of its occupied modes; a *)
(* vector is a linear combination of them.  The amplitudes of a tensor are *)
(* fixed pseudo-random integers, antisymmetric in upper and lower indices. *)
(* A string [<<1,m>>: create mode m | <<0,m>>: annihilate mode m].         *)
(***************************************************************************)
EXTENDS Terms

NModes(dims) == SeqSum(dims)
FirstMode(dims, s) == SeqSum(SubSeq(dims, 1, s - 1)) + 1
ModesOf(dims, s) == FirstMode(dims, s)..(FirstMode(dims, s) + dims[s] - 1)
SpaceOf(dims, m) == CHOOSE s \in 1..Len(dims) : m \in ModesOf(dims, s)

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
SetCode(S) == FoldSet(LAMBDA m, acc : acc + Pow2(m), 0, S)

(* amplitude of the tensor with label number l for sets of lower (creator) *)
(* and upper (annihilator) modes                                           *)
Amp(l, lo, up) == LET c == 31 * SetCode(lo) + 57 * SetCode(up) + 13 * l + 5
                      v == ((c * (c + 3)) % 11) - 5
                  IN IF v = 0 THEN 7 ELSE v
(* the antisymmetric extension to sequences *)
AmpSeq(l, lo, up) ==
  IF Cardinality(Range1(lo)) < Len(lo) \/ Cardinality(Range1(up)) < Len(up) THEN 0
  ELSE ParitySign(lo) * ParitySign(up) * Amp(l, Range1(lo), Range1(up))

(* action of one elementary operator on a basis state: <<sign, state>>,    *)
(* sign 0 when it vanishes                                                 *)
Below(S, m) == Cardinality({q \in S : q < m})
Act1(a, sS) ==
  IF sS[1] = 0 THEN sS
  ELSE LET S == sS[2]
           sg == IF Below(S, a[2]) % 2 = 0 THEN sS[1] ELSE -sS[1]
       IN IF a[1] = 1 THEN IF a[2] \in S THEN <<0, {}>> ELSE <<sg, S \cup {a[2]}>>
          ELSE IF a[2] \in S THEN <<sg, S \ {a[2]}>> ELSE <<0, {}>>
ActString(str, S) == FoldLeft(LAMBDA acc, a : Act1(a, acc), <<1, S>>, Rev(str))

(* the reference: a determinant that fills the occupied spaces and every   *)
(* other mode of a general space                                           *)
Filled(sp, dims, m) == LET s == SpaceOf(dims, m)
                       IN \/ sp[s].y = "o"
                          \/ sp[s].y = "g" /\ (m - FirstMode(dims, s)) % 2 = 0
(* normal order with respect to the reference: <<sign, string>> *)
QC(sp, dims, a) == IF Filled(sp, dims, a[2]) THEN a[1] = 0 ELSE a[1] = 1
NormalOrdered(sp, dims, str) ==
  LET N == Len(str)
      pos == [i \in 1..N |-> i]
      ord == SelectSeq(pos, LAMBDA i : QC(sp, dims, str[i])) \o SelectSeq(pos, LAMBDA i : ~QC(sp, dims, str[i]))
  IN <<ParitySign(ord), Map(ord, LAMBDA i : str[i])>>

(* a normal-ordered operator with antisymmetric amplitudes: the sum over   *)
(* sets of modes (the prefactor cancels the number of orders)              *)
RECURSIVE SubsetsOf(_,_,_)
(* unions of subsets with the given numbers of modes of each space *)
SubsetsOf(dims, counts, s) ==
  IF s > Len(dims) THEN {{}}
  ELSE IF counts[s] > dims[s] THEN {}
  ELSE {A \cup B : A \in kSubset(counts[s], ModesOf(dims, s)), B \in SubsetsOf(dims, counts, s + 1)}
Asc(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
(* sequence of <<coefficient, string>> *)
OperatorStrings(sp, dims, lab, op) ==
  LET C == SubsetsOf(dims, op.c, 1)
      A == SubsetsOf(dims, op.a, 1)
  IN SetToSeq({LET no == NormalOrdered(sp, dims, Map(Asc(p[1]), LAMBDA m : <<1, m>>) \o Map(Rev(Asc(p[2])), LAMBDA m : <<0, m>>))
               IN <<no[1] * Amp(lab, p[1], p[2]), no[2]>> : p \in C \X A})

IAdd(v, S, c) == IF c = 0 THEN v ELSE LAdd(v, S, c)
(* vectors of rationals *)
Apply(strs, vec) ==
  FoldLeft(LAMBDA acc, cs :
     FoldSet(LAMBDA S, acc2 : LET r == ActString(cs[2], S)
                              IN IF r[1] = 0 THEN acc2
                                 ELSE LAdd(acc2, r[2], RMul(RInt(r[1]), RMul(cs[1], vec[S]))),
             acc, DOMAIN vec),
     Empty, strs)
RatStrings(strs) == Map(strs, LAMBDA cs : <<RInt(cs[1]), cs[2]>>)

(* the densities of the reference: gamma1 is one for a filled mode, eta1   *)
(* for an empty one, and a determinant has no cumulants                    *)
Densities == <<"gamma1", "eta1", "lambda2", "lambda3", "lambda4", "lambda5", "lambda6">>
LabelNumber(labels, l) == IF l \in Range1(labels) THEN CHOOSE i \in 1..Len(labels) : labels[i] = l
                          ELSE 0 - (CHOOSE i \in 1..Len(Densities) : Densities[i] = l)
AmpOf(sp, dims, l, lo, up) ==
  CASE l > 0 -> AmpSeq(l, lo, up)
    [] l = -1 -> IF lo = up /\ Filled(sp, dims, lo[1]) THEN 1 ELSE 0
    [] l = -2 -> IF lo = up /\ ~Filled(sp, dims, lo[1]) THEN 1 ELSE 0
    [] OTHER -> 0

(* the strings of a term: sum over the modes of its indices.  A table from *)
(* strings in order to coefficients                                        *)
SortString(sp, dims, str) ==
  (* creators up, annihilators down, in normal order; sign 0 if repeated *)
  IF Cardinality(Range1(str)) < Len(str) THEN <<0, <<>>>>
  ELSE LET M == NModes(dims)
           key(a) == (IF QC(sp, dims, a) THEN 0 ELSE 1000) + a[2] * 2 + a[1]
           ks == Map(str, key)
       IN <<ParitySign(ks), SortSeq(str, LAMBDA a, b : key(a) < key(b))>>
TermTable(sp, dims, labels, tm, acc0) ==
  LET ixset == UNION {Range1(tm.t[k].u) \cup Range1(tm.t[k].d) : k \in 1..Len(tm.t)} \cup {Idx(tm.o[k]) : k \in 1..Len(tm.o)}
      ixs == SetToSeq(ixset)
      n == Len(ixs)
      place == TLCEval([x \in ixset |-> CHOOSE i \in 1..n : ixs[i] = x])
      dim == TLCEval([i \in 1..n |-> dims[ixs[i][1] + 1]])
      first == TLCEval([i \in 1..n |-> FirstMode(dims, ixs[i][1] + 1)])
      stride == TLCEval(FoldLeft(LAMBDA acc, d : Append(acc, acc[Len(acc)] * d), <<1>>, dim))
      labno == TLCEval(Map(tm.t, LAMBDA t : LabelNumber(labels, t.l)))
      lows == TLCEval(Map(tm.t, LAMBDA t : Map(t.d, LAMBDA x : place[x])))
      ups == TLCEval(Map(tm.t, LAMBDA t : Map(t.u, LAMBDA x : place[x])))
      One(k) == (* the k-th assignment of modes to indices *)
        LET as == TLCEval([i \in 1..n |-> first[i] + ((k \div stride[i]) % dim[i])])
            amp == FoldLeft(LAMBDA acc, j : IF acc = 0 THEN 0
                              ELSE acc * AmpOf(sp, dims, labno[j], Map(lows[j], LAMBDA x : as[x]), Map(ups[j], LAMBDA x : as[x])),
                            1, [j \in 1..Len(tm.t) |-> j])
        IN IF amp = 0 THEN <<0, <<>>>>
           ELSE LET ss == SortString(sp, dims, Map(tm.o, LAMBDA o : <<o[1], as[place[Idx(o)]]>>))
                IN <<amp * ss[1], ss[2]>>
  IN FoldLeft(LAMBDA acc, k : LET r == One(k - 1) IN IF r[1] = 0 THEN acc ELSE LAdd(acc, r[2], RMul(tm.c, RInt(r[1]))),
              acc0, [k \in 1..stride[n + 1] |-> k])
ExprTable(sp, dims, labels, ob) == FoldLeft(LAMBDA acc, tm : TermTable(sp, dims, labels, tm, acc), Empty, ob)
TableStrings(tab) == LET ks == SetToSeq(DOMAIN tab) IN [i \in 1..Len(ks) |-> <<tab[ks[i]], ks[i]>>]

(* the two sides as linear maps: basis state -> vector *)
ProductMap(sp, dims, labels, ops, coef) ==
  LET strs == TLCEval([i \in 1..Len(ops) |-> RatStrings(OperatorStrings(sp, dims, LabelNumber(labels, ops[i].l), ops[i]))])
      Col(S) == FoldLeft(LAMBDA v, i : Apply(strs[i], v), (S :> coef), [k \in 1..Len(ops) |-> Len(ops) + 1 - k])
  IN [S \in SUBSET (1..NModes(dims)) |-> Col(S)]
AddMaps(f, g) == [S \in DOMAIN f |-> LPlus(f[S], g[S])]
ScaleMap(f, c) == [S \in DOMAIN f |-> LScale(f[S], c)]
(* a sum of operators, <<operator, coefficient>> one after the other: its  *)
(* strings                                                                 *)
SumStrings(sp, dims, labels, os) ==
  Flat([i \in 1..Len(os) |-> Map(OperatorStrings(sp, dims, LabelNumber(labels, os[i].o.l), os[i].o),
                                 LAMBDA cs : <<RMul(RInt(cs[1]), os[i].c), cs[2]>>)])
(* the series: the sum over k of the nested commutators of the sums with   *)
(* strings h and t, [..[h, t], .. t] / k!, by the binomial formula         *)
Choose_(n, k) == Fact(n) \div (Fact(k) * Fact(n - k))
SeriesMap(dims, h, t, n) ==
  LET Times(strs, k, v) == FoldLeft(LAMBDA acc, i : Apply(strs, acc), v, [i \in 1..k |-> i])
      Col(S) == FoldLeft(LAMBDA acc, kj :
                   LET k == kj[1]  j == kj[2]
                   IN LPlus(acc, LScale(Times(t, j, Apply(h, Times(t, k - j, S :> ROne))),
                                        Rat((IF j % 2 = 0 THEN 1 ELSE -1) * Choose_(k, j), Fact(k)))),
                 Empty, Flat([k \in 1..(n+1) |-> [j \in 1..k |-> <<k - 1, j - 1>>]]))
  IN [S \in SUBSET (1..NModes(dims)) |-> Col(S)]
ExprMap(sp, dims, labels, ob) ==
  LET strs == TLCEval(TableStrings(ExprTable(sp, dims, labels, ob)))
  IN [S \in SUBSET (1..NModes(dims)) |-> Apply(strs, S :> ROne)]
=============================================================================
