------------------------------ MODULE TraceFock ------------------------------
(***************************************************************************)
(* Contraction answers read as linear maps.  An event `contract' with the  *)
(* full window carries d, the number of modes of each space; its answer    *)
(* must be, as a linear map on Fock space, the sum of the products of      *)
(* operators asked.                                                        *)
(***************************************************************************)
EXTENDS Fock, TraceBase
EQ == INSTANCE Equations

Start(t) == [v |-> 0]
Labels(e) == SetToSeq(UNION {{e.e[i].p[j].l : j \in 1..Len(e.e[i].p)} : i \in 1..Len(e.e)})

Asked(sp, e) ==
  FoldLeft(LAMBDA acc, q : AddMaps(acc, ProductMap(sp, e.d, Labels(e), q.p, RMul(e.f, q.c))),
           [S \in SUBSET (1..NModes(e.d)) |-> Empty], e.e)
(* the expectation value in the reference *)
Reference(sp, e) == {m \in 1..NModes(e.d) : Filled(sp, e.d, m)}
ExpectationOf(f, R) == IF R \in DOMAIN f[R] THEN f[R][R] ELSE RZero

Contract(sp, s, e) ==
  IF e.x # 0 THEN No
  ELSE IF e.hi >= 100 THEN If(Asked(sp, e) = ExprMap(sp, e.d, Labels(e), e.r), s)
  ELSE (* only the fully contracted part was asked *)
       LET R == Reference(sp, e)
           tab == ExprTable(sp, e.d, Labels(e), e.r)
       IN If(/\ \A i \in 1..Len(e.r) : e.r[i].o = <<>>
             /\ ExpectationOf(Asked(sp, e), R) = (IF <<>> \in DOMAIN tab THEN tab[<<>>] ELSE RZero), s)

(* ----------------- from operators to code ------------------------------- *)
(* The code of an equation: target label tl and block tb, factors f with   *)
(* label l, block b and symbols s, symbols ts of the target, number num,   *)
(* and the factor c of the equation.  All that the code says is read back  *)
(* into a term: symbols are indices, a block gives the spaces, an operator *)
(* label has as many upper indices as the operator has annihilators.       *)
SpaceNo(sp, ch) == CHOOSE s \in 1..Len(sp) : sp[s].l = ch
AllOps(e) == Flat(Map(e.e, LAMBDA q : q.p))
Uppers(ops, l, n) == IF \E i \in 1..Len(ops) : ops[i].l = l
                     THEN SeqSum(ops[CHOOSE i \in 1..Len(ops) : ops[i].l = l].a) ELSE n \div 2
CodeSlots(q) == Flat(Map(q.f, LAMBDA f : [j \in 1..Len(f.s) |-> <<f.s[j], f.b[j]>>])) \o [j \in 1..Len(q.ts) |-> <<q.ts[j], q.tb[j]>>]
GoodCode(sp, e, q) ==
  /\ \A k \in 1..Len(q.f) : Len(q.f[k].s) = Len(q.f[k].b)
  /\ Len(q.ts) = Len(q.tb) /\ q.up <= Len(q.ts)
  /\ q.tl = e.tl /\ q.op = "+=" /\ EQ!Rounded(q.num, q.c, q.dg)
  /\ LET ss == CodeSlots(q)
     IN /\ \A k \in 1..Len(ss) : \E s \in 1..Len(sp) : sp[s].l = ss[k][2]
        /\ \A j, k \in 1..Len(ss) : ss[j][1] = ss[k][1] => ss[j][2] = ss[k][2]
CodeTerm(sp, ops, q) ==
  LET ss == CodeSlots(q)
      syms == SetToSeq({ss[k][1] : k \in 1..Len(ss)})
      Ix(sy, ch) == <<SpaceNo(sp, ch) - 1, CHOOSE i \in 1..Len(syms) : syms[i] = sy>>
      Is(s, b) == [j \in 1..Len(s) |-> Ix(s[j], b[j])]
      T(f) == LET is == Is(f.s, f.b)  u == Uppers(ops, f.l, Len(is))
              IN [l |-> f.l, u |-> SubSeq(is, 1, u), d |-> SubSeq(is, u + 1, Len(is))]
      out == Is(q.ts, q.tb)
  IN [t |-> Map(q.f, T), c |-> q.c, n |-> FALSE,
      o |-> Map(SubSeq(out, q.up + 1, Len(out)), OpCre) \o Map(Rev(SubSeq(out, 1, q.up)), OpAnn)]
CodeMap(sp, e, labels, ops) == ExprMap(sp, e.d, labels, Map(e.r, LAMBDA q : CodeTerm(sp, ops, q)))

Flow(sp, s, e) ==
  IF e.x # 0 \/ \E k \in 1..Len(e.r) : ~GoodCode(sp, e, e.r[k]) THEN No
  ELSE If(Asked(sp, e) = CodeMap(sp, e, Labels(e), AllOps(e)), s)

(* the series of h and t (sums of operators), contracted and compiled      *)
Ops2(e) == Map(e.h \o e.t, LAMBDA q : q.o)
Labels2(e) == SetToSeq({Ops2(e)[i].l : i \in 1..Len(Ops2(e))})
Series(sp, s, e) ==
  LET labels == Labels2(e)
      want == ScaleMap(SeriesMap(e.d, SumStrings(sp, e.d, labels, e.h), SumStrings(sp, e.d, labels, e.t), e.n), e.f)
  IN IF e.x # 0 THEN No
     ELSE IF e.fmt = "" THEN If(want = ExprMap(sp, e.d, labels, e.r), s)
     ELSE IF \E k \in 1..Len(e.r) : ~GoodCode(sp, e, e.r[k]) THEN No
     ELSE If(want = CodeMap(sp, e, labels, Ops2(e)), s)
Step(sp, s, e) ==
  CASE e.op \in {"eng", "maxcum", "single", "graph"} -> If(e.x = 0, s)
    [] e.op = "contract" -> Contract(sp, s, e)
    [] e.op = "flow" -> Flow(sp, s, e)
    [] e.op = "series" -> Series(sp, s, e)
    [] OTHER -> No
Init == TInit(Start)
Next == TNext(Step)
=============================================================================
