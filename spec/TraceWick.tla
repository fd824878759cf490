------------------------------ MODULE TraceWick ------------------------------
(***************************************************************************)
(* Traces of contraction engines.  State: engine name -> engine, and the   *)
(* answers given so far to each question (an engine must repeat itself).   *)
(***************************************************************************)
EXTENDS Engine, TraceBase
BN == INSTANCE BigNum

Start(t) == [eng |-> <<>>, ans |-> <<>>]

EngineOf(st, k) == st.eng[CHOOSE i \in 1..Len(st.eng) : st.eng[i].k = k].e
SetEngine(st, k, g) ==
  LET D == {i \in 1..Len(st.eng) : st.eng[i].k = k}
  IN IF D = {} THEN [st EXCEPT !.eng = Append(@, [k |-> k, e |-> g])]
     ELSE [st EXCEPT !.eng[CHOOSE i \in D : TRUE].e = g]

Exprs(e) == [i \in 1..Len(e.e) |-> <<e.e[i].p, e.e[i].c>>]
Factor(e) == e.f

(* questions are compared by what they ask; the answer is recorded with    *)
(* its exact form, so a repeated question must get the identical answer    *)
QKey(st, e) == <<e.e, e.f, e.lo, e.hi, EngineOf(st, e.k).maxcum, e.g>>
Known(st, q) == {i \in 1..Len(st.ans) : st.ans[i].q = q}

Contract(sp, st, e) ==
  IF e.x # 0 \/ ~e.kept THEN No
  ELSE LET q == QKey(st, e)
           k == Known(st, q)
           form == ObsExpr(e.r)
       IN IF k # {} THEN If(st.ans[CHOOSE i \in k : TRUE].a = form, st)
          ELSE IF /\ GoodShape(e.r, e.lo, e.hi)
                  /\ Value(sp, AsNormal(e.r)) = Answer(sp, EngineOf(st, e.k), Exprs(e), Factor(e), e.lo, e.hi)
               THEN Yes([st EXCEPT !.ans = Append(@, [q |-> q, a |-> form])])
               ELSE No

(* n repetitions gave exactly one answer *)
ContractN(sp, st, e) ==
  IF e.x # 0 THEN No
  ELSE IF Len(e.r) # 1 THEN No
  ELSE Contract(sp, st, [e EXCEPT !.r = e.r[1]])

(* One product of differently labelled operators, with coefficients of any *)
(* size: every choice of multiplicities has a term of its own, with the    *)
(* coefficient one over PROD_b (b!)^m m! PROD rest!                        *)
NFact(n) == FoldLeft(LAMBDA acc, k : BN!NMul(acc, BN!OfInt(k)), <<1>>, [k \in 1..n |-> k])
NBag(b) == FoldSet(LAMBDA x, acc : BN!NMul(acc, NFact(b[x])), <<1>>, DOMAIN b)
NWeight(choice, rem) ==
  FoldLeft(LAMBDA acc, ch : BN!NMul(acc, FoldLeft(LAMBDA a2, k : BN!NMul(a2, NBag(ch[1].b)), NFact(ch[2]), [k \in 1..ch[2] |-> k])),
           NBag(rem), choice)
(* all choices of at most m blocks *)
RECURSIVE FewBlocks(_,_,_,_)
FewBlocks(bs, i, rem, m) ==
  IF i > Len(bs) THEN {<< <<>>, rem >>}
  ELSE LET b == bs[i].b
           top == Min({rem[x] \div b[x] : x \in DOMAIN b} \cup {m})
       IN UNION {LET r == [x \in DOMAIN rem |-> IF x \in DOMAIN b THEN rem[x] - k * b[x] ELSE rem[x]]
                 IN IF k = 0 THEN FewBlocks(bs, i + 1, r, m)
                    ELSE {<< <<<<bs[i], k>>>> \o ch[1], ch[2] >> : ch \in FewBlocks(bs, i + 1, r, m - k)}
                 : k \in 0..top}
(* With e.m the question is about the terms with at most e.m densities and *)
(* cumulants (only general spaces: one tensor for every block).            *)
ContractBig(sp, st, e) ==
  LET ops == e.e[1].p
      legs == Legs(sp, ops)
      rem0 == [x \in LegKinds(sp, ops) |-> LegCount(ops, x)]
      bs == SetSeq(Blocks(sp, ops, EngineOf(st, e.k).maxcum))
      few == "m" \in DOMAIN e
      C == {ch \in (IF few THEN FewBlocks(bs, 1, rem0, e.m) ELSE Selections(bs, 1, rem0)) :
              Remaining(ch[2]) >= e.lo /\ Remaining(ch[2]) <= e.hi}
      R == IF few THEN SelectSeq(e.r, LAMBDA tm : Len(tm.t) <= Len(ops) + e.m) ELSE e.r
      Form(c, s, w) == <<c.k, c.f, c.s * s, w>>
      want == {LET tm == Representative(sp, ops, legs, ch[1])
               IN Form(Class(sp, tm), tm.c[1], NWeight(ch[1], ch[2])) : ch \in C}
      seen == {Form(Class(sp, [tm EXCEPT !.n = TRUE]), tm.c.n.s, tm.c.d.m) : tm \in Range1(R)}
  IN If(/\ e.x = 0 /\ e.kept
        /\ \A i \in 1..Len(e.r) : e.r[i].c.n.m = <<1>> /\ e.r[i].c.d.s = 1 /\ Len(e.r[i].o) >= e.lo /\ Len(e.r[i].o) <= e.hi
        /\ Cardinality(want) = Cardinality(C) /\ Len(R) = Cardinality(C)
        /\ want = seen, st)

(* A contraction with many terms is recorded by a token that stands for    *)
(* its exact text, and by the number of its terms.  The first token given  *)
(* to a question is the answer, for every engine with the same settings,   *)
(* with one thread or with many.  For differently labelled operators (and  *)
(* no renaming of equivalent terms) every choice of multiplicities in the  *)
(* window has a term of its own.                                           *)
ContractTok(sp, st, e) ==
  LET q == QKey(st, e)
      k == Known(st, q)
      ops == e.e[1].p
      count == LET rem0 == [x \in LegKinds(sp, ops) |-> LegCount(ops, x)]
                   bs == SetSeq(Blocks(sp, ops, EngineOf(st, e.k).maxcum))
               IN Cardinality({ch \in Selections(bs, 1, rem0) : Remaining(ch[2]) >= e.lo /\ Remaining(ch[2]) <= e.hi})
  IN IF e.x # 0 \/ ~e.kept THEN No
     ELSE IF k # {} THEN If(st.ans[CHOOSE i \in k : TRUE].a = e.r, st)
     ELSE If(Len(e.r) = 1 /\ (~e.count \/ e.r[1].n = count), [st EXCEPT !.ans = Append(@, [q |-> q, a |-> e.r])])

Answer1(sp, s, e) ==
  CASE e.op = "eng"      -> If(e.x = 0, SetEngine(s, e.k, NewEngine))
    [] e.op = "maxcum"   -> If(e.x = 0, SetEngine(s, e.k, SetMaxCumulant(EngineOf(s, e.k), e.v)))
    [] e.op = "single"   -> If(e.x = 0, SetEngine(s, e.k, SetSingle(EngineOf(s, e.k), e.v)))
    [] e.op = "graph"    -> If(e.x = 0, SetEngine(s, e.k, SetGraph(EngineOf(s, e.k), e.v)))
    [] e.op = "setprint" -> If(e.x = 0, SetEngine(s, e.k, SetPrint(EngineOf(s, e.k), e.v)))
    [] e.op = "timers"   -> If(e.x = 0, s)
    [] e.op = "warm"     -> If(e.x = 0, s)  \* work under another registry leaves no trace
    [] e.op = "fail"     -> If(e.kept, s)   \* a question too large for the library, refused or not
    [] e.op = "contract" -> Contract(sp, s, e)
    [] e.op = "contract_big" -> ContractBig(sp, s, e)
    [] e.op = "contract_tok" -> ContractTok(sp, s, e)
    [] e.op = "contract_n" -> ContractN(sp, s, e)
    [] OTHER -> No

(* an event may carry the number of unsynchronized conflicting accesses    *)
(* seen while it ran                                                       *)
Step(sp, s, e) == IF "races" \in DOMAIN e /\ e.races # 0 THEN No ELSE Answer1(sp, s, e)

Init == TInit(Start)
Next == TNext(Step)
=============================================================================
