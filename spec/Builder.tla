------------------------------- MODULE Builder -------------------------------
(***************************************************************************)
(* Objects built piece by piece.  Registers hold symbolic terms ("S"),     *)
(* terms with a coefficient ("T"), expressions and equations; every object *)
(* has a value of its own: what is put into another object is copied, and  *)
(* so is what is read from it.                                             *)
(*   a term        [k, t: tensors, o: operators, n: label, c: coefficient] *)
(*   an expression  as in Algebra                                          *)
(*   an equation   [l, r: terms without coefficient, c]                    *)
(* Effect(g, a): the state after action a, for which a may carry what was  *)
(* observed (the term read from an expression is any term of it).          *)
(***************************************************************************)
EXTENDS Text

NewTerm(k) == [k |-> k, t |-> <<>>, o |-> <<>>, n |-> FALSE, c |-> ROne]
Regs == [t |-> <<>>, x |-> <<>>, q |-> <<>>]
At(f, z, v) == [n \in DOMAIN f \cup {z} |-> IF n = z THEN v ELSE f[n]]
PutT(g, z, v) == [g EXCEPT !.t = At(@, z, v)]
PutX(g, z, v) == [g EXCEPT !.x = At(@, z, v)]
PutQ(g, z, v) == [g EXCEPT !.q = At(@, z, v)]
Sym(t) == [t |-> t.t, o |-> t.o, n |-> t.n]

CanDo(g, a) ==
  CASE a.op \in {"bop", "bops", "bten", "bflag"} -> a.z \in DOMAIN g.t
    [] a.op = "bset" -> a.z \in DOMAIN g.t /\ g.t[a.z].k = "S"
    [] a.op = "bcoef" -> a.z \in DOMAIN g.t /\ g.t[a.z].k = "T"
    [] a.op = "bterm" -> a.a \in DOMAIN g.t /\ g.t[a.a].k = "S"
    [] a.op = "bput" -> a.a \in DOMAIN g.t /\ a.z \in DOMAIN g.x
    [] a.op \in {"bread", "bwalk"} -> a.a \in DOMAIN g.x
    [] a.op = "bsum" -> a.a \in DOMAIN g.x /\ a.b \in DOMAIN g.x
    [] a.op = "beq" -> /\ a.a \in DOMAIN g.t /\ a.b \in DOMAIN g.t
                       /\ g.t[a.a].k = "S" /\ g.t[a.b].k = "S"
    [] a.op = "bside" -> a.a \in DOMAIN g.q
    [] OTHER -> TRUE
Effect(g, a) ==
  CASE a.op = "bnew"  -> PutT(g, a.z, NewTerm(a.k))
    [] a.op = "bexp"  -> PutX(g, a.z, Empty)
    [] a.op = "bop"   -> PutT(g, a.z, [g.t[a.z] EXCEPT !.o = Append(@, a.o)])
    [] a.op = "bops"  -> PutT(g, a.z, [g.t[a.z] EXCEPT !.o = @ \o a.os])
    [] a.op = "bset"  -> PutT(g, a.z, [g.t[a.z] EXCEPT !.o = a.os])
    [] a.op = "bten"  -> PutT(g, a.z, [g.t[a.z] EXCEPT !.t = Append(@, a.t)])
    [] a.op = "bflag" -> PutT(g, a.z, [g.t[a.z] EXCEPT !.n = a.v])
    [] a.op = "bcoef" -> PutT(g, a.z, [g.t[a.z] EXCEPT !.c = Rat(a.c[1], a.c[2])])
    [] a.op = "bterm" -> PutT(g, a.z, [g.t[a.a] EXCEPT !.k = "T"])
    [] a.op = "bput"  -> PutX(g, a.z, LAdd(g.x[a.z], TermKey(g.t[a.a]), IF a.how = "pair" THEN Rat(a.c[1], a.c[2]) ELSE g.t[a.a].c))
    [] a.op = "bsum"  -> PutX(g, a.z, CASE a.how = "add" -> LPlus(g.x[a.a], g.x[a.b])
                                        [] a.how = "sub" -> LMinus(g.x[a.a], g.x[a.b])
                                        [] a.how = "neg" -> LNeg(g.x[a.a])
                                        [] a.how = "mul" -> LScale(g.x[a.a], Rat(a.c[1], a.c[2])))
    [] a.op = "beq"   -> PutQ(g, a.z, [l |-> Sym(g.t[a.a]), r |-> Sym(g.t[a.b]), c |-> Rat(a.c[1], a.c[2])])
    \* every term, as read, is added to its expression again with a multiple
    \* of its coefficient, while the expression is being read
    [] a.op = "bwalk" -> PutX(g, a.a, LScale(g.x[a.a], RAdd(ROne, Rat(a.c[1], a.c[2]))))
    [] OTHER -> g

(* what is seen of a term: its text and its LaTeX form, the tensors and    *)
(* operators of a symbolic term, and the expression that has only it       *)
GoodTerm(sp, t, o) ==
  LET tt == [t |-> t.t, o |-> t.o, n |-> t.n, c |-> t.c]
  IN /\ o.s = (IF t.k = "S" THEN TermText(sp, tt) ELSE WholeTermText(sp, tt))
     /\ o.tex = (IF t.k = "S" THEN TermTex(sp, tt) ELSE WholeTermTex(sp, tt, TRUE))
     /\ t.k = "S" => o.t = t.t /\ o.o = t.o
     /\ WellFormed(o.x) /\ ObsExpr(o.x) = LAdd(Empty, TermKey(t), t.c)
GoodEq(sp, q, o) ==
  /\ o.l.t = q.l.t /\ o.l.o = q.l.o /\ o.r.t = q.r.t /\ o.r.o = q.r.o /\ o.c = q.c
  /\ TermKey(o.l) = TermKey(q.l) /\ TermKey(o.r) = TermKey(q.r)
  /\ WellFormed(o.x) /\ ObsExpr(o.x) = LAdd(Empty, TermKey(q.r), q.c)
  /\ o.s = TermText(sp, q.l) \o " += " \o CoefText(q.c, FALSE) \o " " \o TermText(sp, q.r)
Seen(sp, g, o) ==
  /\ DOMAIN o.t = DOMAIN g.t /\ DOMAIN o.x = DOMAIN g.x /\ DOMAIN o.q = DOMAIN g.q
  /\ \A z \in DOMAIN g.t : GoodTerm(sp, g.t[z], o.t[z])
  /\ \A z \in DOMAIN g.x : WellFormed(o.x[z].e) /\ ObsExpr(o.x[z].e) = g.x[z] /\ o.x[z].s = ExprText(sp, o.x[z].e)
                           /\ o.x[z].eq
  /\ \A z \in DOMAIN g.q : GoodEq(sp, g.q[z], o.q[z])
=============================================================================
