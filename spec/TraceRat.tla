------------------------------ MODULE TraceRat ------------------------------
(* traces of registers that hold rational numbers *)
EXTENDS Rational, TraceBase
Start(t) == <<>>
Put(g, z, x) == [n \in DOMAIN g \cup {z} |-> IF n = z THEN x ELSE g[n]]
Holds(o, x) == Canonical(o) /\ SameNum(o, x)
(* the observed form, which is the only one a number has *)
Form(o) == Num(o.n, o.d)
Made(g, e, x) == If(e.x = 0 /\ Holds(e.r, x), Put(g, e.z, Form(e.r)))
(* Numbers have up to 1024 bits; a limb is four digits.  An operation whose *)
(* intermediate numbers may not fit is exact or refused, never wrong.       *)
Limbs(x) == Max({Len(x.n.m), Len(x.d.m)})
MayOverflow(a, b) == Limbs(a) + Limbs(b) > 76
Step(sp, g, e) ==
  CASE e.op = "rset" ->
         IF e.how = 2 /\ e.d = 0 THEN If(e.x = 1, g)
         ELSE Made(g, e, IF e.how = 0 THEN Num(BZero, BOne) ELSE IF e.how = 1 THEN Num(BInt(e.n), BOne) ELSE Num(BInt(e.n), BInt(e.d)))
    [] e.op = "rsets" ->
         LET r == TLCEval(ReadText(e.ch))
         IN IF ~r.ok \/ r.v.d.s = 0 THEN If(e.x = 1, g)
            ELSE IF e.x = 1 /\ Limbs(r.v) > 76 THEN Yes(g)
            ELSE Made(g, e, r.v)
    [] e.op = "rop" ->
         LET a == g[e.a]
             b == g[e.b]
         IN IF e.f = "/" /\ IsZeroQ(b) THEN If(e.x = 1, g)
            ELSE IF e.x = 1 /\ MayOverflow(a, b) THEN Yes(g)
            ELSE Made(g, e, CASE e.f = "+" -> QAdd(a, b) [] e.f = "-" -> QSub(a, b) [] e.f = "*" -> QMul(a, b) [] e.f = "/" -> QDiv(a, b))
    [] OTHER ->
         IF e.x # 0 THEN No
         ELSE CASE e.op = "rget" -> If(Holds(e.r, g[e.a]), g)
                [] e.op = "req" -> If(e.r = SameNum(g[e.a], g[e.b]), g)
                [] e.op = "rnumden" -> If(e.r.n = g[e.a].n /\ e.r.d = g[e.a].d, g)
                [] e.op = "rtext" ->
                     LET x == g[e.a]
                     IN If(/\ GoodText(x, e.r.a, FALSE) /\ GoodText(x, e.r.b, TRUE)
                           /\ GoodLatex(x, e.r.l, TRUE) /\ GoodLatex(x, e.r.m, FALSE)
                           /\ Holds(e.r.back, x) /\ Holds(e.r.back2, x), g)
                [] e.op = "rfloat" -> If(NearDouble(g[e.a], e.r) /\ NearDecimal(g[e.a], e.r.k), g)
                [] OTHER -> No
Init == TInit(Start)
Next == TNext(Step)
=============================================================================
