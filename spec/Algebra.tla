------------------------------ MODULE Algebra ------------------------------
(***************************************************************************)
(* Expressions as a state machine: registers that hold expressions, and    *)
(* the operations of the algebra.  An expression is a linear combination   *)
(* (Basics) of terms (Terms!TermKey).                                      *)
(*                                                                         *)
(* Effect(regs, a) is the effect of action a: [ok: the call is not         *)
(* refused, g: registers after, v: value returned].                        *)
(***************************************************************************)
EXTENDS Terms

ExprOf(seq) == LOfSeq([i \in 1..Len(seq) |-> <<TermKey(seq[i]), seq[i].c>>])
HasFlag(f) == \E k \in DOMAIN f : k.n
MulRefused(f, g) == DOMAIN f # {} /\ DOMAIN g # {} /\ (HasFlag(f) \/ HasFlag(g))
Put(g, z, f) == [n \in DOMAIN g \cup {z} |-> IF n = z THEN f ELSE g[n]]
Done(g, z, f) == [ok |-> TRUE, g |-> Put(g, z, f), v |-> 0]
Says(g, v) == [ok |-> TRUE, g |-> g, v |-> v]
Refuses(g) == [ok |-> FALSE, g |-> g, v |-> 0]

Effect(g, a) ==
  CASE a.op = "xnew"   -> Done(g, a.z, Empty)
    [] a.op = "xlet"   -> Done(g, a.z, ExprOf(a.e))
    [] a.op = "xcopy"  -> Done(g, a.z, g[a.a])
    [] a.op = "xadd"   -> Done(g, a.z, LPlus(g[a.a], g[a.b]))
    [] a.op = "xsub"   -> Done(g, a.z, LMinus(g[a.a], g[a.b]))
    [] a.op = "xneg"   -> Done(g, a.z, LNeg(g[a.a]))
    [] a.op = "xmul"   -> IF MulRefused(g[a.a], g[a.b]) THEN Refuses(g) ELSE Done(g, a.z, EMul(g[a.a], g[a.b]))
    [] a.op = "xscale" -> Done(g, a.z, LScale(g[a.a], Rat(a.c[1], a.c[2])))
    [] a.op = "xadj"   -> Done(g, a.z, EAdjoint(g[a.a]))
    [] a.op = "xiadd"  -> Done(g, a.z, LAdd(g[a.z], TermKey(a.t), IF a.how = "sym" THEN ROne ELSE a.t.c))
    [] a.op = "xiaddx" -> Done(g, a.z, IF a.how = "-" THEN LMinus(g[a.z], g[a.a]) ELSE LPlus(g[a.z], g[a.a]))
    [] a.op = "xeq"    -> Says(g, g[a.a] = g[a.b])
    [] a.op = "xlen"   -> Says(g, Cardinality(DOMAIN g[a.a]))
    [] a.op = "xdot"   -> Says(g, LDot(g[a.a], g[a.b]))
    [] a.op = "xnorm"  -> Says(g, LDot(g[a.a], g[a.a]))
    [] OTHER -> [ok |-> FALSE, g |-> <<>>, v |-> 0]

(* the value returned, as observed.  The norm is observed as the nearest   *)
(* integer to 1000 times its square.                                       *)
GoodValue(a, v, o) ==
  IF a.op = "xnorm" THEN Abs(o * v[2] - 1000 * v[1]) <= v[2] ELSE o = v
=============================================================================
