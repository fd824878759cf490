----------------------------- MODULE BigAlgebra -----------------------------
(***************************************************************************)
(* The vector space and algebra of expressions over the rational numbers   *)
(* of any size.  A linear combination is a function from keys to nonzero   *)
(* numbers (Rational); results are compared by cross multiplication, and   *)
(* the observed coefficients must be canonical.                            *)
(***************************************************************************)
EXTENDS Terms
Q == INSTANCE Rational
QZero == Q!Num(Q!BZero, Q!BOne)
QNeg(x) == Q!Num(Q!BNeg(x.n), x.d)
QNone == [k \in {} |-> QZero]
QFilter(f) == LET D == {k \in DOMAIN f : ~(Q!IsZeroQ(f[k]))} IN [k \in D |-> f[k]]
QAt(f, k) == IF k \in DOMAIN f THEN f[k] ELSE QZero
QPlus(f, g) == QFilter(TLCEval([k \in DOMAIN f \cup DOMAIN g |->
                 IF k \notin DOMAIN g THEN f[k] ELSE IF k \notin DOMAIN f THEN g[k] ELSE Q!QAdd(f[k], g[k])]))
QNegE(f) == [k \in DOMAIN f |-> QNeg(f[k])]
QScale(f, c) == IF Q!IsZeroQ(c) THEN QNone ELSE TLCEval([k \in DOMAIN f |-> Q!QMul(f[k], c)])
QSum(s) == FoldLeft(QPlus, QNone, s)   \* of one-term combinations
QOne(k, c) == QFilter(k :> c)
QTimes(f, g) == QSum(Map(SetSeq((DOMAIN f) \X (DOMAIN g)), LAMBDA p : QOne(TermMul(p[1], p[2]), Q!QMul(f[p[1]], g[p[2]]))))
QDot(f, g) == FoldLeft(LAMBDA x, y : Q!QAdd(x, y), QZero, Map(SetSeq(DOMAIN f \cap DOMAIN g), LAMBDA k : Q!QMul(f[k], g[k])))
QSame(f, g) == DOMAIN f = DOMAIN g /\ \A k \in DOMAIN f : Q!SameNum(f[k], g[k])
QOf(seq) == QSum([i \in 1..Len(seq) |-> QOne(TermKey(seq[i]), Q!Num(seq[i].c.n, seq[i].c.d))])
(* an observed expression: canonical coefficients, none zero, no key twice *)
QGood(ob) == /\ \A i \in 1..Len(ob) : Q!Canonical(ob[i].c) /\ ~(Q!IsZeroQ(ob[i].c))
             /\ \A i, j \in 1..Len(ob) : TermKey(ob[i]) = TermKey(ob[j]) => i = j
QPut(g, z, f) == [n \in DOMAIN g \cup {z} |-> IF n = z THEN f ELSE g[n]]
(* products of labelled terms are refused; here no term has a label         *)
QEffect(g, a) ==
  CASE a.op = "qlet"   -> QPut(g, a.z, QOf(a.e))
    [] a.op = "qadd"   -> QPut(g, a.z, QPlus(g[a.a], g[a.b]))
    [] a.op = "qsub"   -> QPut(g, a.z, QPlus(g[a.a], QNegE(g[a.b])))
    [] a.op = "qneg"   -> QPut(g, a.z, QNegE(g[a.a]))
    [] a.op = "qscale" -> QPut(g, a.z, QScale(g[a.a], Q!Num(a.c.n, a.c.d)))
    [] a.op = "qmul"   -> QPut(g, a.z, QTimes(g[a.a], g[a.b]))
    [] OTHER -> g
QValue(g, a, o) ==
  CASE a.op = "qeq"  -> o = QSame(g[a.a], g[a.b])
    [] a.op = "qdot" -> Q!Canonical(o) /\ Q!SameNum(o, QDot(g[a.a], g[a.b]))
    [] OTHER -> TRUE
(* registers as observed *)
QSeen(g, o) == /\ DOMAIN o = DOMAIN g
               /\ \A n \in DOMAIN g : QGood(o[n]) /\ QSame(QOf(o[n]), g[n])
QForm(o) == [n \in DOMAIN o |-> QOf(o[n])]
QStep(g, a, r) == [ok |-> QSeen(QEffect(g, a), r.g) /\ QValue(g, a, r.v), st |-> QForm(r.g)]
=============================================================================
