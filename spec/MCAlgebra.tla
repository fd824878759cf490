------------------------------ MODULE MCAlgebra ------------------------------
(***************************************************************************)
(* The algebra of expressions: two registers, every operation from every   *)
(* small state, and in every state the laws that users rely on.            *)
(***************************************************************************)
EXTENDS Algebra
CONSTANTS MaxSteps
VARIABLES g, n
T(l, u, d) == [l |-> l, u |-> u, d |-> d]
Tm(ts, o, fl) == [t |-> ts, o |-> o, n |-> fl]
o0 == <<0,0>>  o1 == <<0,1>>  v0 == <<1,0>>
Pool == << Empty,
           Tm(<<>>, <<>>, FALSE) :> <<1,2>>,
           (Tm(<<T("T", <<o0>>, <<v0>>)>>, <<OpCre(v0), OpAnn(o0)>>, FALSE) :> <<1,1>>) @@ (Tm(<<>>, <<OpCre(o1)>>, FALSE) :> <<-1,3>>),
           Tm(<<T("T", <<o0>>, <<v0>>)>>, <<OpCre(v0), OpAnn(o0)>>, FALSE) :> <<-1,1>>,
           (Tm(<<>>, <<OpCre(o1)>>, FALSE) :> <<1,3>>) @@ (Tm(<<>>, <<OpAnn(o0), OpCre(v0)>>, TRUE) :> <<2,1>>),
           Tm(<<T("F", <<>>, <<o1>>), T("T", <<o0>>, <<v0>>)>>, <<>>, FALSE) :> <<3,2>> >>
Scalars == {<<0,1>>, <<-1,1>>, <<2,3>>}
Lit == [op |-> "xlen", a |-> "a"]
Init == /\ n = 0
        /\ \E i, j \in 1..Len(Pool) : g = [r \in {"a", "b"} |-> IF r = "a" THEN Pool[i] ELSE Pool[j]]
Small(f) == Cardinality(DOMAIN f) <= 8 /\ \A k \in DOMAIN f : Len(k.o) <= 4 /\ Len(k.t) <= 4
Do(a) == LET r == Effect(g, a) IN (\A x \in DOMAIN r.g : Small(r.g[x])) /\ g' = r.g
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \E z, x, y \in {"a", "b"} :
             \/ Do([op |-> "xadd", z |-> z, a |-> x, b |-> y]) \/ Do([op |-> "xsub", z |-> z, a |-> x, b |-> y])
             \/ Do([op |-> "xmul", z |-> z, a |-> x, b |-> y]) \/ Do([op |-> "xcopy", z |-> z, a |-> x])
             \/ Do([op |-> "xneg", z |-> z, a |-> x]) \/ Do([op |-> "xadj", z |-> z, a |-> x])
             \/ \E c \in Scalars : Do([op |-> "xscale", z |-> z, a |-> x, c |-> c])
A == g["a"]
B == g["b"]
Proper(f) == \A k \in DOMAIN f : IsRat(f[k]) /\ f[k][1] # 0
Plain == ~HasFlag(A) /\ ~HasFlag(B)
C == Pool[3]  \* a third expression for the laws of three
Laws ==
  /\ Proper(A) /\ Proper(B)
  /\ LPlus(A, B) = LPlus(B, A) /\ LMinus(LPlus(A, B), B) = A /\ LMinus(A, A) = Empty
  /\ LPlus(LPlus(A, B), C) = LPlus(A, LPlus(B, C))
  /\ \A c \in Scalars : LScale(LPlus(A, B), c) = LPlus(LScale(A, c), LScale(B, c))
  /\ EAdjoint(EAdjoint(A)) = A /\ EAdjoint(LPlus(A, B)) = LPlus(EAdjoint(A), EAdjoint(B))
  /\ Plain => /\ EAdjoint(EMul(A, B)) = LTimes(EAdjoint(B), EAdjoint(A), LAMBDA x, y : [t |-> y.t \o x.t, o |-> x.o \o y.o, n |-> FALSE])
              /\ EMul(EMul(A, B), C) = EMul(A, EMul(B, C))
              /\ EMul(A, LPlus(B, C)) = LPlus(EMul(A, B), EMul(A, C))
              /\ EMul(LPlus(A, B), C) = LPlus(EMul(A, C), EMul(B, C))
  /\ LDot(A, B) = LDot(B, A) /\ LDot(LPlus(A, B), C) = RAdd(LDot(A, C), LDot(B, C))
  /\ LDot(A, A)[1] >= 0 /\ (LDot(A, A)[1] = 0) = (A = Empty)
(* the operand that is not assigned is kept (a property of every step) *)
Kept == [][\E r \in {"a", "b"} : g'[r] = g[r]]_<<g, n>>
Spec == Init /\ [][Next]_<<g, n>>
=============================================================================
