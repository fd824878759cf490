------------------------------ MODULE Basics ------------------------------
(***************************************************************************)
(* Exact rational numbers <<numerator, denominator>> in canonical form,    *)
(* finite sequences, permutation parity: the arithmetic used by every      *)
(* other module.  Numbers that come from the implementation and do not fit *)
(* the range used here are logged as <<1,0>>, which is not a rational, so  *)
(* that a comparison with it always fails.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE Gcd(_,_)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

Rat(n, d) == IF n = 0 THEN <<0,1>>
             ELSE LET g == Gcd(Abs(n), Abs(d))
                      s == IF d < 0 THEN -1 ELSE 1
                  IN <<s * (n \div g), s * (d \div g)>>
RZero == <<0,1>>
ROne == <<1,1>>
IsRat(r) == r[2] > 0 /\ Gcd(Abs(r[1]), r[2]) = 1
RNeg(a) == <<-a[1], a[2]>>
RAdd(a, b) == IF a[2] = b[2] THEN Rat(a[1] + b[1], a[2])
              ELSE LET g == Gcd(a[2], b[2])
                   IN Rat(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN RZero
              ELSE LET g == Gcd(Abs(a[1]), b[2])
                       h == Gcd(Abs(b[1]), a[2])
                   IN <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
RInt(n) == <<n, 1>>

RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Binom(_,_)
Binom(n, k) == IF k > n THEN 0 ELSE IF k = 0 \/ k = n THEN 1 ELSE Binom(n-1,k-1) + Binom(n-1,k)

SumF(f(_), S) == FoldSet(LAMBDA x, acc : f(x) + acc, 0, S)
SeqSum(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
Map(s, f(_)) == [i \in 1..Len(s) |-> f(s[i])]
Filter(s, p(_)) == SelectSeq(s, p)
Flat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Range1(s) == {s[i] : i \in 1..Len(s)}

(* parity of a sequence of integers without repetitions: number of inversions *)
Inversions(s) ==
  FoldLeft(LAMBDA acc, i : acc + Cardinality({j \in (i+1)..Len(s) : s[i] > s[j]}), 0,
           [i \in 1..Len(s) |-> i])
ParitySign(s) == IF Inversions(s) % 2 = 0 THEN 1 ELSE -1

(* a deterministic enumeration of a finite set (equal sets, equal sequences) *)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>>
             ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

(* insertion sort of a sequence of integers *)
SortInts(s) == SortSeq(s, LAMBDA a, b : a < b)

(* ------------------------- linear combinations ------------------------- *)
(* A linear combination is a function from a finite set of keys to nonzero *)
(* rationals.                                                              *)
Empty == [x \in {} |-> RZero]
LAdd(f, k, c) ==
  IF c[1] = 0 THEN f
  ELSE IF k \in DOMAIN f
       THEN LET v == RAdd(f[k], c)
            IN IF v[1] = 0 THEN [x \in DOMAIN f \ {k} |-> f[x]]
               ELSE [f EXCEPT ![k] = v]
       ELSE f @@ (k :> c)
LPlus(f, g) ==
  LET D == DOMAIN f \cup DOMAIN g
      V(x) == IF x \in DOMAIN f THEN IF x \in DOMAIN g THEN RAdd(f[x], g[x]) ELSE f[x] ELSE g[x]
      S == {x \in D : V(x)[1] # 0}
  IN [x \in S |-> V(x)]
LScale(f, c) == IF c[1] = 0 THEN Empty ELSE [x \in DOMAIN f |-> RMul(c, f[x])]
LNeg(f) == [x \in DOMAIN f |-> RNeg(f[x])]
LMinus(f, g) == LPlus(f, LNeg(g))
(* sum of the pairs <<key, coefficient>> of a sequence *)
LOfSeq(s) == FoldLeft(LAMBDA acc, p : LAdd(acc, p[1], p[2]), Empty, s)
(* product of two linear combinations over a product of keys *)
LTimes(f, g, mul(_,_)) ==
  FoldSet(LAMBDA a, acc1 :
            FoldSet(LAMBDA b, acc2 : LAdd(acc2, mul(a, b), RMul(f[a], g[b])), acc1, DOMAIN g),
          Empty, DOMAIN f)
LDot(f, g) == FoldSet(LAMBDA x, acc : RAdd(acc, RMul(f[x], g[x])), RZero, DOMAIN f \cap DOMAIN g)
===========================================================================
