----------------------------- MODULE Backtrack -----------------------------
(***************************************************************************)
(* The search of the engine for the contractions of a product, step by     *)
(* step.  The elementary contractions stand in a fixed order; the search   *)
(* extends a path of elementary contractions by one whose number is not    *)
(* smaller than the last and that fits the legs still free, reports every  *)
(* path whose free legs lie in the window, and takes the last step back    *)
(* when no extension is left.  An engine answers one question after the    *)
(* other; its lists are cleared at the start of a question (Clear).        *)
(*                                                                         *)
(* What is proved of it (by exhaustion, MCBacktrack):                      *)
(*   Conserved: free legs and legs on the path are the legs of the product *)
(*   Sorted:    paths do not decrease, so that no choice comes twice       *)
(*   Complete:  when the search ends, the reported paths are exactly the   *)
(*              choices of multiplicities in the window, each once: the    *)
(*              expansion of WickOracle                                    *)
(*   and the search ends.                                                  *)
(* The answer to a question does not depend on the questions before.       *)
(***************************************************************************)
EXTENDS WickOracle
CONSTANTS Clear, MaxAsked
VARIABLES q,      \* number of the question being answered, 0: idle
          asked,  \* number of questions so far
          el,     \* the elementary contractions
          path,   \* the path, numbers of elementary contractions
          nxt,    \* at every depth the next number to try
          free,   \* the legs still free
          out     \* the reported paths
bvars == <<q, asked, el, path, nxt, free, out>>

Legs0(sp, p) == [x \in LegKinds(sp, p) |-> LegCount(p, x)]
Fits(b, f) == \A x \in DOMAIN b : b[x] <= f[x]
Minus(f, b) == [x \in DOMAIN f |-> IF x \in DOMAIN b THEN f[x] - b[x] ELSE f[x]]
Plus(f, b) == [x \in DOMAIN f |-> IF x \in DOMAIN b THEN f[x] + b[x] ELSE f[x]]
InWindow(f, lo, hi) == Remaining(f) >= lo /\ Remaining(f) <= hi
Report(pth, f, lo, hi, o) == IF InWindow(f, lo, hi) THEN Append(o, pth) ELSE o

BInit == q = 0 /\ asked = 0 /\ el = <<>> /\ path = <<>> /\ nxt = <<>> /\ free = <<>> /\ out = <<>>
Ask(sp, n, p, maxcum, lo, hi) ==
  /\ q = 0 /\ asked < MaxAsked
  /\ q' = n /\ asked' = asked + 1
  /\ el' = (IF Clear THEN <<>> ELSE el) \o SetSeq(Blocks(sp, p, maxcum))
  /\ path' = <<>> /\ nxt' = <<1>>
  /\ free' = Legs0(sp, p)
  /\ out' = Report(<<>>, Legs0(sp, p), lo, hi, IF Clear THEN <<>> ELSE out)
Top(s) == s[Len(s)]
Extend(lo, hi) ==
  /\ q # 0 /\ Top(nxt) <= Len(el)
  /\ LET c == Top(nxt) IN
     IF DOMAIN el[c].b \subseteq DOMAIN free /\ Fits(el[c].b, free)
     THEN /\ path' = Append(path, c)
          /\ nxt' = Append([nxt EXCEPT ![Len(nxt)] = c + 1], c)
          /\ free' = Minus(free, el[c].b)
          /\ out' = Report(path', free', lo, hi, out)
     ELSE /\ nxt' = [nxt EXCEPT ![Len(nxt)] = c + 1]
          /\ UNCHANGED <<path, free, out>>
  /\ UNCHANGED <<q, asked, el>>
Retreat ==
  /\ q # 0 /\ Top(nxt) > Len(el) /\ path # <<>>
  /\ free' = Plus(free, el[Top(path)].b)
  /\ path' = SubSeq(path, 1, Len(path) - 1)
  /\ nxt' = SubSeq(nxt, 1, Len(nxt) - 1)
  /\ UNCHANGED <<q, asked, el, out>>
Finish ==
  /\ q # 0 /\ Top(nxt) > Len(el) /\ path = <<>>
  /\ q' = 0
  /\ UNCHANGED <<asked, el, path, nxt, free, out>>

(* the multiplicities of a path, as a choice of the expansion *)
Mult(e, pth) ==
  LET n(i) == Cardinality({j \in 1..Len(pth) : pth[j] = i})
      used == SelectSeq([i \in 1..Len(e) |-> i], LAMBDA i : n(i) > 0)
  IN Map(used, LAMBDA i : <<e[i], n(i)>>)
Conserved(sp, p) == q # 0 => FoldLeft(LAMBDA f, c : Plus(f, el[c].b), free, path) = Legs0(sp, p)
Sorted == \A i \in 1..(Len(path) - 1) : path[i] <= path[i+1]
Complete(sp, p, lo, hi) ==
  LET want == {ch[1] : ch \in {ch \in Selections(el, 1, Legs0(sp, p)) : InWindow(ch[2], lo, hi)}}
  IN /\ {Mult(el, out[i]) : i \in 1..Len(out)} = want
     /\ Len(out) = Cardinality(want)
=============================================================================
