------------------------------- MODULE MCText -------------------------------
(***************************************************************************)
(* Texts and equations.  A behaviour builds a term piece by piece.  In     *)
(* every state                                                             *)
(*  RoundTrip: reading the printed line gives the term and its coefficient *)
(*     (also with the sign of a later line, with more blanks, and as one   *)
(*     of several lines); so different terms have different texts          *)
(*  TexTells:  the LaTeX form of the term tells it apart from the term     *)
(*     before the step                                                     *)
(*  Equation:  the many-body equation of a normal-ordered term has all of  *)
(*     it: the term can be put together again from its two sides           *)
(*  LettersExact: an assignment of letters to the index positions of an       *)
(*     equation is accepted (one letter for each index, different letters  *)
(*     for different indices) exactly if the tensor contraction it denotes *)
(*     is the equation, the entries of the tensors being independent       *)
(***************************************************************************)
EXTENDS Equations
CONSTANTS MaxPieces
VARIABLES tm, prev, n
SP == <<[l |-> "o", f |-> "f", y |-> "o", x |-> <<"i", "j">>], [l |-> "b", f |-> "b", y |-> "u", x |-> <<"x">>]>>
Ix == {<<0,0>>, <<0,1>>, <<0,12>>, <<1,0>>}
Coefs == {<<1,1>>, <<-1,1>>, <<2,1>>, <<-12,7>>, <<1,3>>, <<-1,10>>}
Init == tm = [t |-> <<>>, o |-> <<>>, n |-> FALSE, c |-> ROne] /\ prev = tm /\ n = 0
Tensors == {[l |-> l, u |-> u, d |-> d, y |-> "a"] : l \in {"T", "T2", "lambda1"}, u \in {<<>>} \cup {<<i>> : i \in Ix}, d \in {<<>>, <<<<0,0>>, <<1,0>>>>, <<<<0,1>>>>}}
Next == /\ n < MaxPieces /\ n' = n + 1 /\ prev' = tm
        /\ \/ Len(tm.t) < 2 /\ \E x \in Tensors : tm' = [tm EXCEPT !.t = Append(@, x)]
           \/ Len(tm.o) < 3 /\ \E i \in Ix : \E k \in {0, 1} : tm' = [tm EXCEPT !.o = Append(@, <<k, i[1], i[2]>>)]
           \/ tm.o # <<>> /\ tm' = [tm EXCEPT !.n = ~@]
           \/ \E c \in Coefs : c # tm.c /\ tm' = [tm EXCEPT !.c = c]
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Is(r, t) == r.ok /\ r.c = t.c /\ r.k = TermKey(t)
Pad(cs) == <<" ">> \o Flat(Map(cs, LAMBDA c : IF c = " " THEN <<" ", " ">> ELSE <<c>>)) \o <<" ">>
RoundTrip ==
  /\ \A plus \in BOOLEAN : Is(ReadTerm(SP, Chars(LineText(SP, tm, plus))), tm)
  /\ Is(ReadTerm(SP, Pad(Chars(LineText(SP, tm, TRUE)))), tm)
  /\ LET two == <<tm, [prev EXCEPT !.c = <<5,3>>]>>
     IN ReadLines(SP, Map(two, LAMBDA t : Chars(LineText(SP, t, TRUE)))) = [ok |-> TRUE, f |-> ObsExpr(two)]
TexTells == tm # prev => WholeTermTex(SP, tm, TRUE) # WholeTermTex(SP, prev, TRUE) \/ TermKey(tm) = TermKey(prev)

CreFirst(t) == \A i, j \in 1..Len(t.o) : i < j /\ Cre(t.o[j]) => Cre(t.o[i])
Equation ==
  CreFirst(tm) =>
    LET q == EqOf(SP, "R", tm)  l == q.l.t[1]
    IN /\ Map(l.d, OpCre) \o Map(Rev(l.u), OpAnn) = tm.o
       /\ q.r.t = tm.t /\ q.c = tm.c
       /\ q.k = SpacesText(SP, l.u) \o "|" \o SpacesTextRev(SP, l.d)

(* entries of tensors are variables: a polynomial for every output entry *)
BagAdd(b, x) == IF x \in DOMAIN b THEN [b EXCEPT ![x] = @ + 1] ELSE b @@ (x :> 1)
Contraction(ins, out, labels) ==
  LET ls == UNION {Range1(ins[k]) : k \in 1..Len(ins)}
      asg == [ls -> {1, 2}]
      mono(a) == FoldLeft(LAMBDA acc, k : BagAdd(acc, <<labels[k], Map(ins[k], LAMBDA x : a[x])>>), <<>>, [k \in 1..Len(ins) |-> k])
  IN FoldSet(LAMBDA a, acc : LAdd(acc, <<Map(out, LAMBDA x : a[x]), mono(a)>>, ROne), Empty, asg)
Slots(t) == t.u \o t.d
RECURSIVE Split(_,_)
Split(s, lens) == IF lens = <<>> THEN <<>> ELSE <<SubSeq(s, 1, lens[1])>> \o Split(SubSeq(s, lens[1] + 1, Len(s)), Tail(lens))
Letters3 == {"a", "b", "c"}
LettersOK ==
  LET q == EqOf(SP, "R", tm)
      fs == q.r.t
      lt == q.l.t[1]
      pos == Flat(Map(fs, Slots)) \o Slots(lt)
      nin == Len(pos) - Len(Slots(lt))
  IN /\ fs # <<>> /\ Len(pos) <= 5 /\ nin > 0
     /\ Range1(Slots(lt)) \subseteq Range1(SubSeq(pos, 1, nin))
     /\ Cardinality(Range1(Slots(lt))) = Len(Slots(lt))
LettersExact ==
  LettersOK =>
  LET q == EqOf(SP, "R", tm)
      fs == q.r.t
      lt == q.l.t[1]
      labels == [k \in 1..Len(fs) |-> k]   \* every factor has its own variables
      pos == Flat(Map(fs, Slots)) \o Slots(lt)
      nin == Len(pos) - Len(Slots(lt))
      lens == Map(fs, LAMBDA t : Len(Slots(t)))
      want == Contraction(Map(fs, Slots), Slots(lt), labels)
  IN \A cs \in [1..Len(pos) -> Letters3] :
       Range1(SubSeq(cs, nin + 1, Len(cs))) \subseteq Range1(SubSeq(cs, 1, nin)) =>
         (LetterMap(pos, cs) <=> Contraction(Split(SubSeq(cs, 1, nin), lens), SubSeq(cs, nin + 1, Len(cs)), labels) = want)
=============================================================================
