-------------------------- MODULE TraceRegistry --------------------------
(* traces of the registry *)
EXTENDS Registry, TraceBase
Start(t) == <<>>
Obs(r, labs) == [n |-> r.n, l |-> r.l, x |-> r.x, s |-> r.s, at |-> Map(r.at, LAMBDA p : p[2]), f |-> r.f, q |-> r.q, ix |-> r.ix]
DictOf(reg) == {<<reg[k].l, reg[k].x>> : k \in 1..Len(reg)}
SpacesOf(reg) == Map(reg, LAMBDA a : [l |-> a.l, f |-> IF a.f = "boson" THEN "b" ELSE "f", y |-> a.y, x |-> a.x])
IndicesOf(t) == Flat(Map(t.t, LAMBDA x : x.u \o x.d)) \o Map(t.o, Idx)
Step(sp, reg, e) ==
  CASE e.op = "addspace" -> If(e.x = (IF CanAdd(reg, e.a) THEN 0 ELSE 1), Add(reg, e.a))
    [] e.op = "resetspace" -> If(e.x = 0, <<>>)
    [] e.op = "look" ->
         If(/\ e.x = 0 /\ Obs(e.r, e.labs) = Look(reg, e.labs)
            /\ Range1(e.r.d) = DictOf(reg) /\ Len(e.r.d) = Len(reg)
            /\ Map(e.r.at, LAMBDA p : p[1]) = e.labs, reg)
    [] e.op = "probe" ->
         LET s == reg[CHOOSE k \in 1..Len(reg) : reg[k].l = e.lab]
         IN If(IF Len(reg) > 8 THEN e.x = 1 ELSE e.x = 0 /\ e.r = Pair(s), reg)
    \* a position that does not exist is refused
    [] e.op = "at" ->
         If(IF e.p >= 0 /\ e.p < Len(reg) THEN e.x = 0 /\ e.r = [l |-> reg[e.p + 1].l, x |-> reg[e.p + 1].x] ELSE e.x = 1, reg)
    \* objects name their spaces by position: what they show follows the
    \* registry of the moment, and is refused when it lacks one of them
    [] e.op = "make" -> If(e.x = 0, reg)
    [] e.op = "show" ->
         LET now == SpacesOf(reg)
             here == \A i \in Range1(IndicesOf(e.t)) : i[1] < Len(reg)
         IN If(IF here
               THEN e.x = 0 /\ e.r = (CASE e.how = "text" -> TermText(now, e.t) [] e.how = "latex" -> TermTex(now, e.t) [] OTHER -> "done")
               ELSE e.x = 1, reg)
    [] OTHER -> No
Init == TInit(Start)
Next == TNext(Step)
=============================================================================
