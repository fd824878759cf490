---------------------------- MODULE TraceText ----------------------------
(* traces of printing, rendering and reading *)
EXTENDS Text, TraceBase
Start(t) == 0
(* the calls that read must give what the text says, or be refused *)
Reads(e, r, val(_)) == IF r.ok THEN e.x = 0 /\ val(e.r) ELSE e.x = 1
Syms(t, y) == \A k \in 1..Len(t) : t[k].y = y
Step(sp, s, e) ==
  CASE e.op = "xtext" ->
         If(/\ e.x = 0 /\ WellFormed(e.r.ord) /\ ObsExpr(e.r.ord) = ObsExpr(e.e)
            /\ e.r.s = ExprText(sp, e.r.ord)
            /\ e.r.rep /\ e.r.eq
            /\ WellFormed(e.r.y) /\ ObsExpr(e.r.y) = ObsExpr(e.e), s)
    [] e.op = "xtextbig" ->
         LET B(x) == {<<TermKey(x[k]), x[k].c>> : k \in 1..Len(x)}
         IN If(/\ e.x = 0 /\ Len(e.r.ord) = Len(e.e) /\ Len(e.r.y) = Len(e.e)
               /\ B(e.r.ord) = B(e.e) /\ B(e.r.y) = B(e.e) /\ e.r.eq
               /\ e.r.s = BigExprText(sp, e.r.ord)
               /\ e.r.tex = Join([k \in 1..Len(e.r.ord) |-> BigTermTex(sp, e.r.ord[k], k = 1)], "\n"), s)
    [] e.op = "ttext" ->
         If(/\ e.x = 0
            /\ e.r.st = TermText(sp, e.t) /\ e.r.tm = WholeTermText(sp, e.t)
            /\ e.r.t = Map(e.t.t, LAMBDA x : TensorText(sp, x))
            /\ e.r.o = Map(e.t.o, LAMBDA x : OpText(sp, x)), s)
    [] e.op = "itext" -> If(e.x = 0 /\ e.r.s = IdxText(sp, e.i) /\ e.r.rep = e.r.s /\ e.r.k = e.r.s /\ e.r.y = e.i, s)
    [] e.op = "tlatex" ->
         If(/\ e.x = 0
            /\ e.r.st = TermTex(sp, e.t)
            /\ e.r.tm = WholeTermTex(sp, e.t, TRUE)
            /\ e.r.t = Map(e.t.t, LAMBDA x : TensorTex(sp, x))
            /\ e.r.o = Map(e.t.o, LAMBDA x : OpTex(sp, x))
            /\ e.r.c = CoefTex(e.t.c, TRUE) /\ e.r.d = CoefTex(e.t.c, FALSE)
            /\ e.r.i = Map(Flat(Map(e.t.t, LAMBDA x : x.u \o x.d)), LAMBDA i : IdxTex(sp, i)), s)
    [] e.op = "xlatex" ->
         If(/\ e.x = 0 /\ WellFormed(e.r.y) /\ ObsExpr(e.r.y) = ObsExpr(e.e)
            /\ e.r.s = ExprTex(sp, e.r.y, e.sep) /\ e.r.dflt = ExprTex(sp, e.r.y, " \\\\ \n"), s)
    [] e.op = "iread" -> If(Reads(e, ReadIdx(sp, e.ch), LAMBDA v : v = ReadIdx(sp, e.ch).i), s)
    [] e.op = "isread" -> If(Reads(e, ReadIdxs(sp, e.ch), LAMBDA v : v = ReadIdxs(sp, e.ch).is), s)
    [] e.op = "oread" ->
         If(Reads(e, ReadIdx(sp, e.ch), LAMBDA v : LET i == ReadIdx(sp, e.ch).i IN v = <<OpCre(i), OpAnn(i), OpCre(i), OpAnn(i)>>), s)
    [] e.op = "tread" ->
         LET r == ReadTensor(sp, e.ch) IN If(Reads(e, r, LAMBDA v : TensorKey(v) = r.t /\ v.y = e.y), s)
    [] e.op = "tmake" ->
         LET u == Map(e.u, LAMBDA x : ReadIdx(sp, x))  d == Map(e.d, LAMBDA x : ReadIdx(sp, x))
             ok == (\A k \in 1..Len(u) : u[k].ok) /\ (\A k \in 1..Len(d) : d[k].ok)
         IN If(IF ok THEN e.x = 0 /\ e.r = [l |-> e.l, u |-> Map(u, LAMBDA x : x.i), d |-> Map(d, LAMBDA x : x.i), y |-> e.y]
               ELSE e.x = 1, s)
    [] e.op = "xparse" ->
         LET r == ReadLines(sp, <<e.ch>>)
         IN If(IF r.ok THEN /\ e.x = 0 /\ WellFormed(e.r) /\ ObsExpr(e.r) = r.f
                            /\ \A k \in 1..Len(e.r) : Syms(e.r[k].t, e.y)
               ELSE e.x = 1, s)
    [] e.op = "xparses" ->
         LET r == ReadLines(sp, e.ls)
         IN If(IF r.ok THEN /\ e.x = 0 /\ WellFormed(e.r) /\ ObsExpr(e.r) = r.f
                            /\ \A k \in 1..Len(e.r) : Syms(e.r[k].t, "a")
               ELSE e.x = 1, s)
    [] OTHER -> No
Init == TInit(Start)
Next == TNext(Step)
=============================================================================
