"""The commands of the scripts.  Every command returns its projected result."""
from driver import (w, ww, cmd, Bad, LIM, enc_rat, enc_idx, enc_op, enc_tensor, enc_symterm, enc_expr, enc_opexpr,
                    dec_idx, dec_op, dec_sym, dec_tensor, dec_symterm, dec_term, dec_expr, dec_prod, dec_opexpr,
                    comp_str)
import functools, hashlib, math, re


def start(cx):
    cx.wt, cx.reg, cx.ox = {}, {}, {}
    cx.bt, cx.bx, cx.bq = {}, {}, {}


# ------------------------------------------------------ contraction engine
@cmd
def eng(cx, e):
    cx.wt[e["k"]] = w.WickTheorem()


@cmd
def maxcum(cx, e):
    cx.wt[e["k"]].set_max_cumulant(e["v"])


@cmd
def single(cx, e):
    cx.wt[e["k"]].set_single_threaded(bool(e["v"]))


@cmd
def graph(cx, e):
    cx.wt[e["k"]].do_canonicalize_graph(bool(e["v"]))


@cmd
def setprint(cx, e):
    cx.wt[e["k"]].set_print([ww.PrintLevel.none, ww.PrintLevel.basic, ww.PrintLevel.summary][e["v"]])


def _contract(cx, e):
    wt = cx.wt[e["k"]]
    x = dec_opexpr(cx.sp, e["e"])
    f = w.rational(*e["f"])
    before = str(x)
    try:
        if e.get("nof"):
            return wt.contract(x, e["lo"], e["hi"])
        return wt.contract(f, x, e["lo"], e["hi"])
    finally:  # the arguments after the call
        e["kept"] = str(x) == before and f == w.rational(*e["f"])


@cmd
def fail(cx, e):
    """a contraction whose coefficients do not fit in the library's numbers"""
    _contract(cx, e)


@cmd
def warm(cx, e):
    """contractions with this engine under another registry"""
    import driver
    driver.set_spaces(e["sp2"])
    try:
        for q in e["qs"]:
            x = dec_opexpr(e["sp2"], q["e"])
            cx.wt[e["k"]].contract(w.rational(*q["f"]), x, q["lo"], q["hi"])
    finally:
        driver.set_spaces(cx.sp)


@cmd
def contract(cx, e):
    r = _contract(cx, e)
    if e.get("as"):
        cx.reg[e["as"]] = r
    return enc_expr(r, cx.ns)


@cmd
def contract_big(cx, e):
    """the terms with their coefficients as numbers of any size"""
    out = []
    for st, c in _contract(cx, e):
        d = enc_symterm(st, cx.ns)
        d["c"] = enc_bigrat(c)
        out.append(d)
    return out


@cmd
def contract_tok(cx, e):
    """contract n times on the same engine: the distinct answers, each as the
    number of its terms and a token for its text"""
    out = []
    for _ in range(e["n"]):
        r = _contract(cx, e)
        t = hashlib.sha256("\n".join(sorted(str(c) + " " + str(s) for s, c in r)).encode()).hexdigest()
        if {"n": len(r), "tok": t} not in out:
            out.append({"n": len(r), "tok": t})
    return out


@cmd
def contract_n(cx, e):
    """contract n times on the same engine: the distinct results"""
    out, seen = [], set()
    for _ in range(e["n"]):
        r = _contract(cx, e)
        s = str(r)
        if s not in seen:
            seen.add(s)
            out.append(enc_expr(r, cx.ns))
    return out


@cmd
def timers(cx, e):
    t = cx.wt[e["k"]].timers()
    for v in t.values():
        if not (isinstance(v, float) and math.isfinite(v) and v >= 0):
            raise Bad("timer")
    return sorted(t.keys())


def cut_code(q, fmt, label, k):
    """the code of an equation: everything it says, and the exact factor"""
    y = {"c": enc_rat(q.rhs_factor()), "up": k.index("|"), "op": "?", "num": limbs(0), "dg": 0, "tl": "?", "tb": [], "ts": [], "f": []}
    if fmt == "ambit":
        m = re.fullmatch(r"(.*?) (\+=|-=|=) (-?\d+\.\d+)( \* .*)?;", q.compile("ambit"))
        if not m:
            return y

        def cut(t):
            g = re.fullmatch(r"(\w+)(?:\[([^\]]*)\])?", t)
            s = g[2].split(",") if g and g[2] else []
            return (g[1] if g else t), [x[:1] for x in s], s
        y["tl"], y["tb"], y["ts"] = cut(m[1])
        y["f"] = [dict(zip("lbs", cut(t))) for t in (m[4][3:].split(" * ") if m[4] else [])]
        y.update(op=m[2], num=decimals(m[3], 6), dg=6)
        return y
    dg = 9 if fmt == "einsum" else 8
    c = cut_einsum(q.compile("einsum") if fmt == "einsum" else w.compile_einsum(q), dg)
    if not c["ok"] or not c["l"].startswith(label):
        return y
    y.update(op=c["op"], num=c["num"], dg=dg, tl=label, tb=list(c["l"][len(label):]), ts=c["out"])
    if len(c["ins"]) == len(c["fac"]):
        y["f"] = [{"l": f[0], "b": list(f[1]), "s": s} for f, s in zip(c["fac"], c["ins"])]
    return y


def _codes(x, e):
    if not e["fmt"]:
        raise Bad("no format")
    d = x.to_manybody_equations(e["tl"])
    return [cut_code(q, e["fmt"], e["tl"], k) for k in sorted(d) for q in d[k]]


@cmd
def flow(cx, e):
    """operators -> contraction -> many-body equations -> code"""
    return _codes(_contract(cx, e), e)


@cmd
def series(cx, e):
    """sums of operators -> series -> contraction (-> equations -> code)"""
    h, t = dec_opexpr(cx.sp, [{"p": [q["o"]], "c": q["c"]} for q in e["h"]]), dec_opexpr(cx.sp, [{"p": [q["o"]], "c": q["c"]} for q in e["t"]])
    x = w.bch_series(h, t, e["n"])
    if e.get("can"):
        x.canonicalize()
    r = cx.wt[e["k"]].contract(w.rational(*e["f"]), x, 0, 100)
    return _codes(r, e) if e["fmt"] else enc_expr(r, cx.ns)


# ------------------------------------------- objects built piece by piece
def bdump(cx):
    def term(t):
        x = w.Expression()
        x += t
        d = {"s": text_of(str(t)), "tex": text_of(t.latex()), "x": enc_expr(x, cx.ns), "t": [], "o": []}
        if isinstance(t, w.SymbolicTerm):
            d["t"], d["o"] = [enc_tensor(y, cx.ns) for y in t.tensors()], [enc_op(y, cx.ns) for y in t.ops()]
        if text_of(repr(t)) != d["s"]:
            raise Bad("repr")
        return d

    def expr(x):
        e = enc_expr(x, cx.ns)
        return {"e": e, "s": text_of(str(x)), "eq": dec_expr(e) == x}

    def eq(q):
        y = enc_eq(q, cx.ns)
        y.update(s=text_of(str(q)), x=enc_expr(q.rhs_expression(), cx.ns))
        return y
    return {"t": {k: term(v) for k, v in cx.bt.items()}, "x": {k: expr(v) for k, v in cx.bx.items()},
            "q": {k: eq(v) for k, v in cx.bq.items()}}


def bld(f):
    @cmd
    @functools.wraps(f)
    def g(cx, e):
        v = f(cx, e)
        return {"v": v if v is not None else {"ok": True}, "g": bdump(cx)}
    return g


@bld
def bnew(cx, e):
    cx.bt[e["z"]] = w.SymbolicTerm() if e["k"] == "S" else w.Term()


@bld
def bexp(cx, e):
    cx.bx[e["z"]] = w.Expression()


@bld
def bop(cx, e):
    cx.bt[e["z"]].add(dec_op(e["o"]))


@bld
def bops(cx, e):
    cx.bt[e["z"]].add([dec_op(o) for o in e["os"]])


@bld
def bset(cx, e):
    cx.bt[e["z"]].set([dec_op(o) for o in e["os"]])


@bld
def bten(cx, e):
    cx.bt[e["z"]].add(dec_tensor(e["t"]))


@bld
def bflag(cx, e):
    cx.bt[e["z"]].set_normal_ordered(bool(e["v"]))


@bld
def bcoef(cx, e):
    cx.bt[e["z"]].set(w.rational(*e["c"]))


@bld
def bterm(cx, e):
    cx.bt[e["z"]] = w.Term(cx.bt[e["a"]])


@bld
def bput(cx, e):
    t = cx.bt[e["a"]]
    x = cx.bx[e["z"]]
    x += (t, w.rational(*e["c"])) if e["how"] == "pair" else t
    cx.bx[e["z"]] = x


@bld
def bread(cx, e):
    """the i-th of the terms shown by iterating (modulo their number)"""
    x = cx.bx[e["a"]]
    ts = list(x) if e["i"] % 2 else None
    n = len(x)
    if n == 0:
        return {"ok": False}
    if ts is None:
        for k, (st, c) in enumerate(x):
            if k == e["i"] % n:
                break
    else:
        st, c = ts[e["i"] % n]
    if not st.ops():  # nothing shows whether it is labelled
        st.set_normal_ordered(False)
    cx.bt[e["z"]] = st
    return {"ok": True, "t": enc_symterm(st, cx.ns), "c": enc_rat(c)}


@bld
def bwalk(cx, e):
    """changes an expression while it is being read"""
    x, seen = cx.bx[e["a"]], []
    for st, c in x:
        seen.append((st, c))
        x += (st, c * w.rational(*e["c"]))
        if len(seen) > 1000:
            raise Bad("reading does not end")
    cx.bx[e["a"]] = x
    return {"e": [dict(enc_symterm(st, cx.ns), c=enc_rat(c)) for st, c in seen]}


@bld
def bsum(cx, e):
    a, b, h = cx.bx[e["a"]], cx.bx[e["b"]], e["how"]
    cx.bx[e["z"]] = a + b if h == "add" else a - b if h == "sub" else -a if h == "neg" else a * w.rational(*e["c"])


@bld
def beq(cx, e):
    cx.bq[e["z"]] = w.Equation(cx.bt[e["a"]], cx.bt[e["b"]], w.rational(*e["c"]))


@bld
def bside(cx, e):
    q = cx.bq[e["a"]]
    cx.bt[e["z"]] = q.lhs() if e["w"] == "l" else q.rhs()


# ------------------------------------------------------- expression values
@cmd
def vno(cx, e):
    """vacuum normal ordering of an expression, and of its result"""
    x = dec_expr(e["e"])
    r = {"isno": x.is_vacuum_normal_ordered()}
    try:
        y = x.vacuum_normal_ordered(e["same"])
        r["y"] = enc_expr(y, cx.ns)
        r["ok"] = True
    except RuntimeError:
        r["ok"] = False
        r["y"] = []
    r["after"] = enc_expr(x, cx.ns)
    if r["ok"]:
        r["yno"] = y.is_vacuum_normal_ordered()
        z = y.vacuum_normal_ordered(e["same"]) if e.get("again") else y
        r["yy"] = enc_expr(z, cx.ns)
    return r


@cmd
def isno(cx, e):
    return dec_expr(e["e"]).is_vacuum_normal_ordered()


@cmd
def canon(cx, e):
    x = dec_expr(e["e"])
    r = {}
    try:
        y = x.canonicalize()
        r["ok"] = True
        r["ret"] = enc_expr(y, cx.ns) if y is not None else []
    except RuntimeError:
        r["ok"] = False
        r["ret"] = []
    r["y"] = enc_expr(x, cx.ns)
    return r


# ------------------------------------------------------ expression registers
def dump(cx):
    return {k: enc_expr(v, cx.ns) for k, v in cx.reg.items()}


def alg(f):
    """an algebra command: its value, then all registers"""

    def g(cx, e):
        try:
            v = f(cx, e)
            return {"ok": True, "v": v if v is not None else 0, "g": dump(cx)}
        except RuntimeError as ex:
            return {"ok": False, "v": 0, "g": dump(cx)}

    g.__name__ = f.__name__
    return cmd(g)


@alg
def xnew(cx, e):
    cx.reg[e["z"]] = w.Expression()


@alg
def xlet(cx, e):
    cx.reg[e["z"]] = dec_expr(e["e"])


@alg
def xcopy(cx, e):
    cx.reg[e["z"]] = cx.reg[e["a"]] * w.rational(1)


@alg
def xadd(cx, e):
    cx.reg[e["z"]] = cx.reg[e["a"]] + cx.reg[e["b"]]


@alg
def xsub(cx, e):
    cx.reg[e["z"]] = cx.reg[e["a"]] - cx.reg[e["b"]]


@alg
def xneg(cx, e):
    cx.reg[e["z"]] = -cx.reg[e["a"]]


@alg
def xmul(cx, e):
    cx.reg[e["z"]] = cx.reg[e["a"]] @ cx.reg[e["b"]]


@alg
def xscale(cx, e):
    cx.reg[e["z"]] = cx.reg[e["a"]] * w.rational(*e["c"])


@alg
def xadj(cx, e):
    cx.reg[e["z"]] = cx.reg[e["a"]].adjoint()


@alg
def xiadd(cx, e):
    """in-place addition of a term, in the three forms"""
    t = e["t"]
    x = cx.reg[e["z"]]
    if e["how"] == "pair":
        x += (dec_symterm(t), w.rational(*t["c"]))
    elif e["how"] == "term":
        x += dec_term(t)
    else:
        x += dec_symterm(t)
    cx.reg[e["z"]] = x


@alg
def xiaddx(cx, e):
    """augmented assignment with an expression"""
    x = cx.reg[e["z"]]
    if e["how"] == "-":
        x -= cx.reg[e["a"]]
    else:
        x += cx.reg[e["a"]]
    cx.reg[e["z"]] = x


@alg
def xcanon(cx, e):
    cx.reg[e["z"]].canonicalize()


@alg
def xeq(cx, e):
    return cx.reg[e["a"]] == cx.reg[e["b"]]


@alg
def xlen(cx, e):
    return len(cx.reg[e["a"]])


@alg
def xdot(cx, e):
    return enc_rat(cx.reg[e["a"]].dot(cx.reg[e["b"]]))


@alg
def xnorm(cx, e):
    """1000 times the square of the norm, to the nearest integer"""
    v = cx.reg[e["a"]].norm()
    if not (math.isfinite(v) and 0 <= v < 1000):
        raise Bad("norm")
    return round(v * v * 1000)


# ----------------------------------------------------------------- texts
def text_of(s):
    if any(ord(c) < 32 and c not in "\n\t" or ord(c) > 126 for c in s):
        raise Bad("text")
    return s


@cmd
def xtext(cx, e):
    """text of an expression, and what reading the text gives"""
    x = dec_expr(e["e"])
    s = str(x)
    r = {"s": text_of(s), "rep": repr(x) == s, "ord": enc_expr(x, cx.ns)}
    y = w.string_to_expr(s)
    r["eq"] = (y == x)
    r["y"] = enc_expr(y, cx.ns)
    return r


def sized(r):
    """sign, and the digits of numerator and denominator"""
    m = re.fullmatch(r"rational\((-?)(\d+),(\d+)\)", repr(r))
    if not m:
        raise Bad("rational repr")
    return [-1 if m[1] else 1, m[2], m[3]]


@cmd
def xtextbig(cx, e):
    """like xtext and xlatex, with coefficients of any size"""
    x = w.Expression()
    for t in e["e"]:
        x += (dec_symterm(t), w.make_rational(("-" if t["c"][0] < 0 else "") + t["c"][1] + "/" + t["c"][2]))
    enc = lambda y: [dict(enc_symterm(st, cx.ns), c=sized(c)) for st, c in y]
    s = str(x)
    y = w.string_to_expr(s)
    return {"s": text_of(s), "ord": enc(x), "eq": y == x, "y": enc(y), "tex": text_of(x.latex("\n"))}


@cmd
def xparse(cx, e):
    s = "".join(e["ch"])
    x = w.expression(s, dec_sym(e["y"])) if not e.get("nosym") else w.expression(s)
    return enc_expr(x, cx.ns)


@cmd
def xparses(cx, e):
    return enc_expr(w.string_to_expr("\n".join("".join(x) for x in e["ls"])), cx.ns)


@cmd
def ttext(cx, e):
    """texts of a term and of its parts"""
    t = e["t"]
    st, tm = dec_symterm(t), dec_term(t)
    return {"st": text_of(str(st)), "tm": text_of(str(tm)),
            "t": [text_of(str(dec_tensor(x))) for x in t["t"]],
            "o": [text_of(str(dec_op(x))) for x in t["o"]]}


@cmd
def tlatex(cx, e):
    t = e["t"]
    st, tm = dec_symterm(t), dec_term(t)
    return {"st": text_of(st.latex()), "tm": text_of(tm.latex()),
            "t": [text_of(dec_tensor(x).latex()) for x in t["t"]],
            "o": [text_of(dec_op(x).latex()) for x in t["o"]],
            "c": text_of(w.rational(*t["c"]).latex(True)), "d": text_of(w.rational(*t["c"]).latex(False)),
            "i": [text_of(dec_idx(i).latex()) for x in t["t"] for i in x["u"] + x["d"]]}


@cmd
def xlatex(cx, e):
    x = dec_expr(e["e"])
    terms = enc_expr(x, cx.ns)
    return {"s": text_of(x.latex(e["sep"])), "dflt": text_of(x.latex()), "y": terms}


@cmd
def iread(cx, e):
    return enc_idx(w.index("".join(e["ch"])), cx.ns)


@cmd
def itext(cx, e):
    i = dec_idx(e["i"])
    return {"s": text_of(str(i)), "rep": text_of(repr(i)), "y": enc_idx(w.index(str(i)), cx.ns), "k": text_of(i.compile("ambit"))}


@cmd
def isread(cx, e):
    return [enc_idx(i, cx.ns) for i in w.indices("".join(e["ch"]))]


@cmd
def tread(cx, e):
    return enc_tensor(w.tensor("".join(e["ch"]), dec_sym(e["y"])), cx.ns)


@cmd
def tmake(cx, e):
    return enc_tensor(w.tensor(e["l"], ["".join(x) for x in e["d"]], ["".join(x) for x in e["u"]], dec_sym(e["y"])), cx.ns)


@cmd
def oread(cx, e):
    s = "".join(e["ch"])
    return [enc_op(o, cx.ns) for o in (w.cre(s), w.ann(s), w.sqoperator(s, ww.type.cre), w.sqoperator(s, ww.type.ann))]


# ------------------------------------------------------ operator expressions
def odump(cx):
    return {k: enc_opexpr(v, cx.sp) for k, v in cx.ox.items()}


def oalg(f):
    def g(cx, e):
        try:
            v = f(cx, e)
            return {"ok": True, "v": v if v is not None else 0, "g": odump(cx)}
        except RuntimeError:
            return {"ok": False, "v": 0, "g": odump(cx)}

    g.__name__ = f.__name__
    return cmd(g)


@oalg
def onew(cx, e):
    cx.ox[e["z"]] = w.OperatorExpression()


@oalg
def oop(cx, e):
    cx.ox[e["z"]] = w.op(e["l"], e["comps"], e["unique"]) if "unique" in e else w.op(e["l"], e["comps"])


@oalg
def ogen(cx, e):
    if "diag" in e:
        cx.ox[e["z"]] = w.gen_op(e["l"], e["rank"], e["cs"], e["as"], diagonal=bool(e["diag"]))
    else:
        cx.ox[e["z"]] = w.gen_op(e["l"], e["rank"], e["cs"], e["as"])


@oalg
def oadd(cx, e):
    cx.ox[e["z"]] = cx.ox[e["a"]] + cx.ox[e["b"]]


@oalg
def osub(cx, e):
    cx.ox[e["z"]] = cx.ox[e["a"]] - cx.ox[e["b"]]


@oalg
def omul(cx, e):
    cx.ox[e["z"]] = cx.ox[e["a"]] @ cx.ox[e["b"]]


@oalg
def oscale(cx, e):
    cx.ox[e["z"]] = w.rational(*e["c"]) * cx.ox[e["a"]]


@oalg
def oadd2(cx, e):
    cx.ox[e["z"]].add2(cx.ox[e["a"]], w.rational(*e["c"]))


@oalg
def ocomm(cx, e):
    cx.ox[e["z"]] = w.commutator(*[cx.ox[k] for k in e["args"]])


@oalg
def obch(cx, e):
    cx.ox[e["z"]] = w.bch_series(cx.ox[e["a"]], cx.ox[e["b"]], e["n"])


@cmd
def bchdeep(cx, e):
    """the series of two different single operators, coefficients of any size"""
    from driver import enc_opexpr
    a, b = [w.op(e[k]["l"], [comp_str(cx.sp, e[k]["c"], e[k]["a"])]) for k in "uv"]
    before = str(a), str(b)
    r = enc_opexpr(w.bch_series(a, b, e["n"]), cx.sp, True)
    if (str(a), str(b)) != before:
        raise Bad("arguments changed")
    return r


@oalg
def oadj(cx, e):
    cx.ox[e["z"]] = cx.ox[e["a"]].adjoint()


@oalg
def ocopy(cx, e):
    cx.ox[e["z"]] = w.OperatorExpression(cx.ox[e["a"]])


@oalg
def ocanon(cx, e):
    cx.ox[e["z"]].canonicalize()


@oalg
def oeq(cx, e):
    return cx.ox[e["a"]] == cx.ox[e["b"]]


@oalg
def osize(cx, e):
    return cx.ox[e["a"]].size()


@oalg
def ocontract(cx, e):
    return enc_expr(w.WickTheorem().contract(w.rational(1), cx.ox[e["a"]], e["lo"], e["hi"]), cx.ns)


@cmd
def diagop(cx, e):
    o = w.diag_operator(e["l"], e["c"], e["a"])
    return enc_optext(cx, str(o))


@cmd
def operator(cx, e):
    o = w.Operator(e["l"], e["c"], e["a"])
    return enc_optext(cx, str(o))


@cmd
def ofact(cx, e):
    """the prefactor of an operator with many legs"""
    s = str(w.op("T", [comp_str(cx.sp, e["c"], e["a"])]))
    m = re.fullmatch(r"\+ (?:(\d+)(?:/(\d+))? )?T \{[^{}]*\}", s)
    if not m:
        raise Bad("operator text " + s[:100])
    return {"n": limbs(int(m[1] or 1)), "d": limbs(int(m[2] or 1))}


def enc_optext(cx, s):
    from driver import OPLINE
    m = OPLINE.fullmatch(s)
    if not m:
        raise Bad("operator text " + s)
    lab = {x["l"]: i for i, x in enumerate(cx.sp)}
    f = m["f"]
    fr = [1, 1]
    if f:
        fr = [int(v) for v in f.split("/")] if "/" in f else [int(f), 1]
        if abs(fr[0]) >= LIM or abs(fr[1]) >= LIM:
            fr = [1, 0]
    legs = []
    for t in m["legs"].split():
        c = 1 if t.endswith("+") else 0
        sx = lab.get(t[:-1] if c else t)
        if sx is None:
            raise Bad("leg " + t)
        legs.append([c, sx])
    return {"l": m["l"], "g": legs, "f": fr}


@cmd
def opexprs(cx, e):
    """operator_expr"""
    x = w.operator_expr(e["l"], e["comps"], bool(e["n"]), dec_sym(e["y"]), w.rational(*e["c"]))
    return enc_expr(x, cx.ns)


@cmd
def opexprs_d(cx, e):
    """operator_expr with default symmetry and coefficient"""
    return enc_expr(w.operator_expr(e["l"], e["comps"], bool(e["n"])), cx.ns)


@cmd
def expand(cx, e):
    """expanded form of a single operator: the contraction of the operator alone"""
    x = w.op(e["l"], [comp_str(cx.sp, e["c"], e["a"])])
    return enc_expr(w.WickTheorem().contract(w.rational(1), x, 0, 100), cx.ns)


# ------------------------------------------------------------- rationals
def limbs(n):
    s = -1 if n < 0 else 1
    n, out = abs(n), []
    while n:
        out.append(n % 10000)
        n //= 10000
    return {"s": s if out else 0, "m": out}


def unlimbs(x):
    n = 0
    for d in reversed(x["m"]):
        n = n * 10000 + d
    return -n if x["s"] < 0 else n


def bezout(a, b):
    """u, v with u a + v b = gcd(a, b)"""
    r0, r1, u0, u1, v0, v1 = a, b, 1, 0, 0, 1
    while r1:
        q = r0 // r1
        r0, r1, u0, u1, v0, v1 = r1, r0 - q * r1, u1, u0 - q * u1, v1, v0 - q * v1
    if r0 < 0:
        r0, u0, v0 = -r0, -u0, -v0
    return u0, v0


def enc_bigrat(r):
    m = re.fullmatch(r"rational\((-?\d+),(-?\d+)\)", repr(r))
    if not m:
        raise Bad("rational repr")
    return {"n": limbs(int(m[1])), "d": limbs(int(m[2]))}


def brat(r):
    m = re.fullmatch(r"rational\((-?\d+),(-?\d+)\)", repr(r))
    if not m:
        raise Bad("rational repr")
    n, d = int(m[1]), int(m[2])
    u, v = bezout(n, d)
    return {"n": limbs(n), "d": limbs(d), "u": limbs(u), "v": limbs(v)}


@cmd
def rop(cx, e):
    a, b = cx.reg[e["a"]], cx.reg[e["b"]]
    r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[e["f"]]()
    cx.reg[e["z"]] = r
    return brat(r)


@cmd
def rset(cx, e):
    """from machine integers"""
    x = [lambda: w.rational(), lambda: w.rational(e["n"]), lambda: w.rational(e["n"], e["d"])][e["how"]]()
    r = brat(x)
    cx.reg[e["z"]] = x
    return r


@cmd
def rsets(cx, e):
    """from a text"""
    x = w.make_rational("".join(e["ch"]))
    r = brat(x)
    cx.reg[e["z"]] = x
    return r


@cmd
def rget(cx, e):
    return brat(cx.reg[e["a"]])


@cmd
def req(cx, e):
    return cx.reg[e["a"]] == cx.reg[e["b"]]


@cmd
def rtext(cx, e):
    """the texts of a number, cut into sign, digits, slash, digits (as limbs)"""
    x = cx.reg[e["a"]]

    def cut(s, pat):
        m = re.fullmatch(pat, s)
        if not m:
            raise Bad("number text " + s)
        g = m.groupdict()
        return {"sg": g["s"] or "", "n": limbs(int(g["n"])) if g["n"] else {"s": 0, "m": []}, "hn": bool(g["n"]),
                "d": limbs(int(g["d"])) if g["d"] else {"s": 0, "m": []}, "hd": bool(g["d"]),
                "z": any(v and v[0] == "0" and len(v) > 1 for v in (g["n"], g["d"]))}

    s, t = x.str(False), x.str(True)
    p = r"(?P<s>[+-]?)(?P<n>\d*)(?:/(?P<d>\d+))?"
    q = r"(?P<s>[+-]?)(?:\\frac\{(?=\d+\}\{))?(?P<n>\d*)(?:\}\{(?P<d>\d+)\})?"
    back = brat(w.make_rational(s))
    back2 = brat(w.make_rational(t))
    return {"a": cut(s, p), "b": cut(t, p), "l": cut(x.latex(True), q), "m": cut(x.latex(False), q),
            "back": back, "back2": back2}


@cmd
def rnumden(cx, e):
    """numerator(), denominator()"""
    x = cx.reg[e["a"]]
    return {"n": limbs(x.numerator()), "d": limbs(x.denominator())}


@cmd
def rfloat(cx, e):
    """float(x) as an exact fraction, and the decimal text of compile() times a million"""
    x = cx.reg[e["a"]]
    f = float(x)
    if not math.isfinite(f):
        raise Bad("float")
    n, d = f.as_integer_ratio()
    m = re.fullmatch(r"(-?)(\d+)\.(\d{6})", x.compile("ambit"))
    if not m:
        raise Bad("decimal")
    k = int(m[2] + m[3])
    return {"n": limbs(n), "d": limbs(d), "k": limbs(-k if m[1] else k)}


# ------------------------------------------ expressions with big coefficients
def q_in(c):
    return w.make_rational("%d/%d" % (unlimbs(c["n"]), unlimbs(c["d"])))


def q_alg(f):
    @cmd
    @functools.wraps(f)
    def g(cx, e):
        v = f(cx, e)
        return {"v": 0 if v is None else v,
                "g": {k: [dict(enc_symterm(st, cx.ns), c=brat(c)) for st, c in x] for k, x in cx.reg.items()}}
    return g


@q_alg
def qlet(cx, e):
    x = w.Expression()
    for t in e["e"]:
        x += (dec_symterm(t), q_in(t["c"]))
    cx.reg[e["z"]] = x


@q_alg
def qadd(cx, e):
    cx.reg[e["z"]] = cx.reg[e["a"]] + cx.reg[e["b"]]


@q_alg
def qsub(cx, e):
    cx.reg[e["z"]] = cx.reg[e["a"]] - cx.reg[e["b"]]


@q_alg
def qneg(cx, e):
    cx.reg[e["z"]] = -cx.reg[e["a"]]


@q_alg
def qscale(cx, e):
    cx.reg[e["z"]] = cx.reg[e["a"]] * q_in(e["c"])


@q_alg
def qmul(cx, e):
    cx.reg[e["z"]] = cx.reg[e["a"]] @ cx.reg[e["b"]]


@q_alg
def qeq(cx, e):
    return cx.reg[e["a"]] == cx.reg[e["b"]]


@q_alg
def qdot(cx, e):
    return brat(cx.reg[e["a"]].dot(cx.reg[e["b"]]))


# --------------------------------------------------------------- registry
@cmd
def addspace(cx, e):
    a = e["a"]
    args = [a["l"], a["f"], a["y"], a["x"]]
    if "e" in a:
        args.append(a["e"])
    w.add_space(*args)


@cmd
def resetspace(cx, e):
    if e.get("osi"):
        w.osi().reset_space()
    else:
        w.reset_space()


@cmd
def look(cx, e):
    """everything the registry shows"""
    o = w.osi()
    n = o.num_spaces()
    if n != w.num_spaces():
        raise Bad("num_spaces")
    labs = [o.label(i) for i in range(n)]
    out = {"n": n, "l": labs, "x": [o.indices(i) for i in range(n)], "d": [], "s": text_of(str(o)), "at": []}
    d = o.to_dict()
    out["d"] = [[k, d[k]] for k in sorted(d)]
    # labels resolve to positions
    for lab in e["labs"]:
        try:
            ix = w.index(lab + "0")
            out["at"].append([lab, ix.space()])
        except RuntimeError:
            out["at"].append([lab, -1])
    # field and quasiparticle role of each space, as seen through operators
    out["f"], out["q"], out["ix"] = [], [], []
    for i in range(n):
        c, a = w.SQOperator(ww.type.cre, w.Index(i, 0)), w.SQOperator(ww.type.ann, w.Index(i, 0))
        out["f"].append({ww.stat.fermion: "fermion", ww.stat.boson: "boson"}[c.field_type()])
        out["q"].append(1 if c.normal_ordered_less(a) else 0)
        out["ix"].append([w.Index(i, j).latex() for j in range(4)])
    # type of each space, as seen by the contraction engine (at most 8 spaces, fermions)
    return out


@cmd
def at(cx, e):
    """label and names of the space at a position, which may not exist"""
    o, out = w.osi(), []
    for f in (o.label, o.indices):
        try:
            out.append(f(e["p"]))
        except Exception:
            out.append(None)
    if (out[0] is None) != (out[1] is None):
        raise Bad("label and indices disagree")
    if out[0] is None:
        raise RuntimeError("refused")
    return {"l": text_of(out[0]), "x": out[1]}


@cmd
def make(cx, e):
    """an object that outlives the registrations"""
    cx.reg[e["z"]] = dec_symterm(e["t"])


@cmd
def show(cx, e):
    t = cx.reg[e["z"]]
    if e["how"] == "text":
        return text_of(str(t))
    if e["how"] == "latex":
        return text_of(t.latex())
    x = w.Expression()
    x += (t, w.rational(1))
    x.canonicalize()
    return "done"


@cmd
def probe(cx, e):
    """which pair contractions an operator pair of a space allows: tells the space type"""
    sp = e["lab"]
    a = w.op("A", [sp + "+"])
    b = w.op("B", [sp])
    wt = w.WickTheorem()
    r1 = wt.contract(w.rational(1), a @ b, 0, 0)
    r2 = wt.contract(w.rational(1), b @ a, 0, 0)
    return {"ab": len(r1), "ba": len(r2), "g": 1 if "gamma1" in str(r1) else 0}


# --------------------------------------------------------------- orderings
@cmd
def ilt(cx, e):
    a, b = dec_idx(e["a"]), dec_idx(e["b"])
    return {"lt": a < b, "eq": a == b, "gt": b < a}


@cmd
def olt(cx, e):
    a, b = dec_op(e["a"]), dec_op(e["b"])
    return {"lt": a < b, "eq": a == b, "gt": b < a, "nlt": a.normal_ordered_less(b), "ngt": b.normal_ordered_less(a)}


@cmd
def isort(cx, e):
    s, ix = w.canonicalize_indices([dec_idx(i) for i in e["i"]], bool(e["rev"]))
    return {"s": enc_rat(s), "i": [enc_idx(i, cx.ns) for i in ix]}


@cmd
def parts(cx, e):
    return [list(p) for p in w.integer_partitions(e["n"], e["m"])]


# --------------------------------------------------------------- equations
def enc_eq(q, ns):
    l, r = q.lhs(), q.rhs()
    return {"l": enc_symterm(l, ns), "r": enc_symterm(r, ns), "c": enc_rat(q.rhs_factor())}


@cmd
def mbeq(cx, e):
    x = dec_expr(e["e"])
    f = x.to_manybody_equations if e.get("pl") else x.to_manybody_equation
    d = f(e["l"])
    out = []
    for k in sorted(d):
        for q in d[k]:
            y = enc_eq(q, cx.ns)
            y["k"] = k
            y["x"] = enc_expr(q.rhs_expression(), cx.ns)
            out.append(y)
    return {"q": out, "after": enc_expr(x, cx.ns)}


def mk_eq(cx, e):
    return w.Equation(dec_symterm(e["lhs"]), dec_symterm(e["rhs"]), w.rational(*e["c"]))


@cmd
def eqtext(cx, e):
    q = mk_eq(cx, e)
    y = enc_eq(q, cx.ns)
    y["s"] = text_of(str(q))
    y["tex"] = text_of(q.latex())
    return y


def decimals(s, digits):
    """a decimal text as an integer multiple of 10^-digits"""
    m = re.fullmatch(r"([+-]?)(\d+)\.(\d+)", s)
    if not m or len(m[3]) != digits:
        raise Bad("number " + s)
    v = int(m[2] + m[3])
    return limbs(-v if m[1] == "-" else v)


@cmd
def eqambit(cx, e):
    """`lhs += number * tensors;`"""
    s = mk_eq(cx, e).compile("ambit")
    m = re.fullmatch(r"(.*?) (\+=|-=|=) (-?\d+\.\d+)( \* .*)?;", s)
    if not m:
        return {"s": text_of(s), "lhs": "?", "op": "?", "num": limbs(0), "rhs": "?"}
    return {"s": text_of(s), "lhs": m[1], "op": m[2], "num": decimals(m[3], 6), "rhs": m[4][3:] if m[4] else ""}


EINS = re.compile(r"(?P<l>\S+) (?P<op>\+=|-=|=) (?P<n>[+-]?\d+\.\d+)(?P<rest>.*)", re.S)


def cut_einsum(s, digits):
    s = s.strip()
    if s.endswith(";"):
        s = s[:-1]
    m = EINS.fullmatch(s)
    if not m:
        return {"ok": False, "s": text_of(s)}
    rest = m["rest"].strip()
    r = {"ok": True, "s": text_of(s), "l": m["l"], "op": m["op"], "num": decimals(m["n"], digits)}
    if rest == "":
        r.update(ein=False, ins=[], out=[], fac=[])
        return r
    k = re.fullmatch(r"\*\s*np\.einsum\(\s*(['\"])(?P<sub>[^'\"]*)\1\s*,(?P<args>.*)\)", rest, re.S)
    if not k:
        return {"ok": False, "s": text_of(s)}
    sub = k["sub"]
    if sub.count("->") != 1:
        return {"ok": False, "s": text_of(s)}
    a, b = sub.split("->")
    fac = []
    args = k["args"]
    for f in re.finditer(r"\s*(?:(?P<o>optimize\s*=\s*(?:True|False|'[a-z]*'|\"[a-z]*\"))|(?P<l>\w+)(?:\[\s*(['\"])(?P<b>\w*)\3\s*\])?)\s*(?:,|$)", args):
        if f["o"]:
            continue
        fac.append([f["l"], f["b"] or ""])
    used = "".join(f.group(0) for f in re.finditer(r"\s*(?:(?:optimize\s*=\s*(?:True|False|'[a-z]*'|\"[a-z]*\"))|(?:\w+)(?:\[\s*(['\"])(?:\w*)\1\s*\])?)\s*(?:,|$)", args))
    if used != args:
        return {"ok": False, "s": text_of(s)}
    r.update(ein=True, ins=[list(x) for x in a.split(",")], out=list(b), fac=fac)
    return r


@cmd
def eqeinsum(cx, e):
    return cut_einsum(mk_eq(cx, e).compile("einsum"), 9)


@cmd
def pyeinsum(cx, e):
    return cut_einsum(w.compile_einsum(mk_eq(cx, e)), 8)


@cmd
def eqbad(cx, e):
    """compile with an unknown format"""
    s = mk_eq(cx, e).compile(e["fmt"])
    return text_of(s)

