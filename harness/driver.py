"""Executes scripts against the built `wicked` module and writes what it
observed, one trace (JSON) per line.

usage: driver.py BUILD_DIR SCRIPTS.ndjson OUT.ndjson START STRIDE

A script is {"id":.., "sp":[spaces], "ev":[commands]}.  A trace repeats the
script with the observed result of each command in fields "x" (0 returned,
1 raised an exception, 2 the result does not have the documented shape) and
"r".  Results are projected on the abstract state of the specification:
spaces, indices, operators, tensors, terms, coefficients, texts.
"""
import json, os, re, sys, faulthandler

faulthandler.enable()
BUILD, SCRIPTS, OUT, START, STRIDE = sys.argv[1:6]
sys.path.insert(0, BUILD)
import wicked as w
from wicked import _wicked as ww

LIM = 1 << 30


class Bad(Exception):
    pass


# ------------------------------------------------------------- projections
def num(n):
    return n if -LIM < n < LIM else None


def enc_rat(r):
    m = re.fullmatch(r"rational\((-?\d+),(-?\d+)\)", repr(r))
    if not m:
        raise Bad("rational repr " + repr(r))
    n, d = int(m[1]), int(m[2])
    if abs(n) < LIM and abs(d) < LIM:
        return [n, d]
    return [1, 0]


def enc_idx(i, ns):
    s, p = i.space(), i.pos()
    if not (0 <= s < ns and 0 <= p < 1 << 26):
        raise Bad("index")
    return [s, p]


def enc_op(o, ns):
    return [1 if o.type() == ww.type.cre else 0] + enc_idx(o.index(), ns)


SYM = {"symm": "s", "anti": "a", "none": "n"}


def enc_tensor(t, ns):
    return {"l": t.label(), "u": [enc_idx(i, ns) for i in t.upper()], "d": [enc_idx(i, ns) for i in t.lower()],
            "y": SYM[t.symmetry().name]}


def enc_symterm(st, ns):
    return {"t": [enc_tensor(t, ns) for t in st.tensors()], "o": [enc_op(o, ns) for o in st.ops()],
            "n": "{ " in str(st)}


def enc_expr(e, ns):
    out = []
    for st, c in e:
        d = enc_symterm(st, ns)
        d["c"] = enc_rat(c)
        out.append(d)
    if len(out) != len(e):
        raise Bad("iteration and length disagree")
    return out


# ------------------------------------------------------------ constructors
def dec_idx(i):
    return w.Index(i[0], i[1])


def dec_op(o):
    return w.SQOperator(ww.type.cre if o[0] else ww.type.ann, dec_idx(o[1:]))


def dec_sym(y):
    return {"s": ww.sym.symm, "a": ww.sym.anti, "n": ww.sym.none}[y]


def dec_tensor(t):
    return w.Tensor(t["l"], [dec_idx(i) for i in t["d"]], [dec_idx(i) for i in t["u"]], dec_sym(t["y"]))


def dec_symterm(t):
    st = w.SymbolicTerm()
    for x in t["t"]:
        st.add(dec_tensor(x))
    if t["o"]:
        st.add([dec_op(o) for o in t["o"]])
    st.set_normal_ordered(bool(t["n"]))
    return st


def dec_term(t):
    tm = w.Term()
    for x in t["t"]:
        tm.add(dec_tensor(x))
    for o in t["o"]:
        tm.add(dec_op(o))
    tm.set_normal_ordered(bool(t["n"]))
    tm.set(w.rational(*t["c"]))
    return tm


def dec_expr(ts):
    e = w.Expression()
    for t in ts:
        e += (dec_symterm(t), w.rational(*t["c"]))
    return e


def comp_str(sp, c, a):
    s = []
    for i, n in enumerate(c):
        s += [sp[i]["l"] + "+"] * n
    for i in reversed(range(len(a))):
        s += [sp[i]["l"]] * a[i]
    return " ".join(s)


def dec_prod(sp, p):
    e = None
    for o in p:
        x = w.op(o["l"], [comp_str(sp, o["c"], o["a"])])
        e = x if e is None else e @ x
    return e


def dec_opexpr(sp, prods):
    e = w.OperatorExpression()
    for q in prods:
        x = dec_prod(sp, q["p"])
        if q["c"] != [1, 1]:
            x = w.rational(*q["c"]) * x
        e = e + x
    return e


OPLINE = re.compile(r"\s*(?:(?P<f>\d+/\d+|\d+)\s+)?(?P<l>[^\s{}]+)\s*\{(?P<legs>[^{}]*)\}\s*")


def enc_opexpr(e, sp, big=False):
    """operator expressions are visible through their text only"""
    lab = {s["l"]: i for i, s in enumerate(sp)}
    txt = str(e)
    out = []
    if txt == "":
        if e.size() != 0:
            raise Bad("size of an empty text")
        return out
    for line in txt.split("\n"):
        m = re.match(r"([+-]?)(\d+)?(?:/(\d+))?(?=\s|$|[A-Za-z])", line)
        if not m:
            raise Bad("operator expression line " + line)
        n = int(m[2]) if m[2] else 1
        d = int(m[3]) if m[3] else 1
        if m[1] == "-":
            n = -n
        out.append({"head": m[0], "c": {"n": commands.limbs(n), "d": commands.limbs(d)} if big else [n, d] if abs(n) < LIM and d < LIM else [1, 0], "rest": line[m.end():]})
    if len(out) != e.size():
        raise Bad("size and text disagree")
    for x in out:
        rest, ops = x.pop("rest"), []
        x.pop("head")
        pos = 0
        while pos < len(rest):
            m = OPLINE.match(rest, pos)
            if not m:
                if rest[pos:].strip() == "":
                    break
                raise Bad("operator text " + rest)
            f = m["f"]
            fr = [1, 1]
            if f:
                fr = [int(v) for v in f.split("/")] if "/" in f else [int(f), 1]
                if abs(fr[0]) >= LIM or abs(fr[1]) >= LIM:
                    fr = [1, 0]
            legs = []
            for t in m["legs"].split():
                c = 1 if t.endswith("+") else 0
                s = lab.get(t[:-1] if c else t)
                if s is None:
                    raise Bad("leg " + t)
                legs.append([c, s])
            ops.append({"l": m["l"], "g": legs, "f": fr})
            pos = m.end()
        x["p"] = ops
    return out


# ---------------------------------------------------------------- commands
class Ctx:
    def __init__(self, sp):
        self.sp, self.ns = sp, len(sp)
        self.wt, self.reg = {}, {}


def set_spaces(sp):
    w.reset_space()
    for s in sp:
        w.add_space(s["l"], {"f": "fermion", "b": "boson"}[s["f"]],
                    {"o": "occupied", "u": "unoccupied", "g": "general"}[s["y"]], list(s["x"]))


CMDS = {}


def cmd(f):
    CMDS[f.__name__] = f
    return f


sys.modules["driver"] = sys.modules[__name__]
import commands  # noqa: E402  (registers CMDS)


RACELOG = os.environ.get("VERIF_TSAN_LOG")
_seen = 0


def new_races():
    """race reports written since the last call"""
    global _seen
    f = "%s.%d" % (RACELOG, os.getpid())
    if not os.path.exists(f):
        return 0
    with open(f, errors="replace") as fh:
        n = fh.read().count("WARNING: ThreadSanitizer")
    d, _seen = n - _seen, n
    return d


def run_script(s):
    sp = s.get("sp", [])
    try:
        set_spaces(sp)
    except Exception as ex:
        s["ev"] = [dict(s["ev"][0], x=2, why="registering the spaces: " + str(ex)[:150])]
        return s
    cx = Ctx(sp)
    commands.start(cx)
    for e in s["ev"]:
        if RACELOG:
            new_races()
        try:
            r = CMDS[e["op"]](cx, e)
            e["x"] = 0
            if r is not None:
                e["r"] = r
        except Bad as b:
            e["x"] = 2
            e["why"] = str(b)[:200]
        except KeyboardInterrupt:
            raise
        except MemoryError as ex:
            e["x"] = 2
            e["why"] = "MemoryError " + str(ex)
        except Exception as ex:  # what the library raised
            if isinstance(ex, (AssertionError, NameError, SyntaxError)):
                raise
            e["x"] = 1
            e["why"] = (type(ex).__name__ + ": " + str(ex))[:200]
        if RACELOG:
            e["races"] = new_races()
    return s


def main():
    start, stride = int(START), int(STRIDE)
    with open(SCRIPTS) as f, open(OUT, "a") as out:
        for k, line in enumerate(f):
            if k < start or (k - start) % stride:
                continue
            s = json.loads(line)
            if s.get("fresh") and k > start:     # a process that has done nothing yet
                os.environ["VERIF_SCHED"] = str(int(os.environ.get("VERIF_SCHED", "1")) + 7919 * k)
                os.execv(sys.executable, [sys.executable, "-B", os.path.abspath(__file__)] + sys.argv[1:4] + [str(k), str(stride)])
            out.write("#%d\n" % k)
            out.flush()
            out.write(json.dumps(run_script(s)) + "\n")
            out.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
