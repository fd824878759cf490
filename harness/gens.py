"""Scripts for each property, and which design models and trace
specifications decide it."""
import itertools, json, math, os, random, re

CHECKS = {}
# quick checks that have time for more than the numbers written below
MORE = {"C01": 2, "C02": 1.5, "C03": 2, "C04": 1.5, "C06": 3, "C07": 8, "C08": 6, "C09": 3, "C11": 3, "C14": 1.5, "C15": 2.5, "C16": 1.5, "C17": 3, "C18": 6, "C19": 2.5,
        "C20": 2.5, "C21": 2.5, "C23": 2.5, "C24": 3}


class Gx:
    def __init__(self, rng, tier, scratch, TLC, cfg_text):
        self.r, self.tier, self.scratch, self.TLC, self.cfg = rng, tier, scratch, TLC, cfg_text
        self.quick = tier != "thorough"
        self.more = 1

    def n(self, quick, thorough):
        if self.quick and quick >= 100:
            return max(quick, min(int(quick * self.more), thorough))
        return quick if self.quick else thorough

    def histories(self, module, num, depth, consts=None, env=None, seed=None):
        """behaviours of a generator specification, from TLC's simulator"""
        rr = random.Random(self.r.random() if seed is None else seed)
        cfg = "INIT Init\nNEXT Next\nCONSTANT Depth = %d\n" % depth
        for k, v in (consts or {}).items():
            cfg += "CONSTANT %s = %s\n" % (k, v)
        t = self.TLC(self.scratch, module, cfg + "CHECK_DEADLOCK FALSE\n", workers=1, timeout=300, env=env,
                     args=["-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(rr.randrange(1 << 30))]).wait()
        out = []
        for m in re.finditer(r'<<\s*"HIST",\s*"((?:[^"\\]|\\.)*)"\s*>>', t.text):
            out.append(json.loads(json.loads('"' + m[1] + '"')))
        # the simulator prints every last step it could take: keep one per behaviour
        by = {}
        for h in out:
            by.setdefault(json.dumps(h[:-1], sort_keys=True), []).append(h)
        out = [rr.choice(v) for v in by.values()]
        if len(out) < num // 2:
            raise RuntimeError("generator %s: %d histories\n%s" % (module, len(out), t.text[-2000:]))
        return out


    def par(self, calls):
        """several histories(...) calls, given as (args, kwargs), side by side"""
        from concurrent.futures import ThreadPoolExecutor
        seeds = [self.r.random() for _ in calls]
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda c: self.histories(*c[0][0], seed=c[1], **c[0][1]), zip(calls, seeds)))

    def file(self, data):
        """a scratch file with one JSON value"""
        self.nfile = getattr(self, "nfile", 0) + 1
        p = os.path.join(self.scratch, "in%d.ndjson" % self.nfile)
        with open(p, "w") as f:
            f.write(json.dumps(data) + "\n")
        return p


def check(pid, **kw):
    def deco(f):
        CHECKS[pid] = dict(kw, gen=f)
        return f
    return deco


# ------------------------------------------------------------------ spaces
def S(l, f, y, x=()):
    return {"l": l, "f": f, "y": y, "x": list(x)}


O = S("o", "f", "o", "ijklmn")
V = S("v", "f", "u", "abcdef")
A_ = S("a", "f", "g", "uwxyzt")
C_ = S("c", "f", "o", "pqrs")
G_ = S("g", "f", "g", ["g0", "g1", "g2"])
B_ = S("b", "b", "u", ["B1", "B2"])
D_ = S("d", "b", "o", ["D1", "D2"])


def rename(sp, *labels):
    return [dict(s, l=l) for s, l in zip(sp, labels)]


def sr_spaces(r):
    """single-reference registries, in several orders and sizes"""
    return r.choice([[O, V], [O, V], [V, O], [O], [V], [C_, O, V], [O, V, dict(V, l="w", x=["A", "B"])],
                     [V, C_, dict(V, l="w", x=["A", "B"]), O]])


def gen_spaces(r):
    return r.choice([[A_], [O, A_, V], [A_, O, V], [O, A_, V], [V, A_], [A_, O], [A_, G_], [O, A_, G_, V]])


def rat(r, big=False):
    n = r.choice([1, 1, 1, -1, 2, -3, 5])
    d = r.choice([1, 1, 1, 2, 3, 4, 6])
    from math import gcd
    g = gcd(n, d)
    return [n // g, d // g]


BYSTANDERS = [S("x", "f", "u", "XYZ"), S("y", "f", "o", "PQ"), S("z", "f", "g", "LM"), S("h", "b", "u", "RS"), S("k", "f", "u", []),
              S("m", "f", "o", ["m1"]), S("n", "b", "o", "NO"), S("q", "f", "g", [])]


def spread(r, scripts, share=0.15, limit=8):
    """some of the scripts, with their spaces among others (up to eight) that
    nothing in them touches"""
    for s in scripts:
        sp = s["sp"]
        if r.random() >= share or len(sp) >= limit or any(e["op"] == "warm" for e in s["ev"]):
            continue
        pool = [b for b in BYSTANDERS if b["l"] not in [x["l"] for x in sp] and not set(b["x"]) & {n for x in sp for n in x["x"]}]
        n = min(limit, len(sp) + len(pool), r.choice([5, 6, 7, 8, 8]))
        if n <= len(sp):
            continue
        extra = r.sample(pool, n - len(sp))
        at = sorted(r.sample(range(n), len(sp)))
        new = [None] * n
        for i, x in zip(at, sp):
            new[i] = x
        s["sp"] = [x or extra.pop() for x in new]

        def vec(v):
            m = dict(zip(at, v))
            return [m.get(i, 0) for i in range(n)]

        def walk(e):
            if isinstance(e, list):
                return [walk(x) for x in e]
            if not isinstance(e, dict):
                return e
            z = {}
            for k, v in e.items():
                if k in "ca" and "l" in e and "y" not in e and "c" in e and "a" in e and isinstance(v, list):
                    z[k] = vec(v)                                   # legs of an operator
                elif k in "ud" and "y" in e:
                    z[k] = [[at[x[0]], x[1]] for x in v]            # indices of a tensor
                elif k in ("o", "os") and isinstance(v, list):      # a string, one operator of it
                    z[k] = [v[0], at[v[1]], v[2]] if v and isinstance(v[0], int) else [[x[0], at[x[1]], x[2]] for x in v]
                elif k == "legs":
                    z[k] = [[[x[0], at[x[1]]] for x in y] for y in v]
                elif k in ("csp", "asp"):
                    z[k] = [at[x] for x in v]
                elif k == "d" and "op" in e:
                    z[k] = vec(v)                                   # numbers of modes
                else:
                    z[k] = walk(v)
            return z
        s["ev"] = walk(s["ev"])
    return scripts


# ------------------------------------------------------- products of operators
def rand_op(r, sp, label, maxside, allow=None):
    ns = len(sp)
    c, a = [0] * ns, [0] * ns
    nc, na = r.randint(0, maxside), r.randint(0, maxside)
    if nc + na == 0:
        nc = 1
    for _ in range(nc):
        c[r.randrange(ns)] += 1
    for _ in range(na):
        a[r.randrange(ns)] += 1
    return {"l": label, "c": c, "a": a}


def exc_op(r, sp, label, rank, kind):
    """typical operators: excitation, deexcitation, number conserving"""
    ns = len(sp)
    occ = [i for i in range(ns) if sp[i]["y"] != "u"]
    vir = [i for i in range(ns) if sp[i]["y"] != "o"]
    if not occ or not vir:
        kind = "any"
    allx = list(range(ns))
    cs, as_ = {"exc": (vir, occ), "dex": (occ, vir), "any": (allx, allx)}[kind]
    c, a = [0] * ns, [0] * ns
    for _ in range(rank):
        c[r.choice(cs)] += 1
        a[r.choice(as_)] += 1
    return {"l": label, "c": c, "a": a}


def legs(p):
    return sum(sum(o["c"]) + sum(o["a"]) for o in p)


def vec_count(lims, k):
    f = [1] + [0] * k
    for m in lims:
        g = [0] * (k + 1)
        for i, v in enumerate(f):
            for j in range(min(m, k - i) + 1):
                g[i + j] += v
        f = g
    return f[k]


def cost(sp, p, maxcum=100):
    """rough number of block choices"""
    total = 1.0
    for s, x in enumerate(sp):
        cl, al = [o["c"][s] for o in p], [o["a"][s] for o in p]
        if x["y"] == "g":
            n = 0
            for k in range(1, min(sum(cl), sum(al), maxcum) + 1):
                n += vec_count(cl, k) * vec_count(al, k)
            total *= 1 + n + (n * n / 4 if min(sum(cl), sum(al)) > 1 else 0) + (n ** 3 / 40 if min(sum(cl), sum(al)) > 2 else 0)
        else:
            L, R = (cl, al) if x["y"] == "o" else (al, cl)
            for i in range(len(p)):
                for j in range(i + 1, len(p)):
                    total *= 1 + min(L[i], R[j])
    return total


def choices(sp, p, maxcum, stop):
    """the number of choices of multiplicities of elementary contractions, at most stop + 1"""
    total = 1
    for s, x in enumerate(sp):
        cl, al, k = [o["c"][s] for o in p], [o["a"][s] for o in p], len(p)
        bl = []
        if x["y"] == "g":
            for n in range(1, min(sum(cl), sum(al), maxcum) + 1):
                vs = [[v for v in itertools.product(*[range(min(m, n) + 1) for m in l]) if sum(v) == n] for l in (cl, al)]
                bl += [c + a for c in vs[0] for a in vs[1] if sum(c[i] + a[i] > 0 for i in range(k)) > 1]
        else:
            for i, j in itertools.combinations(range(k), 2):
                e = [0] * (2 * k)
                e[i if x["y"] == "o" else k + i] = 1
                e[k + j if x["y"] == "o" else j] = 1
                bl.append(tuple(e))
        n = 0
        stack = [(0, tuple(cl + al))]
        while stack and n <= stop:
            i, rem = stack.pop()
            if i == len(bl):
                n += 1
                continue
            while all(v >= 0 for v in rem):
                stack.append((i + 1, rem))
                rem = tuple(v - b for v, b in zip(rem, bl[i]))
        total *= n
        if total > stop:
            return stop + 1
    return total


LABELS = ["T", "V", "F", "T2", "S", "Lambda"]


def rand_prod(r, sp, maxlegs, maxcost, minops=2, maxops=4, maxside=3, maxcum=100):
    for _ in range(400):
        n = r.choice([m for m in (1, 2, 2, 2, 3, 3, 4, 5) if minops <= m <= maxops])
        p = []
        pool = LABELS[: r.choice([1, 2, 3, 4])]
        for i in range(n):
            u = r.random()
            lab = r.choice(pool)
            if u < 0.5:
                o = rand_op(r, sp, lab, maxside)
            else:
                o = exc_op(r, sp, lab, r.choice([1, 1, 2, 2, 3]), r.choice(["exc", "dex", "any"]))
            if p and r.random() < 0.35:
                o = json.loads(json.dumps(r.choice(p)))  # equal operators
            p.append(o)
        if legs(p) <= maxlegs and 1 < cost(sp, p, maxcum) <= maxcost:
            return p
    return [rand_op(r, sp, "T", 1), rand_op(r, sp, "V", 1)]


def contract_ev(k, prods, f=(1, 1), lo=0, hi=100, g=True, **kw):
    return dict({"op": "contract", "k": k, "e": prods, "f": list(f), "lo": lo, "hi": hi, "g": bool(g)}, **kw)


def one(p, c=(1, 1)):
    return [{"p": p, "c": list(c)}]


def mcwick(reg, ops, legs_, per, fock, tier="quick"):
    return dict(module="MCWick", tier=tier, timeout=850, workers=2 if tier == "quick" else 4,
                what="expansion by multiplicities = sum over labelled contractions%s; registry %d, up to %d operators, %d legs"
                     % (" = product of Fock matrices" if fock else "; windows add up", reg, ops, legs_),
                cfg="INIT Init\nNEXT Next\nCONSTANT Reg = %d\nCONSTANT MaxOps = %d\nCONSTANT MaxLegs = %d\nCONSTANT MaxPerOp = %d\nCONSTANT MaxFock = %d\n"
                    "INVARIANT Labelled\nINVARIANT Windows\nINVARIANT AsMap\nCHECK_DEADLOCK FALSE\n" % (reg, ops, legs_, per, fock))


def mccum(state, strings, legs_, cre, tier="quick"):
    return dict(module="MCCumulant", tier=tier, timeout=850, workers=2 if tier == "quick" else 4,
                what="generalized Wick theorem (density, hole density, cumulants, signs, index places) = product of matrices; correlated state %d, up to %d strings, %d legs"
                     % (state, strings, legs_),
                cfg="INIT Init\nNEXT Next\nCONSTANT State = %d\nCONSTANT MaxStrings = %d\nCONSTANT MaxLegs = %d\nCONSTANT MaxCre = %d\n"
                    "INVARIANT Vacuum\nINVARIANT Theorem\nINVARIANT SameAsOracle\nCHECK_DEADLOCK FALSE\n" % (state, strings, legs_, cre))


def mc_(module, cfg, what, tier="quick", **kw):
    """a design model: cfg lines -> configuration text"""
    return dict(module=module, tier=tier, what=what, timeout=850, workers=2 if tier == "quick" else 4,
                cfg="\n".join(cfg) + "\nCHECK_DEADLOCK FALSE\n", **kw)


def mc_back(n, clear="TRUE", tier="quick", **kw):
    return mc_(
        "MCBacktrack", ["SPECIFICATION Spec", "CONSTANT Clear = %s" % clear, "CONSTANT MaxAsked = %d" % n, "INVARIANT Inv"] + (["PROPERTY Ends"] if clear == "TRUE" else []),
        "the search for the selections of elementary contractions: every selection once, within the window, whatever was asked before; it ends" if clear == "TRUE"
        else "a search whose table of free legs is not set anew for every product must break the invariant", tier, **kw)


MC_NORMAL = [mc_("MCNormal", ["SPECIFICATION Spec", "CONSTANT MaxLen = %d" % n, "CONSTANT WithBoson = %s" % b, "INVARIANT Sound", "INVARIANT Confluent", "INVARIANT AsMatrix", "PROPERTY Ends"],
                 "rewriting into vacuum normal order: every step keeps the operator (as matrices), every order of steps ends in the same form, and ends; up to %d operators" % n, t)
             for n, b, t in ((4, "TRUE", "quick"), (5, "FALSE", "thorough"), (5, "TRUE", "thorough"))]
MC_CANON = [mc_("MCCanon", ["INIT Init", "NEXT Next", "CONSTANT Level = %d" % n, "INVARIANT Same"],
                "random renamings, exchanges of antisymmetric places and of factors keep the class and move the sign as the order of operators says; different contractions are told apart", t,
                args=("-seed", "7"))
            for n, t in ((1, "quick"), (2, "thorough"))]
MC_ALGEBRA = [mc_("MCAlgebra", ["SPECIFICATION Spec", "CONSTANT MaxSteps = %d" % n, "INVARIANT Laws", "PROPERTY Kept"],
                  "finite linear combinations: the laws of a vector space in every reachable pair of sums, adjoint an involution, no operation disturbs another sum", t)
              for n, t in ((2, "quick"), (3, "thorough"))]
MC_OPALG = [mc_("MCOpAlg", ["INIT Init", "NEXT Next", "CONSTANT MaxOps = %d" % n, "CONSTANT MaxLegs = %d" % k, "INVARIANT Form", "INVARIANT Contract", "INVARIANT Needed"],
                "sums of products of named operators: products, commutators, the series; which products can contract", t)
            for n, k, t in ((3, 4, "quick"), (4, 6, "thorough"))]
MC_TEXT = [mc_("MCText", ["INIT Init", "NEXT Next", "CONSTANT MaxPieces = %d" % n, "INVARIANT RoundTrip", "INVARIANT TexTells", "INVARIANT Equation", "INVARIANT LettersExact"],
               "every term of up to %d pieces: reading the printed line gives the term back, LaTeX tells terms apart, an equation has all of its term, letters are accepted exactly if the contraction is the equation" % n, t)
           for n, t in ((2, "quick"), (3, "thorough"))]


MCW_SR = [mcwick(1, 2, 4, 3, 4), mcwick(1, 3, 4, 3, 3, "thorough"), mcwick(1, 3, 6, 4, 4, "thorough"), mcwick(2, 2, 6, 4, 5, "thorough")]
MCW_GEN = [mcwick(3, 3, 4, 4, 0), mcwick(3, 3, 6, 4, 0, "thorough"), mcwick(4, 3, 4, 3, 0, "thorough"), mcwick(5, 2, 4, 3, 0, "thorough")]


def families(r, cx, y, n, maxcost):
    """products over one space with many equal legs: operators with up to
    five creators or annihilators, also pure ones; the number of kinds of
    legs stays small, so that the oracle is quick"""
    out = []
    f = S("p", "f", y, "pqrs")
    while len(out) < n:
        k = r.choice([2, 2, 2, 3, 3, 4, 5])
        top = {2: 5, 3: 3, 4: 2, 5: 1}[k]
        p = []
        for i in range(k):
            c, a = r.choice([(r.randint(0, top), 0), (0, r.randint(0, top)), (r.randint(0, top), r.randint(0, top))] if k < 5 else [(1, 0), (0, 1)])
            p.append({"l": r.choice("ABCT"), "c": [c], "a": [a]})
        mc = r.choice([None, 1, 2, 3, 4]) if y == "g" else None
        if any(sum(o["c"]) + sum(o["a"]) == 0 for o in p) or legs(p) > 14:
            continue
        if not 1 < cost([f], p, mc or 100) <= maxcost:
            continue
        out.append((f, p, mc))
    return out


def wide(r, n, gen=False):
    """two or three operators with many equal legs: coefficients with large
    factorials, more than 32 and more than 64 legs"""
    out = []
    while len(out) < n:
        sp = r.choice([[A_], [A_], [O, A_], [A_, V]]) if gen else r.choice([[O], [V], [O, V], [V, O]])
        ns = len(sp)
        mc = r.choice([1, 1, 2]) if gen else None
        k = 2 if gen else r.choice([2, 2, 2, 3])
        top = r.choice([3, 6, 9, 12, 18, 25]) if k == 2 and mc != 2 else r.choice([2, 3, 5, 8])
        p = []
        for i in range(k):
            c, a = [0] * ns, [0] * ns
            for s in range(ns):
                if r.random() < 0.6:
                    c[s] = r.choice([0, 1, 2, top, max(0, top - 1), r.randint(0, top)])
                if r.random() < 0.6:
                    a[s] = r.choice([0, 1, 2, top, max(0, top - 1), r.randint(0, top)])
            p.append({"l": "ABC"[i], "c": c, "a": a})
        if any(sum(o["c"]) + sum(o["a"]) == 0 for o in p) or not 12 < legs(p) <= 80:
            continue
        if gen and any(x["y"] == "g" and min(sum(o["c"][i] for o in p), sum(o["a"][i] for o in p)) > 4 for i, x in enumerate(sp)):
            continue  # equal cumulants are numbered in all ways by the oracle
        n_ = choices(sp, p, mc or 100, 60)
        if not 1 < n_ <= 60:
            continue
        if legs(p) * n_ > 1500:
            continue
        out.append((sp, p, mc))
    return out


def crowd(r, n, kinds):
    """operators with legs in many of five to eight spaces"""
    out = []
    while len(out) < n:
        ns = r.choice([5, 6, 7, 8])
        sp = [S("abcdefgh"[i], "f", r.choice(kinds), ["%s%d" % ("ABCDEFGH"[i], j) for j in range(r.randrange(4))]) for i in range(ns)]
        p = []
        for k in range(r.choice([2, 2, 3])):
            c, a = [0] * ns, [0] * ns
            for v in (c, a):
                for _ in range(r.choice([0, 1, 2, 3])):
                    v[r.choice([r.randrange(ns), ns - 1, r.randrange(ns)])] += 1
            if p and r.random() < 0.6:      # legs that can be contracted with the operator before
                c, a = ([x if r.random() < 0.7 else y for x, y in zip(p[-1]["a"], c)], [x if r.random() < 0.7 else y for x, y in zip(p[-1]["c"], a)])
            p.append({"l": r.choice("ABT"), "c": c, "a": a})
        if any(sum(o["c"]) + sum(o["a"]) == 0 for o in p) or legs(p) > 12 or not 1 < cost(sp, p) <= 200:
            continue
        out.append({"sp": sp, "ev": [{"op": "eng", "k": 1}, contract_ev(1, one(p, rat(r)), rat(r))]})
    return out


def odd(r, n, gen=False, maxcost=300, maxlegs=12, spaces=None):
    """single operators, products without any contraction, operators without
    legs, six and seven operators, many equal ones, long and similar labels"""
    out = []
    while len(out) < n:
        sp = spaces or (gen_spaces(r) if gen else sr_spaces(r))
        ns = len(sp)
        kind = r.choice(["single", "none", "scalar", "scalar", "many", "many", "equal", "labels"])
        if kind == "single":
            p = [rand_op(r, sp, r.choice(LABELS), 3)]
        elif kind == "none":
            p = [rand_op(r, sp, r.choice("AB"), 2) for _ in range(r.choice([2, 3, 4]))]
            if cost(sp, p) > 1:
                p = [dict(o, a=[0] * ns) for o in p]
        elif kind == "scalar":
            p = rand_prod(r, sp, 8, 60, minops=1, maxops=3, maxside=2)
            for _ in range(r.choice([1, 1, 2, 3])):
                p.insert(r.randrange(len(p) + 1), {"l": r.choice(["E", "E", "S", p[0]["l"]]), "c": [0] * ns, "a": [0] * ns})
            if r.random() < 0.15:
                p = [o for o in p if not legs([o])]
        elif kind == "many":
            p = []
            labs = r.choice(["A", "AB", "ABCDEFG"])
            for i in range(r.choice([5, 6, 6, 7, 8])):
                o = {"l": r.choice(labs), "c": [0] * ns, "a": [0] * ns}
                for _ in range(r.choice([1, 1, 1, 2])):
                    o[r.choice("ca")][r.randrange(ns)] += 1
                p.append(o)
        elif kind == "equal":
            o = rand_op(r, sp, "T", r.choice([1, 1, 2]))
            p = [dict(o) for _ in range(r.choice([3, 4, 5, 6]))]
            p.insert(r.randrange(len(p) + 1), rand_op(r, sp, "H", 2))
        else:
            p = rand_prod(r, sp, 8, 60, minops=2, maxops=4, maxside=2)
            labs = r.choice([["T", "T2", "T22", "t"], ["Lambda_one", "Lambda_two", "Lambda_on"], ["x" * 20, "x" * 19 + "y", "x" * 40], ["eta", "gamma", "lambda"],
                             ["a", "A", "aA", "Aa"], ["T1", "T10", "T01", "1T"], ["T'", "T''", "T_"]])
            m = {l: labs[i % len(labs)] for i, l in enumerate(sorted({o["l"] for o in p}, key=lambda _: r.random()))}
            p = [dict(o, l=m[o["l"]]) for o in p]
        if not p or legs(p) > maxlegs or cost(sp, p, 3 if gen else 100) > maxcost or gen and choices(sp, p, 3, maxcost) > maxcost:
            continue
        out.append((sp, json.loads(json.dumps(p))))
    return out


def odd_scripts(r, n, gen=False, **kw):
    out = []
    for sp, p in odd(r, n, gen, **kw):
        mc = [{"op": "maxcum", "k": 1, "v": r.choice([1, 2, 3])}] if gen else []
        f = r.choice([rat(r), rat(r), rat(r), [0, 1]])
        c = r.choice([rat(r), rat(r), rat(r), [0, 1]])
        w = r.choice([(0, 100), (0, 100), (0, 0), (1, 2)])
        out.append({"sp": sp, "ev": [{"op": "eng", "k": 1}] + mc + [contract_ev(1, one(p, c), f, *w)]})
    return out


def wide_scripts(r, n, gen=False, windows=False):
    out = []
    for sp, p, mc in wide(r, n, gen):
        ev = [{"op": "eng", "k": 1}, {"op": "graph", "k": 1, "v": False}] + ([{"op": "maxcum", "k": 1, "v": mc}] if mc else [])
        hi = legs(p)
        if not windows:
            ev.append(dict(contract_ev(1, one(p), (1, 1), 0, hi), op="contract_big"))
        for _ in range(r.choice([3, 4, 5]) if windows else r.choice([0, 1])):
            lo = r.randint(0, hi)
            ev.append(dict(contract_ev(1, one(p), (1, 1), lo, r.randint(lo, hi)), op="contract_big"))
        out.append({"sp": sp, "ev": ev})
    return out


def many(r, n, lo, hi, gen=False):
    """products with lo to hi choices of multiplicities of elementary contractions"""
    out = []
    while len(out) < n:
        sp = r.choice([[A_], [O, A_, V], [A_, V]]) if gen else r.choice([[O, V], [V, O], [C_, O, V], [O]])
        mc = r.choice([1, 2, 3]) if gen else None
        k = r.choice([2, 2, 3]) if gen else r.choice([2, 3, 3, 4, 4, 5])
        top = r.choice([2, 3]) if gen else r.choice([2, 3, 4, 6])
        p = [dict(rand_op(r, sp, "ABCDE"[i], top)) for i in range(k)]
        m = choices(sp, p, mc or 100, hi)
        if lo <= m <= hi and legs(p) <= 18:
            out.append((sp, p, mc, m))
    return out


def many_scripts(r, n, lo, hi, reps, gen=False):
    """big contractions, with one thread and with one thread per contraction:
    the number of terms, and the same answer every time"""
    out = []
    for sp, p, mc, m in many(r, n, lo, hi, gen):
        distinct = r.random() < 0.7
        if not distinct:
            p = [dict(o, l=r.choice("AB")) for o in p]
        top = legs(p)
        l = r.choice([0, 0, 0, r.randint(0, top)])
        h = r.choice([top, top, r.randint(l, top)])
        g = not distinct and len(p) <= 3 and r.random() < 0.6
        ev = [{"op": "eng", "k": 1}, {"op": "graph", "k": 1, "v": g}] + ([{"op": "maxcum", "k": 1, "v": mc}] if mc else [])
        for single, k in ((True, 1), (False, reps), (True, 1)):
            ev += [{"op": "single", "k": 1, "v": single}, dict(contract_ev(1, one(p, (1, 1)), (1, 1), l, h, g), op="contract_tok", n=k, count=distinct)]
        out.append({"sp": sp, "ev": ev})
    return out


def first_scripts(r, n):
    """the first contractions of a process, with one thread per contraction
    from the start; cumulants of up to eight bodies"""
    out, wide = [], [x for x in itertools.product(range(5), repeat=4) if 4 <= sum(x) <= 16 and max(x) - min(x) <= 3]
    while len(out) < n:
        k = len(out) % 3
        if k:
            sp = r.choice([[A_], [A_], [O, A_], [A_, V]])
            g = sp.index(A_)
            x = r.choice(wide)
            p = [{"l": l, "c": [r.choice([0, 0, 1]) for _ in sp], "a": [r.choice([0, 0, 1]) for _ in sp]} for l in "AB"]
            p[0]["c"][g], p[0]["a"][g], p[1]["c"][g], p[1]["a"][g] = x
            mc = 100
        else:
            sp, p, mc, m = many(r, 1, 20, 200, r.random() < 0.5)[0]
        if not (10 <= choices(sp, p, mc or 100, 450) <= 450):
            continue
        ev = [{"op": "eng", "k": 1}, {"op": "graph", "k": 1, "v": r.random() < 0.5}] + ([{"op": "maxcum", "k": 1, "v": mc}] if mc else [])
        for single, j in ((False, 1), (True, 1)):
            ev += [{"op": "single", "k": 1, "v": single}, dict(contract_ev(1, one(p, (1, 1)), (1, 1), 0, legs(p), ev[1]["v"]), op="contract_tok", n=j, count=len({o["l"] for o in p}) == len(p))]
        out.append({"sp": sp, "ev": ev, "fresh": True})
    return out


def swarm_scripts(r, n):
    """more contractions than the system has threads for"""
    out = []
    for _ in range(n):
        ls = r.choice([[(1, 1), (2, 2), (2, 2), (2, 2)], [(2, 2), (2, 2), (2, 1), (1, 2)]])
        ls = r.sample(ls, 4)
        p = [{"l": "ABCD"[i] if r.random() < 0.7 else "A", "c": [x[0]], "a": [x[1]]} for i, x in enumerate(ls)]
        ev = [{"op": "eng", "k": 1}, {"op": "graph", "k": 1, "v": False}, {"op": "maxcum", "k": 1, "v": r.choice([3, 4, 100])}]
        for single in r.sample((True, False), 2):
            ev += [{"op": "single", "k": 1, "v": single}, dict(contract_ev(1, one(p), (1, 1), 0, 14, False), op="contract_tok", n=1, count=False)]
        out.append({"sp": [A_], "ev": ev, "build": "plain"})
    return out


@check("C01", mod="TraceWick", level="model_checking", mc=MCW_SR,
       domain="products of 1 to 5 operators over 1 to 4 occupied/unoccupied spaces, up to 14 legs; single, leg-less, equal and non-contracting operators, 5 to 8 operators, long and similar labels")
def c01(cx):
    r, out = cx.r, []
    # every pair of operators with at most one leg of each kind over o, v
    kinds = list(itertools.product((0, 1), repeat=4))
    pairs = [(x, y) for x in kinds for y in kinds if sum(x) and sum(y)]
    if cx.quick:
        pairs = r.sample(pairs, 70)
    for x, y in pairs:
        p = [{"l": "T", "c": list(x[:2]), "a": list(x[2:])}, {"l": "V", "c": list(y[:2]), "a": list(y[2:])}]
        out.append({"sp": [O, V], "ev": [{"op": "eng", "k": 1}, contract_ev(1, one(p))]})
    # well-known products: many equivalent contractions and equal operators
    ov = [O, V]
    t = lambda n: {"l": "T", "c": [0, n], "a": [n, 0]}
    d = lambda n, l="V": {"l": l, "c": [n, 0], "a": [0, n]}
    h = {"l": "H", "c": [1, 1], "a": [1, 1]}
    for p in ([d(2), t(2)], [d(2), t(1), t(1)], [d(3), t(3)], [t(2), d(2)], [h, t(2)], [d(2), t(2), t(2)],
              [d(2), t(1), t(1), t(2)], [d(2), t(1), t(1), t(1), t(1)], [d(1), h, t(2)], [d(1), d(1), t(1), t(1)],
              [d(2, "L"), h, t(2)], [{"l": "V", "c": [2, 0], "a": [2, 0]}] * 2, [{"l": "V", "c": [0, 2], "a": [0, 2]}] * 2,
              [d(4), t(4)], [d(2), d(1), t(3)], [{"l": "P", "c": [4, 0], "a": [0, 0]}, {"l": "Q", "c": [0, 0], "a": [4, 0]}]):
        out.append({"sp": ov, "ev": [{"op": "eng", "k": 1}, contract_ev(1, one(p))]})
    for f, p, _ in families(r, cx, "o", cx.n(40, 200), 300) + families(r, cx, "u", cx.n(40, 200), 300):
        out.append({"sp": [f], "ev": [{"op": "eng", "k": 1}, contract_ev(1, one(p, rat(r)), rat(r))]})
    for _ in range(cx.n(350, 900)):
        sp = sr_spaces(r)
        p = rand_prod(r, sp, cx.n(12, 16), cx.n(300, 2000), maxops=5)
        out.append({"sp": sp, "ev": [{"op": "eng", "k": 1}, contract_ev(1, one(p, rat(r)), rat(r))]})
    out += crowd(r, cx.n(40, 300), "ou") + wide_scripts(r, cx.n(40, 300)) + odd_scripts(r, cx.n(100, 800))
    # more than one hundred simultaneous contractions
    for n, m in ((55, 55), (60, 45), (80, 30)) if cx.quick else ((55, 55), (60, 45), (45, 62), (80, 30), (80, 80), (90, 95)):
        p = [{"l": "A", "c": [n, 0], "a": [0, m]}, {"l": "B", "c": [0, m], "a": [n, 0]}]
        out.append({"sp": [O, V], "ev": [{"op": "eng", "k": 1}, {"op": "graph", "k": 1, "v": False},
                                         dict(contract_ev(1, one(p), (1, 1), 0, 2), op="contract_big")]})
    # a full contraction of n pairs: n! far beyond a machine word
    for n in (13, 20, 21, 22, 24, 30):
        f = S("p", "f", "ou"[n % 2], "pqrs")
        p = [{"l": "A", "c": [n], "a": [0]}, {"l": "B", "c": [0], "a": [n]}]
        if n % 2:
            p.reverse()
            p = [dict(o, l="AB"[i]) for i, o in enumerate(p)]
        out.append({"sp": [f], "ev": [{"op": "eng", "k": 1}, {"op": "graph", "k": 1, "v": False},
                                      dict(contract_ev(1, one(p), (1, 1), 0, 2 * n), op="contract_big")]})
    return spread(r, out)


@check("C02", mod="TraceWick", level="model_checking", mc=MCW_GEN + [mccum(1, 2, 4, 2), mccum(2, 3, 5, 2, "thorough"), mccum(3, 3, 5, 2, "thorough")],
       domain="products of 2 to 4 operators over registries with one or two general spaces, up to 10 legs, maximum cumulant 1 to 4 or unlimited; 5 to 7 small operators; cumulants of up to 12 bodies; 7 to 17 of up to 62 equal legs; single, leg-less, equal and non-contracting operators, long and similar labels")
def c02(cx):
    r, out = cx.r, []
    a = [A_]
    g = lambda l, c, n: {"l": l, "c": [c], "a": [n]}
    for mc in (None, 1, 2):
        for p in ([g("A", 1, 1), g("B", 1, 1)], [g("A", 2, 2), g("B", 1, 1)], [g("A", 1, 1), g("B", 2, 2)], [g("A", 2, 2), g("B", 2, 2)],
                  [g("A", 1, 1), g("B", 1, 1), g("C", 1, 1)], [g("A", 2, 0), g("B", 0, 2)], [g("A", 0, 2), g("B", 2, 0)],
                  [g("A", 1, 0), g("B", 0, 1)], [g("A", 0, 1), g("B", 1, 0)], [g("A", 1, 1), g("A", 1, 1)],
                  [g("A", 2, 0), g("B", 1, 1), g("C", 0, 2)]):
            ev = [{"op": "eng", "k": 1}] + ([{"op": "maxcum", "k": 1, "v": mc}] if mc else []) + [contract_ev(1, one(p))]
            out.append({"sp": a, "ev": ev})
    # cumulants that take several equal legs of one operator
    for x in ((4, 0, 0, 2), (4, 0, 1, 2), (5, 0, 0, 2), (5, 0, 0, 3), (2, 0, 0, 4), (0, 4, 2, 0), (0, 5, 2, 1), (4, 1, 0, 2), (0, 4, 4, 0), (4, 0, 0, 4), (5, 0, 0, 5)):
        for mc in (2, 3, 5):
            p = [{"l": "A", "c": [x[0]], "a": [x[1]]}, {"l": "B", "c": [x[2]], "a": [x[3]]}]
            out.append({"sp": [S("p", "f", "g", "pqrs")], "ev": [{"op": "eng", "k": 1}, {"op": "maxcum", "k": 1, "v": mc}, contract_ev(1, one(p))]})
    for f, p, mc in families(r, cx, "g", cx.n(100, 400), cx.n(300, 2000)):
        ev = [{"op": "eng", "k": 1}] + ([{"op": "maxcum", "k": 1, "v": mc}] if mc else []) + [contract_ev(1, one(p, rat(r)), rat(r))]
        out.append({"sp": [f], "ev": ev})
    for _ in range(cx.n(220, 700)):
        sp = gen_spaces(r)
        mc = r.choice([None, None, 1, 2, 2, 3, 4])
        p = rand_prod(r, sp, cx.n(8, 10), cx.n(500, 4000), maxops=4, maxside=2, maxcum=mc or 100)
        ev = [{"op": "eng", "k": 1}] + ([{"op": "maxcum", "k": 1, "v": mc}] if mc else []) + [contract_ev(1, one(p, rat(r)), rat(r))]
        out.append({"sp": sp, "ev": ev})
    # cumulants of many bodies: the terms with at most two densities or cumulants
    for k in range(cx.n(12, 60)):
        n = r.choice([5, 6, 7, 8, 9, 10, 11, 12])
        f = S("p", "f", "g", "pqrs")
        c = [n + r.choice([0, 0, 1]), r.choice([0, 0, 0, 1])]
        a = [r.choice([0, 0, 1]) if n < 8 else 0, n + r.choice([0, 0, 1])]
        if r.random() < 0.4:
            c, a = a, c
        p = [{"l": "A", "c": [c[0]], "a": [a[0]]}, {"l": "B", "c": [c[1]], "a": [a[1]]}]
        if choices([f], p, 100, 900) > 900:
            continue
        out.append({"sp": [f], "ev": [{"op": "eng", "k": 1}, {"op": "graph", "k": 1, "v": False}, {"op": "maxcum", "k": 1, "v": 100},
                                      dict(contract_ev(1, one(p), (1, 1), 0, legs(p)), op="contract_big", m=r.choice([1, 2]))]})
    # few of many equal legs: the number of ways to choose them does not fit in 32 bits
    for k in range(cx.n(6, 60)):
        n, b = r.choice([(60, 8), (60, 9), (62, 8), (56, 9), (50, 10), (46, 11), (40, 13), (40, 12), (36, 14), (34, 17), (62, 10)][:cx.n(9, 11)])
        f = S("p", "f", "g", "pqrs")
        x, y = [[n], [0]], [[0], [b]]
        if r.random() < 0.5:
            x, y = x[::-1], y[::-1]
        p = [{"l": "A", "c": x[0], "a": x[1]}, {"l": "B", "c": y[0], "a": y[1]}]
        if r.random() < 0.5:
            p.reverse()
        lo, hi = r.choice([(n - b, n - b), (n - b, n - b + 2), (n - b, n - b + 6)])
        out.append({"sp": [f], "ev": [{"op": "eng", "k": 1}, {"op": "graph", "k": 1, "v": False},
                                      dict(contract_ev(1, one(p), (1, 1), lo, hi), op="contract_big", m=r.choice([1, 2, 2]))]})
    # densities and cumulants over five to seven operators
    for _ in range(cx.n(30, 200)):
        f = S("p", "f", "g", "pqrs")
        k = r.choice([5, 5, 6, 6, 7])
        n = r.choice([k, k, k + 1, k + 2, 8])
        one_side = r.random() < 0.4
        ls = [[0, 0] for _ in range(k)]
        if one_side:
            # one operator with many legs, one leg on each of the others
            z, t = r.randrange(k), r.randrange(2)
            for i in range(k):
                ls[i][t] += i != z
            ls[z][1 - t] = r.randint(k - 2, k)
        else:
            for i in list(range(k)) + [r.randrange(k) for _ in range(n - k)]:
                ls[i][r.randrange(2)] += 1
        p = [{"l": "ABCDEFG"[i], "c": [x[0]], "a": [x[1]]} for i, x in enumerate(ls)]
        mc = r.choice([100, 100, 5, 4, 3, 2])
        if choices([f], p, mc, cx.n(300, 900)) > cx.n(300, 900):
            continue
        out.append({"sp": [f], "ev": [{"op": "eng", "k": 1}, {"op": "graph", "k": 1, "v": False}, {"op": "maxcum", "k": 1, "v": mc},
                                      dict(contract_ev(1, one(p), (1, 1), 0, legs(p)), op="contract_big")]})
    return spread(r, out + crowd(r, cx.n(30, 200), "oug") + wide_scripts(r, cx.n(30, 250), True) + odd_scripts(r, cx.n(60, 500), True, maxlegs=8, maxcost=150))


# ------------------------------------------------------------------ C03, C04
def windows(r, p):
    n = legs(p)
    return r.choice([(0, 0), (0, 1), (1, 1), (2, 2), (0, 2), (2, 4), (1, 3), (3, 5), (n, n), (n - 1, n), (n + 1, n + 3), (3, 2), (4, 4),
                     (0, n), (-2, 2), (n, 100), (6, 6), (n - 2, n - 2)])


@check("C03", mod="TraceWick", level="model_checking", mc=[mcwick(1, 2, 4, 2, 0), mcwick(4, 2, 4, 2, 0), mc_back(2), mc_back(2, "FALSE", expect="Invariant Inv is violated"),
           mcwick(1, 3, 6, 4, 0, "thorough"), mc_back(3, tier="thorough")],
       domain="windows (also empty, odd, reversed, negative, beyond the number of legs) on products and on sums of 1 to 10 products with rational coefficients and an overall factor; single, leg-less, equal and non-contracting operators, 5 to 8 operators, long and similar labels")
def c03(cx):
    r, out = cx.r, []
    for _ in range(cx.n(110, 500)):
        sp = r.choice([sr_spaces(r), sr_spaces(r), gen_spaces(r)])
        gen = any(x["y"] == "g" for x in sp)
        p = rand_prod(r, sp, cx.n(8 if gen else 10, 9 if gen else 14), cx.n(150, 1500), maxside=2 if gen else 3)
        ev = [{"op": "eng", "k": 1}]
        for _ in range(r.choice([2, 3, 4])):
            lo, hi = windows(r, p)
            kw = {"nof": True} if r.random() < 0.2 else {}
            ev.append(contract_ev(1, one(p), (1, 1) if kw else rat(r), lo, hi, **kw))
        # a complete split into windows of one rank
        out.append({"sp": sp, "ev": ev})
    for _ in range(cx.n(110, 500)):
        sp = r.choice([sr_spaces(r), [O, V], gen_spaces(r)])
        gen = any(x["y"] == "g" for x in sp)
        e, seen = [], set()
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            p = rand_prod(r, sp, 6 if gen else 8, cx.n(60, 400), minops=1, maxops=3, maxside=2)
            if r.random() < 0.3 and e:
                p = list(reversed(e[-1]["p"]))
            if json.dumps(p) in seen:
                continue
            seen.add(json.dumps(p))
            e.append({"p": p, "c": rat(r)})
        lo, hi = r.choice([(0, 100), (0, 100), (0, 2), (2, 2), (0, 0), (1, 4)])
        f = r.choice([rat(r), rat(r), [0, 1]])
        out.append({"sp": sp, "ev": [{"op": "eng", "k": 1}, contract_ev(1, e, f, lo, hi)] +
                    ([contract_ev(1, e, (1, 1), lo, hi, nof=True)] if r.random() < 0.3 else [])})
    # every window of small products and of sums of products of different sizes
    for k in range(cx.n(60, 150)):
        sp = r.choice([[O, V], [V, O], [A_], [O, A_, V], [A_, O], [A_, V, O], [A_, V]])
        gen = any(x["y"] == "g" for x in sp)
        e = []
        while len(e) < [1, 2, 1, 3][k % 4]:
            p = rand_prod(r, sp, r.choice([3, 4, 5, 6, 8 if gen else 6]), 40 if gen else 12, minops=1, maxops=3, maxside=2)
            if p not in [x["p"] for x in e]:
                e.append({"p": p, "c": rat(r)})
        n = max(legs(x["p"]) for x in e)
        ws = [(lo, hi) for lo in range(-1, n + 2) for hi in range(lo, n + 2)]
        for j in range(0, len(ws), 12):
            out.append({"sp": sp, "ev": [{"op": "eng", "k": 1}] + [contract_ev(1, e, (1, 1), lo, hi) for lo, hi in ws[j:j + 12]]})
    out += wide_scripts(r, cx.n(25, 200), False, True) + wide_scripts(r, cx.n(15, 150), True, True)
    # sums of many products, some with equal operators or opposite coefficients
    for _ in range(cx.n(30, 200)):
        gen = r.random() < 0.3
        sp = gen_spaces(r) if gen else sr_spaces(r)
        e = []
        for _ in range(r.choice([5, 6, 8, 10])):
            p = odd(r, 1, gen, 30, 6)[0] if r.random() < 0.2 else (sp, rand_prod(r, sp, 5, 12 if gen else 20, minops=1, maxops=3, maxside=1))
            if p[0] == sp and p[1] not in [x["p"] for x in e]:
                e.append({"p": p[1], "c": r.choice([rat(r), e[-1]["c"] if e else [1, 1], [-e[-1]["c"][0], e[-1]["c"][1]] if e else [0, 1], [0, 1]])})
        lo, hi = r.choice([(0, 100), (0, 100), (0, 2), (2, 2), (0, 0), (1, 4)])
        out.append({"sp": sp, "ev": [{"op": "eng", "k": 1}] + ([{"op": "maxcum", "k": 1, "v": 2}] if gen else []) + [contract_ev(1, e, rat(r), lo, hi)]})
    # nothing asked: the empty operator expression
    out.append({"sp": [O, V], "ev": [{"op": "eng", "k": 1}, contract_ev(1, [], (1, 1), 0, 100), contract_ev(1, [], (3, 2), 0, 0)]})
    return spread(r, out)


# ---------------------------------------------------------------------- C06
def dims_for(r, sp, prods, M):
    """about M modes, enough for every operator not to vanish"""
    d = [max([1] + [max(o["c"][s], o["a"][s]) for p in prods for o in p]) for s in range(len(sp))]
    while sum(d) < M:
        d[r.randrange(len(sp))] += 1
    return d


def term_indices(p):
    return legs(p)


@check("C06", mod="TraceFock", level="model_checking", mc=[mcwick(1, 2, 4, 3, 4), mcwick(2, 2, 6, 4, 5, "thorough"), mcwick(1, 3, 6, 4, 4, "thorough")],
       domain="products of 1 to 4 operators, up to 8 legs, all pseudo-random amplitudes on 2 to 5 modes; whole map and reference expectation value; single, leg-less, equal and non-contracting operators, 5 to 8 operators, long and similar labels")
def c06(cx):
    r, out = cx.r, []
    for i in range(cx.n(400, 2500)):
        sp = r.choice([[O, V], [O, V], [V, O], [O], [V], [O, V, dict(V, l="w", x=["A", "B"])], [C_, O, V]])
        p = rand_prod(r, sp, cx.n(7, 8), cx.n(100, 400), minops=1, maxops=4, maxside=2)
        e = one(p, rat(r))
        if r.random() < 0.25:
            e.append({"p": rand_prod(r, sp, 4, 40, minops=1, maxops=2, maxside=1), "c": rat(r)})
            if e[0]["p"] == e[1]["p"]:
                e.pop()
        d = dims_for(r, sp, [q["p"] for q in e], r.choice([3, 4] if cx.quick else [3, 4, 5]))
        n = max(math.prod(d[s] ** sum(o["c"][s] + o["a"][s] for o in q["p"]) for s in range(len(sp))) for q in e)
        if sum(d) > cx.n(4, 6) or n > cx.n(600, 8000):
            continue
        hi = 100 if i % 4 else 0
        out.append({"sp": sp, "ev": [{"op": "eng", "k": 1}, contract_ev(1, e, rat(r), 0, hi, d=d)]})


    # operators without legs, single ones, many equal ones
    for gen in (False, True):
        for sp, p in odd(r, cx.n(60, 500), gen, 60, 7 if cx.quick else 8):
            d = dims_for(r, sp, [p], r.choice([2, 3, 4]))
            n = math.prod(d[s] ** sum(o["c"][s] + o["a"][s] for o in p) for s in range(len(sp)))
            if sum(d) > cx.n(4, 5) or n > cx.n(400, 4000) or term_cost(d, p) > cx.n(400, 4000):
                continue
            out.append({"sp": sp, "ev": [{"op": "eng", "k": 1}, contract_ev(1, one(p, rat(r)), rat(r), 0, r.choice([0, 100, 100]), d=d)]})
    # general spaces: the reference is a determinant that fills every other mode of them
    for i in range(cx.n(220, 1500)):
        sp = r.choice([[A_], [A_], [O, A_], [A_, V], [O, A_, V], [A_, dict(A_, l="b", x=["p", "q"])], gen_spaces(r)])
        p = rand_prod(r, sp, 6, cx.n(60, 200), minops=2, maxops=3, maxside=2)
        d = dims_for(r, sp, [p], r.choice([2, 3, 4]))
        if sum(d) > 4 or term_cost(d, p) > cx.n(300, 3000):
            continue
        out.append({"sp": sp, "ev": [{"op": "eng", "k": 1}, contract_ev(1, one(p, rat(r)), rat(r), 0, 100 if i % 4 else 0, d=d)]})
    out += series_scripts(r, cx.n(70, 500), ("",), cx.quick)
    return spread(r, out)


def term_cost(d, p):
    return math.prod(d[s] ** sum(o["c"][s] + o["a"][s] for o in p) for s in range(len(d)))


def series_scripts(r, n, fmts, quick):
    """exponential series of small sums of operators"""
    out = []
    tries = 0
    while len(out) < n and tries < 40 * n:
        tries += 1
        sp = r.choice([[O, V], [O, V], [V, O], [A_], [O, A_], [O, V, dict(V, l="w", x=["A", "B"])]])
        ns = len(sp)
        pair = lambda c, a: {"l": "?", "c": [int(i == c) for i in range(ns)], "a": [int(i == a) for i in range(ns)]}
        t = [{"o": pair(ns - 1, 0), "c": rat(r)}]
        if r.random() < 0.4:
            t.append({"o": pair(0, ns - 1), "c": rat(r)})
        h = [{"o": pair(r.randrange(ns), r.randrange(ns)) if r.random() < 0.6 else rand_op(r, sp, "?", 2), "c": rat(r)} for _ in range(r.choice([1, 1, 2]))]
        for l, q in (("T", t), ("H", h)):
            for x in q:
                x["o"]["l"] = l
        k = r.choice([1, 2, 2, 3])
        d = dims_for(r, sp, [[x["o"]] for x in h + t], r.choice([2, 3]))
        worst = max(term_cost(d, [x["o"]] + [y["o"] for y in t[:1]] * k) for x in h)
        if sum(d) > 4 or worst > 300 or len(t) ** k * len(h) * worst > (500 if quick else 3000):
            continue
        if len({json.dumps(x["o"]) for x in h}) < len(h) or (len(t) == 2 and t[0]["o"] == t[1]["o"]):
            continue
        relabel([x["o"] for x in h + t])
        if r.random() < 0.15 and k == 2:
            h = t   # a series of commuting operators
        out.append({"sp": sp, "ev": [{"op": "eng", "k": 1}, {"op": "series", "k": 1, "h": h, "t": t, "n": k, "f": rat(r), "d": d, "fmt": r.choice(fmts), "tl": "R",
                                                            "can": r.random() < 0.5}]})
    return out


def relabel(ops):
    """one label for each shape"""
    names = ["T", "V", "F", "T2", "S", "Lambda", "H0", "X"]
    seen = {}
    for o in ops:
        k = json.dumps([o["l"], o["c"], o["a"]])
        if k not in seen:
            seen[k] = o["l"] if o["l"] not in seen.values() else next(x for x in names if x not in seen.values())
        o["l"] = seen[k]


# ---------------------------------------------------------------------- C23
@check("C23", mod="TraceFock", level="model_checking", mc=[mcwick(1, 2, 4, 3, 4)] + MC_TEXT,
       domain="products and sums of products of 1 to 4 operators, exponential series of order up to 3, over occupied, unoccupied and general spaces; all three code generators; pseudo-random amplitudes on 2 to 5 modes")
def c23(cx):
    r, out = cx.r, []
    fmts = ("ambit", "einsum", "py")
    for i in range(cx.n(380, 3000)):
        sp = r.choice([[O, V], [O, V], [V, O], [O], [V], [O, V, dict(V, l="w", x=["A", "B"])], [C_, O, V], [A_], [O, A_], [A_, V], [O, A_, V], [A_, O]])
        p = rand_prod(r, sp, cx.n(7, 8), cx.n(100, 400), minops=1, maxops=4, maxside=2)
        e = one(p, rat(r))
        if r.random() < 0.25:
            e.append({"p": rand_prod(r, sp, 4, 40, minops=1, maxops=2, maxside=1), "c": rat(r)})
        relabel([o for q in e for o in q["p"]])
        if len(e) == 2 and e[0]["p"] == e[1]["p"]:
            e.pop()
        d = dims_for(r, sp, [q["p"] for q in e], r.choice([3, 4] if cx.quick else [3, 4, 5]))
        if sum(d) > cx.n(4, 6) or max(term_cost(d, q["p"]) for q in e) > cx.n(500, 6000):
            continue
        ev = dict(contract_ev(1, e, rat(r), 0, 100, d=d), op="flow", fmt=fmts[i % 3], tl=r.choice(["R", "R", "res", "Hbar"]))
        out.append({"sp": sp, "ev": [{"op": "eng", "k": 1}, {"op": "single", "k": 1, "v": i % 2}, ev]})
    return spread(r, out + series_scripts(r, cx.n(100, 600), fmts, cx.quick))


# ------------------------------------------------------- random expressions
def bos_spaces(r):
    return r.choice([[O, V], [O, V], [O], [A_], [B_], [V, B_], [B_, O], [O, A_, B_], [D_, B_, V], [O, A_, V], [B_, D_]])


def rand_idx(r, sp, width=3, space=None):
    return [r.randrange(len(sp)) if space is None else space, r.randrange(width)]


def rand_tensor(r, sp, label, sym, width=3, side=2, pool=None):
    def side_(n):
        out = []
        while len(out) < n:
            i = r.choice(pool) if pool and r.random() < 0.6 else rand_idx(r, sp, width)
            if i not in out or r.random() < 0.1:
                out.append(i)
            elif len(out) >= width * len(sp) - 1:
                break
        return out
    nu, nd = r.choice([(1, 1), (2, 2), (1, 0), (0, 1), (2, 0), (2, 1), (1, 2), (0, 2), (3, 1)] if side > 1 else [(1, 1), (1, 0), (0, 1)])
    return {"l": label, "u": side_(nu), "d": side_(nd), "y": sym}


def rand_string(r, sp, n, pool=None, width=3):
    return [[r.randint(0, 1)] + (r.choice(pool) if pool and r.random() < 0.7 else rand_idx(r, sp, width)) for _ in range(n)]


def dedup(e):
    """distinct terms (as the library identifies them)"""
    seen, out = set(), []
    for t in e:
        k = json.dumps([[[x["l"], x["u"], x["d"]] for x in t["t"]], t["o"], bool(t["n"] and t["o"])])
        if k not in seen:
            seen.add(k)
            out.append(t)
    return out




def no_expr(r, cx, sp, long=0):
    e = []
    if long:
        pool = [rand_idx(r, sp, 2) for _ in range(r.choice([1, 2, 3]))]
        t = [rand_tensor(r, sp, "T", r.choice("asn"), 2, 1, pool)] if r.random() < 0.3 else []
        return [{"t": t, "o": rand_string(r, sp, long, pool, 2), "n": False, "c": rat(r)}]
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        pool = [rand_idx(r, sp, 2) for _ in range(r.choice([1, 2, 2, 3]))]
        t = [rand_tensor(r, sp, r.choice("TFVgz"), r.choice("asn"), 2, 1, pool) for _ in range(r.choice([0, 0, 1, 2]))]
        e.append({"t": t, "o": rand_string(r, sp, r.choice([0, 1, 2, 2, 3, 4, 4, 5, cx.n(5, 7)]), pool, 2), "n": False, "c": rat(r)})
    return dedup(e)


FAR = [0, 1, 2, 10, 63, 64, 999, 1000, 1001, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 70000, 131072, 1000000, 10000000, 16777216, 16777217, 33554432, 60000001]


def far(r, x, share=0.3):
    """the same with large index numbers"""
    if r.random() > share:
        return x
    m = r.sample(FAR, len(FAR)) + list(range(2000, 2080))

    def walk(x):
        if isinstance(x, list):
            return [walk(y) for y in x]
        if isinstance(x, dict):
            return {k: [[i[0], m[i[1]]] for i in v] if k in ("u", "d") else [[i[0], i[1], m[i[2]]] for i in v] if k == "o" else walk(v) for k, v in x.items()}
        return x
    return walk(x)


def stretch(r, scripts, share=0.35):
    """other positions for the same indices: above ten, above one hundred"""
    for s in scripts:
        if r.random() > share:
            continue
        few = [0, 1, 2, 9, 10, 11, 19, 20, 99, 100, 101, 110, 127, 128, 255, 256, 257, 300, 900, 901]
        m = r.choice([r.sample(range(20), 20), sorted(r.sample(range(40), 20)), sorted(r.sample(range(8, 13), 5)) + list(range(13, 30)), r.sample(few, len(few)),
                      r.sample(FAR, 20)])
        m += list(range(2000, 2080))

        def walk(x):
            if isinstance(x, list):
                return [walk(y) for y in x]
            if isinstance(x, dict):
                return {k: [[i[0], m[i[1]]] for i in v] if k in ("u", "d") else [[i[0], i[1], m[i[2]]] for i in v] if k == "o" else walk(v) if k != "op" else v
                        for k, v in x.items()}
            return x
        s["ev"] = [dict(walk({"e": e["e"]}), **{k: v for k, v in e.items() if k != "e"}) for e in s["ev"]]
    return scripts


LONG_LABELS = [["T", "T2", "T22", "t", "t2", "T_", "T1", "tt"], ["Lambda_one", "Lambda_two", "Lambda_on", "Lambda", "Lambda_one1", "L", "l", "La"],
               ["x" * k for k in (1, 15, 16, 17, 31, 32, 33, 64)], ["a", "A", "aA", "Aa", "b", "B", "bB", "Bb"], ["eta", "gamma", "lambda", "T10", "T9", "T1", "T01", "0"],
               ["H0", "H1", "H", "h", "H00", "H_0", "H'", "H''"]]


def renamed(r, scripts, share=0.25):
    """other labels for the tensors: long, similar"""
    for s in scripts:
        if r.random() > share:
            continue
        new, m = iter(r.sample(r.choice(LONG_LABELS), 8)), {}

        def walk(x):
            if isinstance(x, list):
                return [walk(y) for y in x]
            if isinstance(x, dict):
                if "y" in x and "u" in x:
                    if x["l"] not in m:
                        m[x["l"]] = next(new)
                    return dict(x, l=m[x["l"]])
                return {k: walk(v) if k != "op" else v for k, v in x.items()}
            return x
        s["ev"] = [dict(e, e=walk(e["e"])) for e in s["ev"]]
    return scripts


def no_scripts(cx, nq, nt, flags):
    r, out = cx.r, []
    # sums of many terms that share operators, some of which cancel
    for _ in range(cx.n(60, 400)):
        sp = bos_spaces(r)
        pool = [rand_idx(r, sp, 3) for _ in range(r.choice([2, 3]))]
        t = [rand_tensor(r, sp, r.choice("TF"), r.choice("asn"), 2, 2, pool)] if r.random() < 0.4 else []
        e = []
        for _ in range(r.choice([4, 5, 6, 8])):
            if e and r.random() < 0.6:
                o = list(r.choice(e)["o"])
                r.shuffle(o)
            else:
                o = rand_string(r, sp, r.choice([1, 2, 3, 3, 4]), pool, 2)
            c = r.choice([rat(r), e[-1]["c"] if e else [1, 1], [-e[-1]["c"][0], e[-1]["c"][1]] if e else [2, 1]])
            e.append({"t": t if r.random() < 0.8 else [], "o": o, "n": False, "c": c})
        out.append({"sp": sp, "ev": [{"op": "vno", "e": dedup(e), "same": r.random() < 0.35, "again": True}]})
    # all short strings over two labels of one space
    for f in ([O], [B_]):
        alpha = [[k, 0, i] for k in (0, 1) for i in (0, 1)]
        for n in (1, 2, 3) if cx.quick else (1, 2, 3, 4):
            ss = list(itertools.product(alpha, repeat=n))
            if cx.quick and n == 3:
                ss = r.sample(ss, 24)
            for s in ss:
                out.append({"sp": f, "ev": [{"op": "vno", "e": [{"t": [], "o": list(s), "n": False, "c": [1, 1]}], "same": sm, "again": True}
                                            for sm in (False, True)]})
    # mixed fields
    for _ in range(cx.n(nq, nt)):
        sp = bos_spaces(r)
        e = no_expr(r, cx, sp, r.choice([6, 6, 7, 7, 8] if not flags else [6, 7, 8, 8, 9]) if r.random() < 0.06 else 0)
        if flags and r.random() < 0.15:
            r.choice(e)["n"] = True
            e = dedup(e)
        ev = [{"op": "vno", "e": e, "same": r.random() < 0.35, "again": True}]
        if flags:
            # strings that are already in order, or almost
            sp2 = []
            for t in no_expr(r, cx, sp):
                o = sorted(t["o"], key=lambda x: (1 - x[0], (x[1], x[2]) if x[0] else (-x[1], -x[2])))
                if len(o) > 1 and r.random() < 0.4:
                    k = r.randrange(len(o) - 1)
                    o[k], o[k + 1] = o[k + 1], o[k]
                sp2.append(dict(t, o=o, n=r.random() < 0.1))
            sp2 = dedup(sp2)
            ev.append({"op": "isno", "e": sp2})
            ev.append({"op": "vno", "e": sp2, "same": r.random() < 0.5, "again": True})
        out.append({"sp": sp, "ev": ev})
    return out


@check("C07", mod="TraceNOValue", level="model_checking", mc=MC_NORMAL,
       domain="all strings up to length 3 over two labels, and random expressions with up to 3 terms, strings up to 5 operators, tensors, fermions, bosons and both; every identification of the labels with orbitals (up to 5 labels; above, identifications of at most two labels); sums of many terms that cancel; index numbers up to 60 000 001")
def c07(cx):
    return spread(cx.r, stretch(cx.r, no_scripts(cx, 800, 4000, False)))


@check("C08", mod="TraceNOForm", level="model_checking", mc=MC_NORMAL,
       domain="the inputs of C07, and expressions with ordered, almost ordered and labelled terms, index numbers up to 60 000 001")
def c08(cx):
    return spread(cx.r, stretch(cx.r, no_scripts(cx, 1000, 5000, True)))


# ------------------------------------------------------------------ C04, C05
def tall(r, sp):
    """two operators with three to six equal legs in one space"""
    k = r.choice([i for i, x in enumerate(sp) if x["y"] == "g"] or range(len(sp)))
    n, t = r.choice([3, 4, 4, 5, 6]), r.randrange(2)
    side = lambda m: [m * (i == k) for i in range(len(sp))]
    a, b = side(n), side(n - r.choice([0, 0, 0, 1]))
    z = side(0)
    return [{"l": "A", "c": z if t else a, "a": a if t else z}, {"l": "B", "c": b if t else z, "a": z if t else b}]


def questions(r, cx, sp, n, maxlegs, maxcost):
    out = []
    for _ in range(n):
        if r.random() < 0.2:
            out.append((one(tall(r, sp), rat(r)), rat(r)))
            continue
        gen = any(x["y"] == "g" for x in sp)
        if r.random() < 0.15:
            # nothing at all, a factor or a coefficient of zero, unusual products
            e = [{"p": odd(r, 1, gen, min(maxcost, 80), 8 if not gen else 6, sp)[0][1], "c": r.choice([rat(r), rat(r), [0, 1]])}]
            out.append((r.choice([e, e, e, []]), r.choice([rat(r), rat(r), [0, 1]])))
            continue
        e = [{"p": rand_prod(r, sp, maxlegs - 2 if gen else maxlegs, maxcost, maxops=3, maxside=2), "c": rat(r)}]
        if r.random() < 0.4:
            e.append({"p": rand_prod(r, sp, 6, 40, minops=1, maxops=2, maxside=2), "c": rat(r)})
            if e[0]["p"] == e[1]["p"]:
                e.pop()
        out.append((e, rat(r)))
    return out


@check("C04", mod="TraceWick", level="model_checking", mc=[mc_back(2), mc_back(2, "FALSE", expect="Invariant Inv is violated"), mc_back(3, tier="thorough")],
       domain="behaviours of GenEngine (two engines, 11 steps: settings in any order, questions and repeated questions, three windows, print levels, timers), among them questions about nothing, zero factors, leg-less operators, and questions that are refused (too many contractions)")
def c04(cx):
    r, out = cx.r, []
    for h in cx.histories("GenEngine", cx.n(500, 3000), 11, {"NQ": 3}):
        sp = r.choice([[O, V], [O, A_, V], [A_], [A_, V], [O, A_, V]])
        qs = questions(r, cx, sp, 3, 8, cx.n(100, 300))
        ev = []
        for a in h:
            if a["op"] == "warm":
                # contractions under another registry, with the same labels
                sp2 = r.choice([[V, O], [A_, O], [O, V, A_], [dict(O, y="u", l="o"), dict(V, l="v", y="o")], [dict(A_, y="o")], [dict(O, y="g"), dict(V, y="g")]])
                qs2 = questions(r, cx, sp2, 1, 6, 40)
                if len(sp2) == len(sp):
                    qs2 += [q for q in qs if q[0] and cost(sp2, q[0][0]["p"]) < 200][:1]
                ev.append({"op": "warm", "k": a["k"], "sp2": sp2, "qs": [contract_ev(a["k"], x, f) for x, f in qs2]})
            elif a["op"] == "fail":
                # no contraction at all, or a good product with one that is too large
                s = r.randrange(len(sp))
                x = lambda l: {"l": l, "c": [135 if i == s else 0 for i in range(len(sp))], "a": [0] * len(sp)}
                q = r.choice(qs)
                ev.append(dict(contract_ev(a["k"], r.choice([[], q[0][:1]]) + one([x("X"), x("Y")]), q[1], 0, 1000), op="fail"))
            elif a["op"] == "ask":
                lo, hi = [(0, 100), (0, 0), (2, 4)][a["w"] - 1]
                ev.append(contract_ev(a["k"], qs[a["q"] - 1][0], qs[a["q"] - 1][1], lo, hi))
            else:
                ev.append(a)
        # which graph setting a question is asked under: the form of the
        # answer may depend on it, its value not
        g = {}
        for e in ev:
            if e["op"] == "eng":
                g[e["k"]] = True
            elif e["op"] == "graph":
                g[e["k"]] = e["v"]
            elif e["op"] == "contract":
                e["g"] = g[e["k"]]
        out.append({"sp": sp, "ev": ev})
    return spread(r, out)


def mc_threads(n, window, capacity, what, locking="TRUE", **kw):
    live = "" if "expect" in kw else "PROPERTY Returns\n"
    return dict(module="MCThreads", what=what, cfg=f"SPECIFICATION Spec\nCONSTANT N = {n}\nCONSTANT Window = {window}\nCONSTANT Capacity = {capacity}\nCONSTANT Locking = {locking}\n"
                f"CONSTANT Keys <- MCKeys\nCONSTANT Coefs <- MCCoefs\nINVARIANT Inv\n{live}CHECK_DEADLOCK FALSE\n", **kw)


@check("C05", mod="TraceWick", level="model_checking", once=True, builds=["tsan", "plain"],
       mc=[mc_threads(2, 2, 2, "2 tasks, every term, every interleaving: same answer, exclusive timers, termination"),
           mc_threads(3, 1, 1, "3 tasks, one thread at a time"),
           mc_threads(2, 2, 2, "without the lock the invariant must fail", locking="FALSE", expect="Invariant Inv is violated"),
           mc_threads(2, 2, 1, "with more results waiting than the system has threads for the invariant must fail", expect="Invariant Inv is violated"),
           mc_threads(3, 2, 2, "3 tasks, two threads at a time", tier="thorough", workers=4),
           mc_threads(3, 3, 3, "3 tasks", tier="thorough", workers=4)],
       domain="products with up to several hundred composite contractions, single- and multi-threaded answers repeated under random delays in a ThreadSanitizer build, also as the first contraction of a process, with cumulants of up to eight bodies; products with about 45000 composite contractions, more than the system has threads for")
def c05(cx):
    r, out = cx.r, []
    ov = [O, V]
    fixed = [[{"l": "V", "c": [2, 0], "a": [0, 2]}, {"l": "T", "c": [0, 2], "a": [2, 0]}, {"l": "T", "c": [0, 2], "a": [2, 0]}],
             [{"l": "V", "c": [1, 1], "a": [1, 1]}, {"l": "V", "c": [1, 1], "a": [1, 1]}],
             [{"l": "V", "c": [1, 1], "a": [1, 1]}, {"l": "T", "c": [0, 1], "a": [1, 0]}, {"l": "T", "c": [0, 2], "a": [2, 0]}]]
    for k in range(cx.n(60, 400)):
        if k < len(fixed):
            sp, p, mc = ov, fixed[k], None
        else:
            sp = r.choice([ov, sr_spaces(r), [O, A_, V], [A_]])
            gen = any(x["y"] == "g" for x in sp)
            mc = r.choice([None, 2]) if gen else None
            p = rand_prod(r, sp, 8 if gen else 11, cx.n(200, 800), minops=2, maxside=2, maxcum=mc or 100)
        e, f = one(p, rat(r)), rat(r)
        if r.random() < 0.3:
            q = rand_prod(r, sp, 6, 40, minops=2, maxops=2, maxside=2)
            if q != p:
                e = e + [{"p": q, "c": rat(r)}]
        lo, hi = r.choice([(0, 100), (0, 100), (0, 100), (0, 4), (0, 0)])
        ev = [{"op": "eng", "k": 1}]
        if mc:
            ev.append({"op": "maxcum", "k": 1, "v": mc})
        g = r.random() < 0.8
        ev += [{"op": "graph", "k": 1, "v": g}, contract_ev(1, e, f, lo, hi, g),
               {"op": "single", "k": 1, "v": False},
               dict(contract_ev(1, e, f, lo, hi, g), op="contract_n", n=cx.n(4, 10)), {"op": "timers", "k": 1},
               {"op": "single", "k": 1, "v": True}, contract_ev(1, e, f, lo, hi, g)]
        out.append({"sp": sp, "ev": ev})
    out += many_scripts(r, cx.n(4, 20), 260, 1100, 1)
    return swarm_scripts(r, cx.n(2, 8)) + first_scripts(r, cx.n(48, 200)) + spread(r, out + many_scripts(r, cx.n(80, 400), 40, cx.n(130, 600), 1 if cx.quick else 4) + many_scripts(r, cx.n(25, 150), 40, cx.n(100, 400), 1 if cx.quick else 3, True), 0.1)


# ---------------------------------------------------------------------- C09
def permuted(r, t, sp, keepfree=True):
    """a term with the same value up to sign: bound indices renamed, tensors,
    indices and operators permuted (the sign is not tracked)"""
    t = json.loads(json.dumps(t))
    bound = [tuple(i) for x in t["t"] for i in x["u"] + x["d"]]
    used = set(bound) | {tuple(o[1:]) for o in t["o"]}
    free = {tuple(o[1:]) for o in t["o"]} - set(bound)
    ren = {}
    for s in range(len(sp)):
        bs = sorted({b for b in bound if b[0] == s})
        names = [i for i in range(8) if (s, i) not in free]
        r.shuffle(names)
        for b, n in zip(bs, names):
            ren[b] = [s, n]
    f = lambda i: list(ren.get(tuple(i), i))
    for x in t["t"]:
        x["u"], x["d"] = [f(i) for i in x["u"]], [f(i) for i in x["d"]]
        r.shuffle(x["u"])
        r.shuffle(x["d"])
    t["o"] = [[o[0]] + f(o[1:]) for o in t["o"]]
    r.shuffle(t["o"])
    r.shuffle(t["t"])
    return t


def canon_expr(r, cx, none=0.1):
    sp = r.choice([[O, V], [O, V], [O], [O, A_, V], [B_], [O, B_], [D_, O, V]])
    e = []
    main = r.choice(["a", "a", "s"])
    # the symmetry of a tensor goes with its label
    symof = {l: "n" if r.random() < none else (main if r.random() < 0.8 else r.choice("as")) for l in "TFVHR"}
    for _ in range(r.choice([1, 1, 2, 3])):
        width = r.choice([2, 3, 4, 4, 12])
        pool = [rand_idx(r, sp, width) for _ in range(r.choice([1, 2, 3, 4, 5]))]
        labs = r.sample(["T", "F", "V", "H", "R"], 3) if r.random() < 0.6 else [r.choice("TV")] * 3
        ts = [rand_tensor(r, sp, labs[k], symof[labs[k]], width, 2, pool)
              for k in range(r.choice([0, 1, 1, 2, 2, 3]))]
        onT = [i for t in ts for i in t["u"] + t["d"]]
        o = rand_string(r, sp, r.choice([0, 0, 1, 2, 3, 4]), onT + pool, width) if onT else rand_string(r, sp, r.choice([0, 1, 2, 3]), pool, width)
        t = {"t": ts, "o": o, "n": r.random() < 0.5, "c": rat(r)}
        e.append(t)
        if r.random() < 0.5:
            e.append(dict(permuted(r, t, sp), c=rat(r)))
    return sp, dedup(e)


def einstein_term(r, sp, nt, labs, symof, nidx=(1, 2, 3, 4, 5, 6)):
    """tensors with different labels, every index twice: upper and lower, or
    on a tensor and an operator"""
    ts = [{"l": l, "u": [], "d": [], "y": symof[l]} for l in labs[:nt]]
    cnt = [0] * len(sp)
    o = []
    join = r.choice([0, 0.6])
    for _ in range(r.choice(nidx)):
        s = r.randrange(len(sp))
        i = [s, cnt[s]]
        cnt[s] += 1
        if nt > 1 and r.random() < join:
            x, y = r.sample(range(nt), 2)
            ts[x]["u"].append(i)
            ts[y]["d"].append(i)
        else:
            k = r.randrange(nt)
            up = r.random() < 0.5
            ts[k]["u" if up else "d"].append(i)
            o.append([(0 if up else 1) if r.random() < 0.9 else r.randint(0, 1)] + i)
    return {"t": [t for t in ts if t["u"] or t["d"]], "o": o, "n": r.random() < 0.5, "c": rat(r)}


@check("C09", mod="TraceCanon", level="model_checking", mc=MC_CANON,
       domain="expressions of 1 to 6 terms with up to 3 tensors (equal or different labels, every symmetry), any index pattern, operators on tensor indices and free, fermions, bosons, both; pairs of terms that differ by renaming and reordering only; long tensor labels")
def c09(cx):
    r, out = cx.r, []
    for _ in range(cx.n(1100, 6000)):
        sp, e = canon_expr(r, cx)
        ev = [{"op": "canon", "e": e}]
        out.append({"sp": sp, "ev": ev})
    for _ in range(cx.n(700, 4000)):
        sp = r.choice([[O, V], [O, V], [O, A_, V], [B_], [O, B_]])
        symof = {l: r.choice("aaas") for l in "TFVHR"}
        e = []
        for _ in range(r.choice([1, 2])):
            t = einstein_term(r, sp, r.choice([1, 2, 2, 3]), r.sample(list("TFVHR"), 3), symof)
            e += [t] + [dict(permuted(r, t, sp), c=rat(r)) for _ in range(r.choice([1, 2]))]
        out.append({"sp": sp, "ev": [{"op": "canon", "e": dedup(e)}]})
    # many indices and many tensors, all with labels of their own
    for _ in range(cx.n(150, 1500)):
        sp = r.choice([[O, V], [O, V], [O], [O, A_, V], [B_], [O, B_]])
        labs = list("TFVHRXYZ")
        symof = {l: r.choice("aaas") for l in labs}
        r.shuffle(labs)
        t = einstein_term(r, sp, r.choice([2, 3, 4, 6, 8]), labs, symof, (8, 10, 11, 12, 14, 16, 24, 32))
        if all(max(len(x["u"]), len(x["d"])) <= 5 for x in t["t"]) and len(t["o"]) <= 8:
            out.append({"sp": sp, "ev": [{"op": "canon", "e": dedup([t, dict(permuted(r, t, sp), c=rat(r))])}]})
    return spread(r, stretch(r, renamed(r, out)))


# ----------------------------------------------------------------- C10, C12
def pool_term(r, sp, flag=0.15, small=False):
    ts = [rand_tensor(r, sp, r.choice("TFV"), r.choice("asn"), 2, 1) for _ in range(r.choice([0, 1, 1, 2] if not small else [0, 1]))]
    o = rand_string(r, sp, r.choice([0, 0, 1, 2, 2, 3] if not small else [0, 1, 2]), None, 2)
    return {"t": ts, "o": o, "n": bool(o) and r.random() < flag, "c": rat(r)}


def pool(r, sp, flag):
    """terms with few differences, so that like terms meet"""
    base = [pool_term(r, sp, flag, r.random() < 0.5) for _ in range(4)]
    out = list(base)
    for _ in range(5):
        t = json.loads(json.dumps(r.choice(base)))
        u = r.random()
        if u < 0.3:
            t["c"] = [-t["c"][0], t["c"][1]]
        elif u < 0.5:
            t["c"] = rat(r)
        elif u < 0.65:
            t["o"].reverse()
        elif u < 0.8 and t["t"]:
            x = r.choice(t["t"])
            x["u"], x["d"] = x["d"], x["u"]
        elif u < 0.9 and t["t"]:
            t["t"].reverse()
        elif t["o"] and flag:
            t["n"] = not t["n"]
        out.append(t)
    ex = [[], [base[0]], [base[1], base[2]]] + [[r.choice(out) for _ in range(r.choice([1, 2, 3]))] for _ in range(5)]
    return {"exprs": ex, "terms": out}


def algebra(cx, pools, num, depth, adj, flags=(0, 0.15)):
    r, calls, sps = cx.r, [], []
    for k in range(pools):
        sps.append(r.choice([[O, V], [O, V], [O, B_], [A_]]))
        calls.append((("GenAlgebra", num, depth, {"Adjoint": adj}), {"env": {"POOL": cx.file(far(r, pool(r, sps[-1], flags[k % len(flags)])))}}))
    return [{"sp": sp, "ev": h} for sp, hs in zip(sps, cx.par(calls)) for h in hs]


@check("C10", mod="TraceAlgebra", level="model_checking", mc=MC_ALGEBRA,
       domain="behaviours of GenAlgebra: three registers, 14 steps, any operands and targets (also the same register), literals from pools of like terms; large terms that differ in one detail; coefficients of any size")
def c10(cx):
    return spread(cx.r, algebra(cx, cx.n(8, 30), cx.n(60, 150), 14, "FALSE", (0, 0.15, 0.5)) + big_algebra(cx.r, cx.n(120, 1500)) + near_algebra(cx.r, cx.n(300, 1500)))


def near_algebra(r, n):
    """expressions of large terms that differ in one detail only"""
    out = []
    for _ in range(n):
        sp = r.choice([[O, V], [O, V], [O, B_], [A_], [O, A_, V]])
        width = r.choice([3, 12, 300])
        nt, y = r.choice([0, 1, 1, 2, 3, 4]), r.choice("as")
        pair = r.random() < 0.5
        side = lambda: [rand_idx(r, sp, width) for _ in range(r.choice([0, 1, 2, 2, 3, 4, 5, 6]))]
        base = {"t": [{"l": r.choice(["T", "T", "T2", "V", "t", "Ta"]), "u": side(), "d": side(), "y": y} for _ in range(nt)],
                "o": [[r.randint(0, 1)] + rand_idx(r, sp, width) for _ in range(r.choice([0, 0, 1, 1, 2, 4, 7]))], "n": r.random() < 0.2}
        base["n"] = base["n"] and bool(base["o"])
        if not base["t"] and not base["o"]:
            continue

        def vary(t):
            t = json.loads(json.dumps(t))
            u, x = r.random(), r.choice(t["t"]) if t["t"] else None
            if x is None or (t["o"] and u < 0.45):
                if not t["o"]:
                    t["t"].reverse()
                    return t
                k = r.randrange(len(t["o"]))
                v = r.choice("ckspxnn")
                if v == "c":
                    t["o"][k][0] ^= 1
                elif v == "k":
                    t["o"][k][2] = r.choice([t["o"][k][2] + 1, t["o"][k][2] + 10, r.randrange(width)])
                elif v == "s":
                    t["o"][k][1] = r.randrange(len(sp))
                elif v == "p":
                    t["o"].insert(k, list(r.choice(t["o"])))
                elif v == "x":
                    t["o"].pop(k)
                    t["n"] = t["n"] and bool(t["o"])
                else:
                    t["n"] = not t["n"]
                return t
            v, z = r.choice("lkksmmxwrp"), r.choice("ud")
            if v == "l":
                x["l"] = r.choice([x["l"] + "1", x["l"] + "a", x["l"][:1], x["l"].swapcase(), "T10", "T2"])
            elif v == "w":
                x["u"], x["d"] = x["d"], x["u"]
            elif v == "r":
                t["t"].reverse()
            elif v == "p":
                t["t"].append(json.loads(json.dumps(r.choice(t["t"]))))
            elif v == "m" or not x[z]:
                x[z].insert(r.randrange(len(x[z]) + 1), rand_idx(r, sp, width))
            else:
                k = r.randrange(len(x[z]))
                if v == "x":
                    x[z].pop(k)
                elif v == "s":
                    x[z][k][0] = r.randrange(len(sp))
                else:
                    x[z][k][1] = r.choice([x[z][k][1] + 1, x[z][k][1] + 10, r.randrange(width)])
            return t
        ts = [base]
        for _ in range(1 if pair else r.choice([1, 2, 4, 7])):
            ts.append(vary(r.choice(ts)) if r.random() < 0.85 else json.loads(json.dumps(r.choice(ts))))
        ts = [t for t in ts if t["t"] or t["o"]]
        ev = [{"op": "xnew", "z": z} for z in "abc"]
        same = r.random() < 0.5
        cs = [rat(r) for _ in ts]
        if pair and r.random() < 0.8:
            cs = cs[:1] * len(ts)
            same = True
        for z in "ab":
            o = list(range(len(ts)))
            r.shuffle(o)
            if pair:    # one term in each, with one difference
                o = ["ab".index(z)] if len(ts) > 1 else [0]
            elif not same and z == "b" and len(o) > 1:
                o.pop()
            for i in o:
                ev.append({"op": "xiadd", "z": z, "t": dict(ts[i], c=cs[i] if same or r.random() < 0.7 else rat(r)), "how": r.choice(["pair", "term"])})
        ev += [{"op": "xeq", "a": "a", "b": "b"}, {"op": "xlen", "a": "a"}, {"op": "xdot", "a": "a", "b": "b"}, {"op": "xnorm", "a": "b"},
               {"op": "xsub", "z": "c", "a": "a", "b": "b"}, {"op": "xeq", "a": "c", "b": "a"}, {"op": "xadd", "z": "c", "a": "b", "b": "a"}, {"op": "xlen", "a": "c"}]
        out.append({"sp": sp, "ev": ev})
    return out


def big_algebra(r, n):
    """histories of expressions with coefficients of any size, often nearly equal"""
    from math import gcd

    def num(k=40):
        return r.choice([1, 1, 2, 3, 7, r.randint(1, 99), 10 ** r.randrange(1, k) + r.choice([-1, 0, 1]), 2 ** r.choice([31, 32, 53, 63, 64]) + r.choice([-1, 0, 1]),
                         r.randint(1, 10 ** r.randrange(1, k)), math.factorial(r.randrange(2, 25))])

    def coef(near=None, zero=False):
        if zero and r.random() < 0.15:
            return (0, 1)
        if near and near[0]:
            p, q = near
            p, q = r.choice([(p, q), (-p, q), (p + 1, q), (p, q + 1), (p * 10 ** 20 + 1, q * 10 ** 20), (p, 2 * q)])
        else:
            p, q = r.choice([1, -1]) * num(), r.choice([1, 1, num()])
        if p == 0:
            p = 1
        g = gcd(p, q)
        return (p // g, q // g)
    C = lambda c: {"n": biglimbs(c[0]), "d": biglimbs(c[1])}
    out = []
    for _ in range(n):
        sp = r.choice([[O, V], [O, B_], [A_]])
        base = [dict(pool_term(r, sp, 0, True), n=False) for _ in range(3)]
        cs, ev = [], []
        for z in "abc":
            e = []
            for t in r.sample(base, r.choice([1, 2, 2, 3])):
                c = coef(r.choice(cs) if cs and r.random() < 0.6 else None)
                cs.append(c)
                e.append(dict(t, c=C(c)))
            ev.append({"op": "qlet", "z": z, "e": e})
            if z == "b" and r.random() < 0.5:   # the same, or nearly the same, expression
                e = [dict(t) for t in ev[-2]["e"]]
                if r.random() < 0.7:
                    k = r.randrange(len(e))
                    c = (1 if e[k]["c"]["n"]["s"] > 0 else -1) * unbig(e[k]["c"]["n"]), unbig(e[k]["c"]["d"])
                    e[k]["c"] = C(coef(c))
                ev[-1]["e"] = e
        muls = 0
        for _ in range(r.randrange(4, 9)):
            o = r.choice(["qadd", "qsub", "qsub", "qneg", "qscale", "qmul", "qeq", "qeq", "qdot"])
            if o == "qmul":
                muls += 1
                if muls > 1:
                    o = "qeq"
            x = {"op": o, "a": r.choice("abc"), "b": r.choice("abc")}
            if o not in ("qeq", "qdot"):
                x["z"] = r.choice("abc")
            if o == "qscale":
                x["c"] = C(coef(r.choice(cs), True))
            ev.append(x)
            if r.random() < 0.3:
                ev.append({"op": "qeq", "a": r.choice("abc"), "b": r.choice("abc")})
        out.append({"sp": sp, "ev": ev})
    return out


def biglimbs(n):
    m, k = [], abs(n)
    while k:
        m.append(k % 10000)
        k //= 10000
    return {"s": (n > 0) - (n < 0), "m": m}


def unbig(x):
    return sum(v * 10000 ** i for i, v in enumerate(x["m"]))


# ---------------------------------------------------------------------- C24
def mc_builder(n, big, tier="quick"):
    return mc_("MCBuilder", ['CONSTANTS Terms = {"a", "b"}', 'Exprs = {"x", "y"}', "Pieces = {1}", "MaxLen = %d" % n, "MaxCells = 8", "Big = %d" % big, "Share = FALSE",
                             "INIT Init", "NEXT Next", "CONSTRAINT Bound", "INVARIANT Spells", "INVARIANT Owned", "INVARIANT Keys", "VIEW Names"],
               "copies keep the values of objects apart", tier)


def mc_iter(n, copied="TRUE", tier="quick", **kw):
    return mc_("MCIter", ["INIT Init", "NEXT Next", "CONSTANTS Keys = {1, 2, 3}", "Copied = %s" % copied, "MaxChanges = %d" % n, "INVARIANT Reads"],
               "reading the terms of an expression while it is changed shows the terms it had" if copied == "TRUE"
               else "a reader that walks over the terms themselves must be caught by a change", tier, **kw)


@check("C24", mod="TraceBuilder", level="model_checking",
       mc=[mc_builder(2, 1), mc_builder(3, 2, "thorough"), mc_iter(3), mc_iter(1, "FALSE", expect="Invariant Reads is violated"), mc_iter(5, tier="thorough")],
       domain="behaviours of GenBuilder: three terms, two expressions and an equation, 24 steps, expressions changed while they are read; every object is observed after every step")
def c24(cx):
    r, calls, sps = cx.r, [], []
    for k in range(cx.n(6, 24)):
        sp = r.choice([[O, V], [O, B_], [A_], [O, A_, V], [B_]])
        ix = lambda: [r.randrange(len(sp)), r.choice([0, 0, 1, 2, 11, 300, 65536])]
        pool = {"ops": [[r.randrange(2)] + ix() for _ in range(5)],
                "tens": [{"l": r.choice(["T", "V", "lambda1"]), "u": [ix() for _ in range(r.randrange(3))], "d": [ix() for _ in range(r.randrange(3))], "y": r.choice("aaasn")} for _ in range(4)]}
        sps.append(sp)
        calls.append((("GenBuilder", cx.n(40, 150), 24, {}), {"env": {"POOL": cx.file(pool)}}))
    return spread(r, [{"sp": sp, "ev": h} for sp, hs in zip(sps, cx.par(calls)) for h in hs])


# ----------------------------------------------------------- C13, C14, C15
def comp_text(r, sp, legs, style=None):
    """a component string, in one of the ways a user may write it"""
    style = r.choice([0, 0, 0, 1, 2, 3]) if style is None else style
    cr = "^" if style == 1 else "+"
    tok = [sp[s]["l"] + (cr if c else "") for c, s in legs]
    if style == 2:
        return "".join(tok)
    if style == 3:
        return "{ " + " ".join(tok) + " }"
    return " ".join(tok)


def rand_legs(r, sp, nc, na, shuffle):
    c = [[1, r.randrange(len(sp))] for _ in range(nc)]
    a = [[0, r.randrange(len(sp))] for _ in range(na)]
    x = sorted(c, key=lambda y: y[1]) + sorted(a, key=lambda y: -y[1])
    if shuffle:
        r.shuffle(x)
    return x


def make_call(r, sp, small=False):
    """a constructor call for operator expressions"""
    l = r.choice(LABELS if not small else ["T", "V"]) if r.random() < 0.85 else r.choice(r.choice(LONG_LABELS))
    if r.random() < 0.35:
        csp = r.sample(range(len(sp)), r.randint(1, min(len(sp), 2 if small else 3)))
        asp = r.sample(range(len(sp)), r.randint(1, min(len(sp), 2 if small else 3)))
        e = {"op": "ogen", "l": l, "rank": r.choice([1, 1, 2, 2] if not small else [1]), "csp": csp, "asp": asp,
             "cs": "".join(sp[i]["l"] for i in csp), "as": "".join(sp[i]["l"] for i in asp)}
        if r.random() < 0.6:
            e["diag"] = r.random() < 0.4
        return e
    legs = []
    for _ in range(r.choice([1, 1, 2, 3] if not small else [1, 1, 2])):
        nc, na = r.choice([(1, 1), (1, 1), (2, 2), (1, 0), (0, 1), (2, 1), (1, 2), (2, 0), (0, 2)] if not small else [(1, 1), (1, 0), (0, 1), (2, 0), (0, 2), (2, 2)])
        legs.append(rand_legs(r, sp, nc, na, r.random() < 0.3))
    if r.random() < 0.3:
        x = list(r.choice(legs))
        r.shuffle(x)
        legs.append(x)
    if r.random() < 0.08:
        legs.insert(r.randrange(len(legs) + 1), [])     # an operator without legs
    e = {"op": "oop", "l": l, "legs": legs, "comps": [comp_text(r, sp, x) for x in legs]}
    if r.random() < 0.5:
        e["unique"] = r.random() < 0.5
    return e


def opalgebra(cx, pools, num, depth, mode):
    r, calls, sps = cx.r, [], []
    for k in range(pools):
        sp = r.choice([[O, V], [O, V], [O, A_, V], [V, O], [O], [C_, O, V]] if mode != "canon" else [[O, V], [O, V], [O, A_, V], [C_, O, V], [V]])
        make = [make_call(r, sp, mode == "canon" or r.random() < 0.5) for _ in range(8)]
        sps.append(sp)
        calls.append((("GenOpAlg", num, depth, {"Mode": '"%s"' % mode}), {"env": {"POOL": cx.file({"sp": sp, "make": make})}}))
    return [{"sp": sp, "ev": h} for sp, hs in zip(sps, cx.par(calls)) for h in hs]


@check("C13", mod="TraceOpAlg", level="model_checking", mc=MC_OPALG,
       domain="behaviours of GenOpAlg: three registers, 14 steps, any operands and targets, commutators of 0 to 4 arguments, series of order 0 to 4; leg-less operators, long labels")
def c13(cx):
    r = cx.r
    out = []
    for n in (5, 6, 12, 13, 14, 20, 21, 22, 24) if cx.quick else range(0, 31):
        sp = r.choice([[O, V], [V, O], [A_]])
        u, v = [rand_op(r, sp, l, 2) for l in r.choice(["AB", "TV", "BA"])]
        if r.random() < 0.3:
            v = dict(u, l=v["l"])
        out.append({"sp": sp, "ev": [{"op": "bchdeep", "u": u, "v": v, "n": n}]})
    return spread(r, out + opalgebra(cx, cx.n(8, 30), cx.n(40, 200), 14, "arith"))


@check("C14", mod="TraceOpAlg", level="model_checking", mc=MC_OPALG,
       domain="behaviours of GenOpAlg with canonicalizations and contractions of the registers; leg-less operators, long labels")
def c14(cx):
    r, out = cx.r, []
    # sums of products of few different operators, in every order
    for _ in range(cx.n(350, 2000)):
        sp = r.choice([[O, V], [O, V], [V, O], [O, A_, V], [C_, O, V], [V]])
        ops = []
        for _ in range(r.choice([2, 2, 3])):
            legs_ = rand_legs(r, sp, *r.choice([(1, 0), (0, 1), (2, 1), (1, 2), (1, 1), (2, 0), (3, 0), (0, 3), (2, 2), (0, 0)]), False)
            ops.append({"l": r.choice("TTTAV"), "legs": [legs_], "comps": [comp_text(r, sp, legs_, 0)]})
        ev = [dict(o, op="oop", z="uvw"[i]) for i, o in enumerate(ops)]
        n, small = 0, True
        for t in range(r.choice([1, 1, 2, 3])):
            seq = [r.randrange(len(ops)) for _ in range(r.choice([2, 2, 3, 3, 4]))]
            if sum(len(ops[i]["legs"][0]) for i in seq) > 8:
                seq = seq[:2]
            p = [{"l": ops[i]["l"], "c": [sum(1 for x in ops[i]["legs"][0] if x == [1, s]) for s in range(len(sp))],
                  "a": [sum(1 for x in ops[i]["legs"][0] if x == [0, s]) for s in range(len(sp))]} for i in seq]
            small = small and legs(p) <= 8 and cost(sp, p) <= 100
            ev.append({"op": "ocopy", "z": "p", "a": "uvw"[seq[0]]})
            for i in seq[1:]:
                ev.append({"op": "omul", "z": "p", "a": "p", "b": "uvw"[i]})
            ev.append({"op": "oscale", "z": "p", "a": "p", "c": rat(r)})
            ev.append({"op": "ocopy", "z": "s", "a": "p"} if t == 0 else {"op": "oadd", "z": "s", "a": "s", "b": "p"})
        ask = [{"op": "ocontract", "a": "s", "lo": 0, "hi": 100}] if small else []
        ev += ask + [{"op": "ocanon", "z": "s"}] + ask
        out.append({"sp": sp, "ev": ev})
    return spread(r, out + opalgebra(cx, cx.n(8, 30), cx.n(40, 200), 14, "canon"))


def big_adjoint(r, n):
    """adjoints of long terms over fermions, bosons and both, and of products"""
    out = []
    for _ in range(n):
        sp = r.choice([[O, V], [B_], [B_, O], [D_, B_, V], [O, A_, V], [O, B_, A_]])
        width = r.choice([2, 3, 12, 300])

        def term(m):
            o = [[r.randint(0, 1)] + rand_idx(r, sp, width) for _ in range(r.choice([0, 1, 2, 3, 4, m]))]
            k, b = r.random(), [i for i, x in enumerate(sp) if x["f"] == "b"]
            if k < 0.3:        # one kind of operators
                o = [[o[0][0]] + x[1:] for x in o]
            if b and r.random() < 0.4:   # only bosons
                o = [[x[0], r.choice(b), x[2]] for x in o]
            if k > 0.8:
                o.sort(key=lambda x: (1 - x[0], (x[1], x[2]) if x[0] else (-x[1], -x[2])))
            t = [{"l": r.choice("TFV"), "u": [rand_idx(r, sp, width) for _ in range(r.choice([0, 1, 2, 4]))],
                  "d": [rand_idx(r, sp, width) for _ in range(r.choice([0, 1, 2, 4]))], "y": "a"} for _ in range(r.choice([0, 1, 2, 3]))]
            return {"t": t, "o": o, "n": False, "c": rat(r)}
        e = lambda m: dedup([x for x in (term(m) for _ in range(r.choice([1, 1, 2, 3]))) if x["t"] or x["o"]])
        a, b = e(9), e(5)
        if r.random() < 0.3:
            for t in a:
                t["n"] = bool(t["o"]) and r.random() < 0.7
            a = dedup(a)
        out.append({"sp": sp, "ev": [{"op": "xlet", "z": "a", "e": a}, {"op": "xlet", "z": "b", "e": b}, {"op": "xadj", "z": "c", "a": "a"},
                                     {"op": "xadj", "z": "c", "a": "c"}, {"op": "xeq", "a": "a", "b": "c"}, {"op": "xmul", "z": "c", "a": "a", "b": "b"},
                                     {"op": "xadj", "z": "c", "a": "c"}, {"op": "xadj", "z": "a", "a": "a"}, {"op": "xadj", "z": "b", "a": "b"},
                                     {"op": "xmul", "z": "b", "a": "b", "b": "a"}, {"op": "xeq", "a": "b", "b": "c"}]})
    return out


@check("C12", mod="TraceAlgebra", level="model_checking", mc=MC_ALGEBRA,
       domain="behaviours of GenAlgebra and GenOpAlg rich in adjoints; long strings over fermions and bosons, adjoints of products")
def c12(cx):
    a = algebra(cx, cx.n(8, 24), cx.n(40, 150), 14, "TRUE", (0, 0.15, 0.6, 1))
    return spread(cx.r, a + big_adjoint(cx.r, cx.n(150, 800)) + [dict(s, mod="TraceOpAlg") for s in opalgebra(cx, cx.n(4, 20), cx.n(40, 150), 14, "adj")])


# ---------------------------------------------------------------------- C16
def num_text(r, big):
    """a text that may be a number"""
    def digits(n):
        return "".join(r.choice("0123456789") for _ in range(n))
    k = r.random()
    if k < 0.14:
        return r.choice(["", " ", "+", "-", " - ", "0", "-0", "00", "0/5", "-0/1", "1/0", "0/0", "/", "3/", "/3", "-/3", "+/", "abc", "1 2", "--1", "+-2",
                         "1//2", "1/2/3", "1/-2", "- 5", "5 -", "1.5", "2e3", "3 /4", "3/ 4", "\t7\n", "007/0021", "+1/1", "0x10", "1,2", " +12/18 "])
    big = r.choice([1, 2, 3, 5, 9, 10, 18, 19, 20, 25, 38, 39, 60, 77, 90, 150, 300]) if big else r.choice([1, 1, 2, 3])
    s = r.choice(["", "", "-", "+"]) + digits(big)
    if r.random() < 0.6:
        s += "/" + digits(r.choice([1, 2, big]))
    return r.choice(["", "", " ", "  "]) + s + r.choice(["", "", " "])


@check("C16", mod="TraceRat", level="model_checking",
       mc=[dict(module="MCBigNum", cfg="INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n", what="arithmetic of the specification against TLC's integers, and its laws")],
       domain="histories of four registers: numbers of up to 300 digits, beyond them exact or refused, every operation, equality (also of numbers that differ in the last digit), texts, conversions; texts with signs, blanks, leading zeros and every malformed kind")
def c16(cx):
    from fractions import Fraction
    r, out = cx.r, []
    names = "abcd"
    for h in range(cx.n(300, 2000)):
        big = h % 3 > 0
        reg, ev = {}, []

        def size(x):
            return max(abs(x.numerator), x.denominator).bit_length()

        for step in range(r.choice([8, 12, 16])):
            z = r.choice(names)
            u = r.random()
            if len(reg) < 2 or u < 0.25:
                if r.random() < 0.3:
                    how = r.choice([0, 1, 2, 2, 2])
                    n, d = [r.choice([0, 1, -1, 2, 12, -18, 2147483647, -2147483647, r.randint(-10 ** 6, 10 ** 6)]) for _ in range(2)]
                    ev.append({"op": "rset", "z": z, "n": n, "d": d, "how": how})
                    v = Fraction(0) if how == 0 else Fraction(n) if how == 1 else (Fraction(n, d) if d else None)
                else:
                    t = num_text(r, big)
                    ev.append({"op": "rsets", "z": z, "ch": list(t)})
                    m = re.fullmatch(r"\s*([+-])?(?:(\d+)(?:/(\d+))?)?\s*", t)
                    v = None
                    if m and not (m[3] and int(m[3]) == 0):
                        v = Fraction(int(m[2] or 1), int(m[3] or 1)) * (-1 if m[1] == "-" else 1)
                if v is not None:  # only to keep the numbers within the 1024 bits of the library
                    reg[z] = v
                continue
            a, b = r.choice(sorted(reg)), r.choice(sorted(reg))
            if u < 0.65:
                f = r.choice("++--**//")
                x, y = reg[a], reg[b]
                v = x + y if f == "+" else x - y if f == "-" else x * y if f == "*" else (x / y if y else None)
                if size(x) + size(y) > 1000 or (v is not None and size(v) > 1000):
                    # exact or refused; nothing else looks at this register
                    if len(ev) % 2:
                        ev.append({"op": "rop", "f": f, "z": "e", "a": a, "b": b})
                    continue
                ev.append({"op": "rop", "f": f, "z": z, "a": a, "b": b})
                if v is not None:
                    reg[z] = v
            elif u < 0.72:
                ev.append({"op": "req", "a": a, "b": b})
            elif u < 0.78:
                ev.append({"op": "rget", "a": a})
            elif u < 0.9:
                ev.append({"op": "rtext", "a": a})
            elif r.random() < 0.5:
                ev.append({"op": "rfloat", "a": a})
            else:
                ev.append({"op": "rnumden", "a": a})
        if ev:
            out.append({"sp": [], "ev": ev})
    # equal values along different ways
    for _ in range(cx.n(150, 400)):
        n, m = "".join(r.choice("123456789") for _ in range(r.choice([3, 20, 40]))), "".join(r.choice("123456789") for _ in range(r.choice([2, 15, 30])))
        sg = lambda s: list(r.choice(["", "-"]) + s)
        ev = [{"op": "rsets", "z": "a", "ch": sg(n + "/" + m)}, {"op": "rsets", "z": "b", "ch": sg(m)},
              {"op": "rop", "f": "*", "z": "c", "a": "a", "b": "b"}, {"op": "rop", "f": "/", "z": "d", "a": "c", "b": "b"},
              {"op": "req", "a": "a", "b": "d"}, {"op": "rtext", "a": "c"}, {"op": "rop", "f": "-", "z": "c", "a": "a", "b": "d"},
              {"op": "rget", "a": "c"}, {"op": "rop", "f": "/", "z": "d", "a": "b", "b": "c"}, {"op": "rget", "a": "d"}, {"op": "rget", "a": "b"},
              {"op": "rop", "f": "+", "z": "b", "a": "b", "b": "b"}, {"op": "rtext", "a": "b"}]
        out.append({"sp": [], "ev": ev})
    # numbers that differ in the last of many digits
    for _ in range(cx.n(150, 800)):
        k, m = [r.choice([1, 2, 9, 10, 15, 16, 17, 18, 19, 20, 30, 38, 60, 100, 150]) for _ in range(2)]
        n, d = [r.choice([r.randrange(10 ** (j - 1), 10 ** j), r.choice([2 ** 24, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 62, 2 ** 63, 2 ** 64, 2 ** 128]) + r.randint(-2, 2)]) for j in (k, m)]
        n2, d2 = r.choice([(n + 1, d), (n, d + 1), (n + r.choice([0, 1, -1, 2]), d + r.choice([0, 1, 2])), (n * d + 1, d * d)])
        if r.random() < 0.3:        # neighbours in a sequence of fractions
            n, d, n2, d2 = n, n + 1, n + 1, n + 2
        txt = lambda s, a, b: list(s + str(a) + ("" if b == 1 else "/" + str(b)))
        s = r.choice(["", "-"])
        ev = [{"op": "rsets", "z": "a", "ch": txt(s, n, d)}, {"op": "rsets", "z": "b", "ch": txt(s, n2, d2)}, {"op": "req", "a": "a", "b": "b"}, {"op": "req", "a": "b", "b": "a"}]
        if max(n, d, n2, d2) < 10 ** 120 and min(max(n, d), max(n2, d2)) < 10 ** 60:    # within the 1024 bits of the library
            ev += [
              {"op": "rop", "f": r.choice("+-*/"), "z": "c", "a": "a", "b": "b"}, {"op": "rop", "f": "-", "z": "d", "a": "a", "b": "b"}, {"op": "rget", "a": "d"}, {"op": "rfloat", "a": "d"},
              {"op": "rop", "f": "+", "z": "d", "a": "d", "b": "b"}, {"op": "req", "a": "a", "b": "d"}, {"op": "req", "a": "d", "b": "b"}, {"op": "rget", "a": "c"}]
        out.append({"sp": [], "ev": ev})
    # numbers at and beyond the 1024 bits the library has: exact or refused
    for _ in range(cx.n(40, 200)):
        ds = lambda k: r.choice("123456789") + "".join(r.choice("0123456789") for _ in range(k - 1))
        k, m = r.choice([150, 153, 154, 155, 160, 200, 250, 300]), r.choice([5, 60, 150, 153, 154, 155, 200, 300])
        ev = [{"op": "rsets", "z": "a", "ch": list(r.choice(["", "-"]) + ds(k) + r.choice(["", "/" + ds(r.choice([3, k]))]))},
              {"op": "rsets", "z": "b", "ch": list(r.choice(["", "1/", "-7/", ds(m) + "/"]) + ds(m))}]
        ev += [{"op": "rop", "f": f, "z": "e", "a": x, "b": y} for f in "+-*/" for x, y in (("a", "b"), ("b", "a"), ("a", "a"))]
        ev += [{"op": "rsets", "z": "e", "ch": list(ds(r.choice([300, 307, 308, 309, 310, 320, 400])))}, {"op": "rnumden", "a": "a"}, {"op": "rtext", "a": "b"}, {"op": "req", "a": "a", "b": "b"}]
        out.append({"sp": [], "ev": ev})
    # every operation on every pair of small fractions (in steps, so that all are met over a few seeds)
    small = sorted({Fraction(n, d) for d in range(1, 9) for n in range(-8, 9)} | {Fraction(n, d) for d in (9, 10, 12, 16, 24) for n in (-1, 1, 5, 7, 11, 35)})
    pairs = [(x, y) for x in small for y in small]
    r.shuffle(pairs)
    def put(z, x):
        return {"op": "rset", "z": z, "n": x.numerator, "d": x.denominator, "how": 2}
    for k in range(0, min(len(pairs), cx.n(1800, 20000)), 6):
        ev = []
        for x, y in pairs[k:k + 6]:
            ev += [put("a", x), put("b", y)]
            ev += [{"op": "rop", "f": f, "z": "c", "a": "a", "b": "b"} for f in "+-*/"]
            ev += [{"op": "req", "a": "a", "b": "b"}]
        out.append({"sp": [], "ev": ev})
    # fractions that share a denominator, a numerator or factors of them, of any size, also with themselves
    def sized():
        return r.choice([1, 2, 3, 4, 6, 7, 12, 30, r.randint(1, 10 ** 4), r.randint(1, 10 ** 9), r.randint(1, 10 ** 18), r.randint(1, 10 ** 30)])
    for _ in range(cx.n(400, 1500)):
        ev = []
        for _ in range(4):
            g, h, p, q = sized(), sized(), sized(), sized()
            s1, s2 = r.choice([1, -1]), r.choice([1, -1])
            x, y = r.choice([((p, g), (q, g)), ((g, p), (g, q)), ((g, h), (h, g)), ((g * p, h * q), (h * p, g * q)), ((p * g, q), (p, q * g)),
                             ((g, h), (g + h, h)), ((g, h), (g, h)), ((p, g * h), (q, h * g)), ((p, g), (q, g * h)), ((p, 1), (q, g))])
            t = lambda z, v, s: {"op": "rsets", "z": z, "ch": list(("-" if s < 0 else "") + "%d/%d" % v)}
            ev += [t("a", x, s1), t("b", y, s2)]
            for f in r.sample("+-*/", 4):
                ev += [{"op": "rop", "f": f, "z": r.choice("cd"), "a": "a", "b": "b"}]
            ev += [{"op": "rop", "f": r.choice("+-*/"), "z": "d", "a": r.choice("cab"), "b": r.choice("ab")}] if any(e.get("z") == "c" for e in ev) else []
            ev += [{"op": "req", "a": "a", "b": "b"}]
            if r.random() < 0.3:
                ev += [{"op": "rop", "f": r.choice("+-*/"), "z": "a", "a": "a", "b": "a"}, {"op": "rtext", "a": "a"}]
        out.append({"sp": [], "ev": ev})
    return out


# ---------------------------------------------------------------------- C15
def many_spaces(r, n):
    labs = r.sample("abcdefghijklmnopqrstuvwxyzABCDEFGH", n)
    return [S(labs[i], r.choice("fffb"), r.choice("oug"), ["x%d" % i]) for i in range(n)]


@check("C15", mod="TraceOpAlg", level="model_checking", mc=MC_OPALG,
       domain="component lists in every spelling, merged and unique, unregistered labels; ranks 0 to 3 over any spaces; operators with up to 8 spaces (9 are refused), up to 30 equal legs, no legs, long labels; expanded forms; operator_expr with every symmetry")
def c15(cx):
    r, out = cx.r, []
    for _ in range(cx.n(800, 4000)):
        sp = r.choice([[O, V], [V, O], [O, A_, V], [O, B_], [C_, O, V], [A_], many_spaces(r, r.choice([3, 4, 5, 8]))])
        if r.random() < 0.04:
            sp = many_spaces(r, r.choice([9, 10, 12]))
        ns, ev = len(sp), []
        free = next(x for x in "zyxwutsrqpnmlkjih" if x not in [s["l"] for s in sp])

        def bad(legs):
            """with a label that is not registered"""
            legs = [list(x) for x in legs]
            if legs:
                r.choice(legs)[1] = -1
            return legs

        def text(legs, style=None):
            t = [dict(s) for s in sp] + [{"l": free}]
            return comp_text(r, t, legs, style)

        for k in range(r.choice([2, 3, 4])):
            z = "abc"[k % 3]
            u = r.random()
            l = r.choice(["T", "V", "H0", "Lambda", "T_2", "x"])
            if u < 0.3:
                e = make_call(r, sp, False)
                e["z"] = z
                if e["op"] == "oop":
                    e["l"] = l
                    if r.random() < 0.06:
                        e["legs"][0] = bad(e["legs"][0])
                        e["comps"] = [text(x) for x in e["legs"]]
                    elif r.random() < 0.2:  # legs in any order, repeated components
                        for x in e["legs"]:
                            r.shuffle(x)
                        e["legs"].append(r.choice(e["legs"]))
                        e["comps"] = [text(x) for x in e["legs"]]
                    elif r.random() < 0.15:  # many legs, many components
                        e["legs"] = [rand_legs(r, sp, *r.choice([(4, 4), (5, 5), (6, 6), (0, 10), (9, 1), (12, 0), (3, 7)]), r.random() < 0.5) for _ in range(r.choice([1, 2]))]
                        if r.random() < 0.5:
                            e["legs"] = [rand_legs(r, sp, r.randint(0, 2), r.randint(1, 2), r.random() < 0.5) for _ in range(r.choice([8, 12, 20]))]
                        e["comps"] = [text(x) for x in e["legs"]]
                ev.append(e)
            elif u < 0.45:
                csp = r.sample(range(ns), r.randint(1, min(ns, 3)))
                asp = r.choice([csp, list(reversed(csp)), r.sample(range(ns), r.randint(1, min(ns, 3)))])
                e = {"op": "ogen", "z": z, "l": l, "rank": r.choice([0, 1, 2, 2, 3]), "csp": csp, "asp": asp,
                     "cs": "".join(sp[i]["l"] for i in csp), "as": "".join(sp[i]["l"] for i in asp)}
                if e["rank"] == 3 and len(csp) + len(asp) > 4:
                    e["rank"] = 2
                if len(csp) + len(asp) <= 3 and r.random() < 0.2:
                    e["rank"] = r.choice([4, 5])
                if r.random() < 0.7:
                    e["diag"] = r.random() < 0.4
                ev.append(e)
            elif u < 0.6:
                legs = rand_legs(r, sp, *r.choice([(r.randint(0, 4), r.randint(0, 4)), (r.randint(0, 4), r.randint(0, 4)), (9, 3), (0, 12), (7, 4)]), True)
                if r.random() < 0.08:
                    legs = bad(legs)
                lab = lambda s: sp[s]["l"] if s >= 0 else free
                if r.random() < 0.5:
                    ev.append({"op": "diagop", "l": l, "legs": legs, "c": [lab(s) for c, s in legs if c], "a": [lab(s) for c, s in legs if not c]})
                else:
                    legs = [x for x in legs if x[1] >= 0]
                    c, a = [[sum(1 for b, s in legs if b == k and s == q) for q in range(ns)] for k in (1, 0)]
                    if r.random() < 0.15:   # a list of the wrong length, a negative number
                        for v in r.choice([[c], [a], [c, a]]):
                            k = r.choice(["neg", "cut", "cut", "long", "empty"])
                            if k == "neg":
                                v[r.randrange(ns)] = r.choice([-1, -1, -2, -128])
                            else:
                                v[:] = {"cut": v[:-1], "long": v + [r.choice([0, 1])] * r.choice([1, 2, 8]), "empty": []}[k]
                    ev.append({"op": "operator", "l": l, "legs": legs, "c": c, "a": a})
            elif u < 0.85:
                legss = [rand_legs(r, sp, *r.choice([(1, 1), (2, 2), (1, 0), (0, 1), (2, 1), (0, 2), (3, 3), (3, 0), (1, 3), (5, 5), (8, 2), (0, 7)]), r.random() < 0.5)
                         for _ in range(r.choice([1, 1, 2, 3]))]
                if r.random() < 0.3:
                    legss.append(list(r.choice(legss)))
                if r.random() < 0.06:
                    legss[-1] = bad(legss[-1])
                e = {"op": r.choice(["opexprs", "opexprs", "opexprs_d"]), "l": l, "legs": legss, "comps": [text(x, r.choice([0, 1])) for x in legss],
                     "n": r.random() < 0.5}
                if e["op"] == "opexprs":
                    e["y"], e["c"] = r.choice("asn"), rat(r)
                ev.append(e)
            elif u < 0.93 and all(s["f"] == "f" for s in sp) and ns <= 8:
                c, a = [0] * ns, [0] * ns
                for _ in range(r.randint(0, 3)):
                    c[r.randrange(ns)] += 1
                for _ in range(r.randint(0, 3)):
                    a[r.randrange(ns)] += 1
                ev.append({"op": "expand", "l": "T", "c": c, "a": a})
            else:
                c, a = [0] * ns, [0] * ns
                for v in (c, a):
                    if r.random() < 0.7:
                        v[r.randrange(ns)] = r.choice([1, 2, 3, 5, 12, 13, 14, 20, 21, 30])
                        v[r.randrange(ns)] += r.choice([0, 0, 1, 4, 13])
                ev.append({"op": "ofact", "c": c, "a": a})
        out.append({"sp": sp, "ev": ev})
    return out


# ----------------------------------------------------------------- C11, C21
TLABELS = ["T", "V", "F", "t", "a", "b", "T2", "T_2", "gamma1", "eta1", "lambda2", "H0", "Hbar", "x_12", "alpha", "Lambda", "omega", "ab", "O1"]


def text_spaces(r):
    sp = text_spaces_(r)
    if r.random() < 0.1:
        more = [b for b in BYSTANDERS if b["l"] not in [x["l"] for x in sp] and not set(b["x"]) & {n for x in sp for n in x["x"]}]
        for b in r.sample(more, r.randint(1, min(len(more), 8 - len(sp)))):
            sp.insert(r.randrange(len(sp) + 1), b)
    return sp


def text_spaces_(r):
    return r.choice([[O, V], [V, O], [O, A_, V], [O, B_], [B_, D_], [C_, O, V], [A_, B_], [G_],
                     [S("a", "f", "o", "ij"), S("b", "b", "g", ["k_1"]), S("Z", "f", "u", [])],
                     [S("o", "f", "o", ["i", "\\\\mu", "x'"]), S("A", "f", "u", ["a_1", "a_2"])]])


def text_idx(r, sp):
    return [r.randrange(len(sp)), r.choice([0, 0, 1, 1, 2, 3, 5, 9, 10, 11, 63, 100, 999, 65536, 12345678])]


def text_term(r, sp, labels=None, c=None):
    ts = []
    many, wide = r.random() < 0.04, r.random() < 0.05
    for _ in range(r.choice([4, 5, 7, 9, 12]) if many else r.choice([0, 1, 1, 2, 3])):
        nu, nd = r.choice([(0, 0), (1, 1), (1, 1), (2, 2), (1, 0), (0, 1), (3, 2), (0, 2)])
        if wide:
            nu, nd = r.choice([(4, 4), (5, 5), (0, 8), (9, 1), (10, 12), (3, 6)])
        ts.append({"l": r.choice(labels or TLABELS), "u": [text_idx(r, sp) for _ in range(nu)], "d": [text_idx(r, sp) for _ in range(nd)],
                   "y": r.choice("asn")})
    o = [[r.randint(0, 1)] + text_idx(r, sp) for _ in range(r.choice([10, 11, 12, 15, 20]) if wide else r.choice([0, 0, 1, 2, 2, 3, 4, 6, 6, 9]))]
    if r.random() < 0.5:
        o.sort(key=lambda x: -x[0])
    return {"t": ts, "o": o, "n": bool(o) and r.random() < 0.5, "c": c or text_coef(r)}


def text_coef(r):
    from math import gcd
    while True:
        n = r.choice([1, 1, 1, -1, -1, 2, -2, 3, 7, -9, 10, 12, -100, 123456789, r.randint(-10 ** 6, 10 ** 6)])
        d = r.choice([1, 1, 1, 2, 3, 4, 10, 12, 99, 1000003, 987654321])
        if n:
            g = gcd(n, d)
            return [n // g, d // g]


def big_coef(r):
    """sign and digits of a number in lowest terms, up to 250 digits"""
    from math import gcd
    n, d = [r.randrange(1, 10 ** r.choice([1, 2, 9, 10, 11, 17, 18, 19, 20, 21, 38, 39, 77, 150, 250])) for _ in range(2)]
    if r.random() < 0.3:
        d = 1
    g = gcd(n, d)
    return [r.choice([1, -1]), str(n // g), str(d // g)]


def spell_idx(r, sp, i):
    return sp[i[0]]["l"] + ("_" if r.random() < 0.2 else "") + ("0" if r.random() < 0.1 else "") + str(i[1])


def spell(r, sp, t):
    """a text for a term, in one of the ways a user may write it"""
    def b(k=1):
        return " " * r.choice([0, k, k, k, 2, 3]) if k == 0 else " " * r.choice([1, 1, 1, 2, 3])
    n, d = t["c"]
    s = "" if r.random() < 0.7 else b()
    s += "-" if n < 0 else r.choice(["", "+"])
    if abs(n) != 1 or d != 1 or r.random() < 0.3:
        k = r.choice([1, 1, 2, 6]) if max(abs(n), d) < 10 ** 8 else 1  # not in lowest terms
        s += str(abs(n) * k) + ("/" + str(d * k) if d * k != 1 or r.random() < 0.3 else "")
        s += b()
    elif s and r.random() < 0.5:
        s += b()
    items = []
    for x in t["t"]:
        items.append(x["l"] + "^{" + ",".join(spell_idx(r, sp, i) for i in x["u"]) + "}_{" + ",".join(spell_idx(r, sp, i) for i in x["d"]) + "}")
    os = [("a" if sp[o[1]]["f"] == "f" else "b") + ("+" if o[0] else "-") + "(" + spell_idx(r, sp, o[1:]) + ")" for o in t["o"]]
    if t["n"]:
        items.append("{" + r.choice([" ", "", "  "]) + r.choice([" ", "  "]).join(os) + r.choice([" ", "", "  "]) + "}")
    else:
        items += os
    s += b().join(items)
    return s + r.choice(["", "", " "])


def bad_idx(r, sp):
    free = next(x for x in "zyxwutsrqpnmlkjih" if x not in [s["l"] for s in sp])
    l = sp[0]["l"]
    return r.choice([free + "0", l, "", "0" + l, "01", l + l + "1", l + "-1", l + "1" + l, l + "__1", l + "_", l + "1.5", "(" + l + "1)", l + " 1", l + "1 " + l])


@check("C11", mod="TraceText", level="model_checking",
       mc=MC_TEXT,
       domain="expressions of 0 to 6 terms over 19 labels, index numbers to 12345678, coefficients to nine digits, fermions and bosons; tensors with up to 12 indices, up to 12 factors, strings of up to 20 operators; texts in every spelling and malformed indices, tensors and lines")
def c11(cx):
    r, out = cx.r, []
    for _ in range(cx.n(2000, 9000)):
        sp = text_spaces(r)
        ev = []
        for _ in range(r.choice([2, 3, 4])):
            u = r.random()
            if u < 0.04:
                e = dedup([text_term(r, sp) for _ in range(r.choice([1, 1, 2, 3]))])
                for x in e:
                    x["c"] = big_coef(r)
                ev.append({"op": "xtextbig", "e": e})
            elif u < 0.3:
                e = dedup([text_term(r, sp) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))])
                if e and r.random() < 0.3:
                    e = dedup(e + [{"t": [], "o": [], "n": False, "c": text_coef(r)}])
                ev.append({"op": "xtext", "e": e})
            elif u < 0.45:
                ev.append({"op": "ttext", "t": text_term(r, sp)})
            elif u < 0.5:
                ev.append({"op": "itext", "i": text_idx(r, sp)})
            elif u < 0.68:
                t = text_term(r, sp)
                s = spell(r, sp, t)
                if r.random() < 0.05 and (t["t"] or t["o"]):
                    free = next(x for x in "zyxwutsrqpnmlkjih" if x not in [q["l"] for q in sp])
                    s = s + " T^{" + free + "0}_{}"
                elif r.random() < 0.03:
                    s = "1/0 " + s.strip().lstrip("+-0123456789/ ")
                e = {"op": "xparse", "ch": list(s), "y": r.choice("asn")}
                if e["y"] == "a" and r.random() < 0.5:
                    e["nosym"] = True
                if s.strip():
                    ev.append(e)
            elif u < 0.76:
                base = text_term(r, sp)
                ts = [base] + [r.choice([text_term(r, sp), dict(base, c=text_coef(r)), dict(base, c=[-base["c"][0], base["c"][1]])]) for _ in range(r.choice([0, 1, 2, 3]))]
                if max(x["c"][1] for x in ts) > 1000 or max(abs(x["c"][0]) for x in ts) > 10 ** 5:
                    ts = [dict(x, c=rat(r)) for x in ts]
                ls = [spell(r, sp, x) for x in ts]
                if r.random() < 0.3:
                    ls.insert(r.randrange(len(ls) + 1), "")
                ev.append({"op": "xparses", "ls": [list(x) if x.strip() else [] for x in ls]})
            else:
                good = r.random() < 0.75
                one = lambda: spell_idx(r, sp, text_idx(r, sp)) if good or r.random() < 0.5 else bad_idx(r, sp)
                k = r.choice(["iread", "isread", "oread", "tread", "tmake"])
                if k in ("iread", "oread"):
                    ev.append({"op": k, "ch": list(one() if good else bad_idx(r, sp))})
                elif k == "isread":
                    n = r.choice([0, 1, 2, 3, 4])
                    s = ",".join(r.choice(["", "", " "]) + one() + r.choice(["", "", " "]) for _ in range(n))
                    if s.endswith(",") or (n == 1 and s.strip() == ""):
                        continue
                    ev.append({"op": k, "ch": list(s)})
                elif k == "tread":
                    l = r.choice(TLABELS)
                    side = lambda: ",".join(one() for _ in range(r.choice([0, 1, 2, 3])))
                    a, b = side(), side()
                    if a.endswith(",") or b.endswith(",") or any(c in a + b for c in "-(). "):
                        continue
                    s = l + "^{" + a + "}_{" + b + "}"
                    if not good and r.random() < 0.4:
                        s = r.choice([l, l + "^{" + a + "}", l + "_{" + b + "}^{" + a + "}", s + " ", "^{" + a + "}_{" + b + "}", l + "^" + a + "_" + b])
                    ev.append({"op": k, "ch": list(s), "y": r.choice("asn")})
                else:
                    ev.append({"op": k, "l": r.choice(TLABELS), "u": [list(one()) for _ in range(r.choice([0, 1, 2]))],
                               "d": [list(one()) for _ in range(r.choice([0, 1, 2]))], "y": r.choice("asn")})
        if ev:
            out.append({"sp": sp, "ev": ev})
    return out


@check("C21", mod="TraceText", level="model_checking", mc=MC_TEXT,
       domain="terms and expressions as for C11, every registered index name and numbers beyond the names, Greek and other labels with and without subscripts, separators; registries of up to 8 spaces")
def c21(cx):
    r, out = cx.r, []
    for _ in range(cx.n(1600, 6000)):
        sp = text_spaces(r)
        if r.random() < 0.3:
            r2 = list("ijklmnabcdef")
            r.shuffle(r2)
            k = r.randrange(1, 8)
            sp = [dict(sp[0], x=r2[:k])] + [dict(s, x=[]) for s in sp[1:]]
        ev = []
        for _ in range(r.choice([2, 3])):
            if r.random() < 0.6:
                ev.append({"op": "tlatex", "t": text_term(r, sp, TLABELS + ["alpha1", "omega_3", "Alpha", "etas", "psi12", "chi", "xi9", "Xi9", "pi", "zeta2", "mu"])})
            else:
                e = dedup([text_term(r, sp) for _ in range(r.choice([0, 1, 2, 3, 5]))])
                ev.append({"op": "xlatex", "e": e, "sep": r.choice([" ", "\n", " \\\\ ", "", " + "])})
        out.append({"sp": sp, "ev": ev})
    return out


# ----------------------------------------------------------- C17, C18, C22
INV = lambda *i: "INIT Init\nNEXT Next\n" + "".join("INVARIANT %s\n" % x for x in i) + "CHECK_DEADLOCK FALSE\n"


@check("C17", mod="TraceRegistry", level="model_checking",
       mc=[dict(module="MCRegistry", cfg="CONSTANT MaxLen = 3\n" + INV("Unique", "Effects", "Resolves"),
                what="every history of 3 requests over 3 labels, 3 names, valid and invalid fields and types", tier="quick-only"),
           dict(module="MCRegistry", cfg="CONSTANT MaxLen = 4\n" + INV("Unique", "Effects", "Resolves"), what="the same, 4 requests", tier="thorough", workers=4)],
       domain="behaviours of GenRegistry: 14 requests (adds that are accepted or refused for every reason, resets, contractions that show the type), the whole registry observed after each; positions that do not exist; objects that outlive the registrations they were made under")
def c17(cx):
    r, out = cx.r, []
    labs = ["o", "v", "a", "b", "O", "z", "1"]
    for hs in cx.par([(("GenRegistry", cx.n(120, 400), 14), {})] * 4):
        for h in hs:
            ev, kept = [{"op": "look", "labs": labs}], {}
            for a in h:
                ev.append(a)
                if r.random() < 0.3:
                    ev.append({"op": "at", "p": r.choice([-1, 0, 0, 1, 2, 3, 4, 7, 1000])})
                if not kept or r.random() < 0.3:
                    z = r.choice("xyz")
                    idx = lambda: [r.choice([0, 0, 0, 1, 1, 2, 3, 5]), r.randrange(4)]
                    k = r.choice([0, 1, 2])
                    ix = [idx() for _ in range(3)]
                    kept[z] = {"t": [] if k == 0 else [{"l": "T", "u": ix[:r.choice([0, 1, 2])], "d": ix[1:r.choice([1, 2, 3])], "y": "a"}],
                               "o": [] if k == 1 else [[r.randint(0, 1)] + i for i in r.sample(ix, r.choice([1, 1, 2, 3]))], "n": False}
                    ev.append({"op": "make", "z": z, "t": kept[z]})
                if r.random() < 0.5:
                    z = r.choice(sorted(kept))
                    ev.append({"op": "show", "z": z, "t": kept[z], "how": r.choice(["text", "latex", "canon"])})
                if a["op"] != "probe":
                    ev.append({"op": "look", "labs": labs})
            out.append({"sp": [], "ev": ev})
    return out


@check("C18", mod="TraceOrder", level="model_checking",
       mc=[dict(module="MCOrder", cfg=INV("Inv"), what="the orders are strict total orders over every registry of two spaces; sign of sorting")],
       domain="pairs of indices and operators over registries of every field and type, with equal, neighbouring and distant spaces and numbers; lists of up to 40 indices with numbers up to 2^26 - 1, with and without repetitions, in both directions")
def c18(cx):
    r, out = cx.r, []
    for _ in range(cx.n(1200, 4000)):
        n = r.choice([1, 2, 3, 5, 8, 12])
        sp = many_spaces(r, n)
        big = r.choice([2, 3, 12, 1000, 70000, 2 ** 26])
        idx = lambda: [r.randrange(n), r.randrange(big)]
        ev = []
        for _ in range(r.choice([4, 6, 8])):
            u = r.random()
            a = idx()
            b = r.choice([idx(), idx(), list(a), [a[0], r.randrange(big)]])
            if u < 0.2:
                ev.append({"op": "ilt", "a": a, "b": b})
            elif u < 0.6:
                ev.append({"op": "olt", "a": [r.randint(0, 1)] + a, "b": [r.randint(0, 1)] + b})
            else:
                k = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 8, 13, 20, 40])
                ix = [idx() for _ in range(k)]
                if r.random() < 0.7:
                    ix = [list(x) for x in {tuple(y) for y in ix}]
                    r.shuffle(ix)
                ev.append({"op": "isort", "i": ix, "rev": r.random() < 0.5})
        out.append({"sp": sp, "ev": ev})
    # all pairs of operators of a small registry
    for y1, y2, f1, f2 in itertools.product("oug", "oug", "fb", "fb"):
        sp = [S("p", f1, y1, []), S("q", f2, y2, [])]
        ops = [[c, s, k] for c in (0, 1) for s in (0, 1) for k in (0, 1)]
        out.append({"sp": sp, "ev": [{"op": "olt", "a": a, "b": b} for a in ops for b in ops]})
    # all permutations of 4 indices
    sp = [S("p", "f", "o", []), S("q", "b", "u", [])]
    for k in range(5):
        base = [[0, 1], [0, 10], [1, 0], [1, 2]][:k]
        out.append({"sp": sp, "ev": [{"op": "isort", "i": list(p), "rev": v} for p in itertools.permutations(base) for v in (False, True)]})
    return out


@check("C22", mod="TraceOrder", level="model_checking",
       mc=[dict(module="MCParts", cfg="INIT Init\nNEXT Next\nCONSTANT MaxN = 14\nINVARIANT Valid\nINVARIANT Done\nCHECK_DEADLOCK FALSE\n",
                what="the enumeration by successors meets every partition of n <= 14 once; limits on parts; Euler's recurrence"),
           dict(module="MCParts", cfg="INIT Init\nNEXT Next\nCONSTANT MaxN = 19\nINVARIANT Valid\nINVARIANT Done\nCHECK_DEADLOCK FALSE\n", tier="thorough",
                what="the same up to n = 19")],
       domain="every n up to 16 (24 thorough) and every m up to n + 2; histories of calls with n from -3 to 20 and m from -2 to 2000 in one process")
def c22(cx):
    top = cx.n(16, 24)
    r = cx.r
    out = [{"sp": [], "ev": [{"op": "parts", "n": n, "m": m} for m in range(n + 3)]} for n in range(top + 1)]
    for _ in range(cx.n(300, 1000)):
        ev = []
        for _ in range(30):
            n = r.choice([r.randint(-3, 9), r.randint(0, 12), r.choice([12, 14, 16, 20])])
            ev.append({"op": "parts", "n": n, "m": r.choice([n, n + 1, n - 1, r.randint(-2, n + 2) if n >= 0 else 0, r.randint(0, 40), r.choice([64, 100, 128, 256, 1000, 1024, 2000])])})
        out.append({"sp": [], "ev": ev})
    # larger numbers in few parts, and a few complete lists
    for n in r.sample(range(21, 70), cx.n(12, 40)):
        out.append({"sp": [], "ev": [{"op": "parts", "n": n, "m": m} for m in (0, 1, 2, 3) if n < 50 or m < 3]})
    for n in r.sample(range(17, 24), cx.n(2, 7)):
        out.append({"sp": [], "ev": [{"op": "parts", "n": n, "m": m} for m in (n, r.randint(4, n))]})
    # every pair in one process, in an order of its own
    for k in range(cx.n(4, 12)):
        pairs = [(n, m) for n in range(-1, 9) for m in range(-1, 41)]
        r.shuffle(pairs)
        out.append({"sp": [], "ev": [{"op": "parts", "n": n, "m": m} for n, m in pairs]})
    return out


# ----------------------------------------------------------------- C19, C20
@check("C19", mod="TraceEquations", level="model_checking", mc=MC_TEXT,
       domain="expressions of 0 to 20 terms with up to 12 tensors and 0 to 20 operators in any order, flagged and not, fermions and bosons, any registry")
def c19(cx):
    r, out = cx.r, []
    for _ in range(cx.n(1800, 7000)):
        sp = r.choice([[O, V], [V, O], [O, A_, V], [O, B_], [C_, O, V], [A_], many_spaces(r, 5), many_spaces(r, 10)])
        ev = []
        for _ in range(r.choice([1, 2])):
            base = [text_term(r, sp, ["T", "V", "F", "gamma1"], rat(r)) for _ in range(r.choice([0, 1, 2, 3, 6] if r.random() < 0.95 else [12, 20]))]
            for t in list(base):  # terms that fall in the same or a neighbouring group
                if r.random() < 0.5:
                    u = json.loads(json.dumps(t))
                    u["c"] = rat(r)
                    k = r.random()
                    if k < 0.3:
                        u["t"].append(rand_tensor(r, sp, "S", "a"))
                    elif k < 0.5 and u["o"]:
                        r.shuffle(u["o"])
                    elif k < 0.7 and u["o"]:
                        o = r.choice(u["o"])
                        o[r.choice([0, 1])] = r.randint(0, 1) if len(sp) > 1 else 0
                    elif k < 0.85:
                        u["n"] = bool(u["o"]) and not u["n"]
                    base.append(u)
            if r.random() < 0.4:
                for t in base:
                    t["o"].sort(key=lambda x: -x[0])
                    t["n"] = bool(t["o"])
            ev.append({"op": "mbeq", "e": dedup(base), "l": r.choice(["R", "H", "T2", "Hbar"]), "pl": r.random() < 0.5})
        out.append({"sp": sp, "ev": ev})
    return out


def eq_spaces(r):
    """registries with index names of one letter, of several, too few, none"""
    letters = list("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
    r.shuffle(letters)
    n = r.choice([1, 2, 2, 3, 4])
    labs = r.sample("ovacgpqZ", n)
    sp = []
    for k in range(n):
        names = [letters.pop() for _ in range(r.choice([0, 1, 2, 3, 6]))]
        if r.random() < 0.25:
            names.insert(r.randrange(len(names) + 1), labs[k] + r.choice(["0", "1", "_1", "x"]) + str(k))
        sp.append(S(labs[k], r.choice("fffb"), r.choice("oug"), names))
    return sp


@check("C20", mod="TraceEquations", level="model_checking", mc=MC_TEXT,
       domain="equations with up to 5 factors and 14 indices per space, any pattern of equal indices, target indices among those of the factors or not, no factors; up to 80 different indices (there are 52 letters: more are refused); equations for no tensor or two tensors, or with operators (refused); registries with one-letter, longer, too few and no index names; unknown formats")
def c20(cx):
    r, out = cx.r, []
    for _ in range(cx.n(2000, 9000)):
        sp = r.choice([[O, V], [O, A_, V], [V, O], eq_spaces(r), eq_spaces(r), eq_spaces(r)])
        width = r.choice([2, 3, 6, 14 if len(sp) < 4 else 8])
        ev = []
        for _ in range(r.choice([1, 2])):
            idx = lambda: [r.randrange(len(sp)), r.randrange(width)]
            fs = []
            big = width > 6 and r.random() < 0.15
            for _ in range(r.choice([6, 7, 8]) if big else r.choice([0, 1, 1, 2, 2, 3, 4, 5])):
                nu, nd = r.choice([(3, 3), (4, 4), (2, 2)] if big else [(1, 1), (2, 2), (0, 0), (1, 0), (0, 1), (3, 3), (2, 1)])
                fs.append({"l": r.choice(TLABELS), "u": [idx() for _ in range(nu)], "d": [idx() for _ in range(nd)], "y": r.choice("asn")})
            used = [i for t in fs for i in t["u"] + t["d"]]
            pick = lambda: r.choice(used) if used and r.random() < 0.9 else idx()
            k = r.choice([0, 1, 1, 2, 3])
            lt = {"l": r.choice(["R", "H", "T2", "r", "x_1"]), "u": [pick() for _ in range(k)], "d": [pick() for _ in range(r.choice([k, k, 0, 1]))], "y": "a"}
            if r.random() < 0.03:       # about as many indices as there are letters
                n, m = r.choice([40, 50, 51, 52, 52, 53, 53, 54, 60, 80]), r.choice([1, 2, 3, 4])
                ix = r.sample([[s, j] for s in range(len(sp)) for j in range(80)], n)
                fs = [{"l": r.choice(TLABELS), "u": ix[j::2 * m], "d": ix[m + j::2 * m], "y": "a"} for j in range(m)]
                if m > 1:
                    fs[0]["u"] = fs[0]["u"] + fs[1]["d"][:3]
                lt = dict(lt, u=r.sample(ix, r.choice([0, 1, 4])), d=r.sample(ix, r.choice([0, 2, 4])))
            if not fs and len({tuple(i) for i in lt["u"] + lt["d"]}) > 50:
                continue
            q = {"lhs": {"t": [lt], "o": [], "n": False}, "rhs": {"t": fs, "o": [], "n": False}, "c": r.choice([rat(r), text_coef(r)])}
            if abs(q["c"][0]) > 10 ** 6 or q["c"][1] > 10 ** 8:
                q["c"] = rat(r)
            if r.random() < 0.06:       # not an equation for one tensor
                ops = [[r.randint(0, 1)] + idx() for _ in range(r.choice([1, 2, 3]))]
                v = r.choice(["none", "two", "lo", "ro", "ro", "both"])
                q["lhs"] = {"t": [] if v == "none" else [lt, dict(lt, l="q")] if v == "two" else [lt],
                            "o": ops if v in ("lo", "both") else [], "n": v == "lo" and r.random() < 0.5}
                q["rhs"] = dict(q["rhs"], o=ops if v in ("ro", "both") else [])
            q = far(r, q, 0.1)
            for op in r.sample(["eqambit", "eqeinsum", "pyeinsum", "eqtext"], r.choice([2, 3, 4])):
                ev.append(dict(q, op=op))
            if r.random() < 0.1:
                ev.append(dict(q, op="eqbad", fmt=r.choice(["", "numpy", "Ambit", "einsum ", "latex", "ambit", "einsum"])))
        if ev:
            out.append({"sp": sp, "ev": ev})
    return out
