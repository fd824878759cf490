#!/usr/bin/env python3
"""Decides one property:  check.py C01 [--replay FILE] [--keep]

1. builds /repo's working tree (build.py) while TLC checks the design models
   of the property (spec/MC*.tla);
2. makes scripts (gens.py, seeded with VERIF_SEED; some are behaviours that
   TLC generated from the specification) and runs them on the built module
   (driver.py), which records traces;
3. TLC checks every trace against the specification (spec/Trace*.tla);
4. a rejected trace is run and checked again; if it is rejected again, the
   property is violated.
"""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
sys.path.insert(0, HERE)
import build as B  # noqa: E402

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/usr/bin/python3"
NPROC = min(8, os.cpu_count() or 4)


class ToolError(Exception):
    pass


# --------------------------------------------------------------------- TLC
class TLC:
    """one run of TLC"""

    def __init__(self, scratch, module, cfg, env=None, workers=NPROC, timeout=800, args=(), heap="4g"):
        self.dir = tempfile.mkdtemp(dir=scratch)
        self.module = module
        self.out = os.path.join(self.dir, "out")
        cfgf = os.path.join(self.dir, "m.cfg")
        with open(cfgf, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + self.dir, "-cp", JAR, "tlc2.TLC", "-nowarning",
               "-noGenerateSpecTE", "-workers", str(workers), "-metadir", self.dir, "-config", cfgf] + list(args) + [
                   os.path.join(SPEC, module + ".tla")]
        self.t0, self.timeout = time.time(), timeout
        self.fh = open(self.out, "w")
        self.p = subprocess.Popen(cmd, stdout=self.fh, stderr=subprocess.STDOUT, env=e, cwd=self.dir)

    def wait(self):
        try:
            rc = self.p.wait(max(1, self.timeout - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            rc = -9
        self.fh.close()
        with open(self.out, errors="replace") as f:
            self.text = "".join(x for x in f if not x.startswith(("Parsing file", "Semantic processing", "Linting of")))
        self.rc = rc
        self.wall = time.time() - self.t0
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", self.text)
        m2 = re.findall(r"(\d+) states checked", self.text)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else ((int(m2[-1]), int(m2[-1])) if m2 else (0, 0))
        self.done = "Model checking completed. No error has been found." in self.text
        return self


def cfg_text(consts, inv=(), props=(), spec="Spec", constraint=None, view=None, deadlock=False, post=None, init=None):
    s = []
    if init:
        s.append("INIT Init\nNEXT Next")
    else:
        s.append("SPECIFICATION " + spec)
    for k, v in (consts or {}).items():
        s.append(f"CONSTANT {k} {'<-' if str(v).startswith('@') else '='} {str(v).lstrip('@')}")
    s += ["INVARIANT " + i for i in inv]
    s += ["PROPERTY " + i for i in props]
    if constraint:
        s.append("CONSTRAINT " + constraint)
    if view:
        s.append("VIEW " + view)
    if post:
        s.append("POSTCONDITION " + post)
    s.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    return "\n".join(s) + "\n"


# ------------------------------------------------------------------ driver
TSAN = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.tsan-x86_64.so"


def kind_env(kind, scratch, seed):
    """environment of the driver for a kind of build"""
    if kind != "tsan":
        return {}
    so = os.path.join(scratch, "sched.so")
    if not os.path.exists(so):
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "sched.c"), "-ldl"], check=True)
    tsan = TSAN
    if not os.path.exists(tsan):
        tsan = subprocess.run(["clang++", "-print-file-name=libclang_rt.tsan-x86_64.so"], capture_output=True, text=True).stdout.strip()
    log = os.path.join(scratch, "tsanlog")
    return {"LD_PRELOAD": so + " " + tsan, "TSAN_OPTIONS": f"log_path={log} exitcode=0 halt_on_error=0", "VERIF_TSAN_LOG": log,
            "VERIF_SCHED": str(seed * 7 + 1)}


def run_driver(bdir, scripts, scratch, nproc=NPROC, timeout=120, env=None, py=None):
    """runs the scripts; returns the traces in order.  A script that ends the
    process or does not return gets a first event with x = 2."""
    d = tempfile.mkdtemp(dir=scratch)
    sf = os.path.join(d, "scripts")
    with open(sf, "w") as f:
        for s in scripts:
            f.write(json.dumps(s) + "\n")
    n = len(scripts)
    nproc = max(1, min(nproc, n))
    res = [None] * n
    lock = threading.Lock()

    def lane(k):
        start = k
        outf = os.path.join(d, "out%d" % k)
        while start < n:
            open(outf, "w").close()
            e = dict(os.environ)
            e.update(env or {})
            e["PYTHONDONTWRITEBYTECODE"] = "1"
            with open(os.path.join(d, "err%d" % k), "w") as err:
                p = subprocess.Popen([py or PY, "-B", os.path.join(HERE, "driver.py"), bdir, sf, outf, str(start), str(nproc)],
                                     stdout=subprocess.DEVNULL, stderr=err, env=e, cwd=d)
                size, last, killed = -1, time.time(), False
                while p.poll() is None:
                    try:
                        p.wait(0.05 if size <= 0 else 0.3)
                    except subprocess.TimeoutExpired:
                        pass
                    z = os.path.getsize(outf)
                    if z != size:
                        size, last = z, time.time()
                    elif time.time() - last > timeout:
                        p.kill()
                        p.wait()
                        killed = True
            cur = None
            with open(outf, errors="replace") as f:
                for line in f:
                    if line.startswith("#"):
                        cur = int(line[1:])
                    else:
                        try:
                            t = json.loads(line)
                        except ValueError:
                            continue
                        with lock:
                            res[cur] = t
                        done, cur = cur, None
                        start = done + nproc
            if cur is None:
                if start < n and p.returncode != 0:
                    with open(os.path.join(d, "err%d" % k)) as f:
                        msg = f.read()[-2000:]
                    raise ToolError("driver does not start: " + msg)
                if start < n and p.returncode == 0:
                    raise ToolError("driver stopped early")
                break
            with open(os.path.join(d, "err%d" % k)) as f:
                msg = f.read()[-1500:]
            if p.returncode == 1 and "Traceback" in msg and "Fatal" not in msg:
                raise ToolError("driver error: " + msg)
            t = json.loads(json.dumps(scripts[cur]))
            t["ev"] = [dict(t["ev"][0], x=2, why=("no answer within %d s" % timeout) if killed else
                            "process ended: %s %s" % (p.returncode, msg[-300:]))]
            with lock:
                res[cur] = t
            start = cur + nproc

    errs = []

    def safe(k):
        try:
            lane(k)
        except Exception as ex:
            errs.append(ex)

    ths = [threading.Thread(target=safe, args=(k,)) for k in range(nproc)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errs:
        raise errs[0]
    shutil.rmtree(d, ignore_errors=True)
    return res


# ----------------------------------------------------------- trace checking
def tla_trace(t):
    """the trace as the specification reads it (no free text)"""
    ev = []
    for e in t["ev"]:
        e = {k: v for k, v in e.items() if k != "why"}
        ev.append(e)
    return {"id": t["id"], "sp": t.get("sp", []), "ev": ev}


def check_traces(traces, scratch, workers=NPROC, timeout=800, heap="6g"):
    """returns {id: (position, expected text)} of the rejected traces, and counts"""
    bymod = {}
    for t in traces:
        bymod.setdefault(t["mod"], []).append(t)
    rej, stats = {}, {"states": 0, "transitions": 0, "tlc_s": 0.0}
    for mod, ts in bymod.items():
        pending = list(ts)
        attempts = 0
        while pending:
            attempts += 1
            d = tempfile.mkdtemp(dir=scratch)
            tf = os.path.join(d, "trace.ndjson")
            with open(tf, "w") as f:
                for t in pending:
                    f.write(json.dumps(tla_trace(t)) + "\n")
            r = TLC(scratch, mod, cfg_text({}, init=True), env={"TRACE": tf}, workers=workers, timeout=timeout, heap=heap).wait()
            acc, bad = set(), {}
            for m in re.finditer(r'<<\s*"(ACC|REJ)",\s*"([^"]*)"(?:,\s*(\d+))?', r.text):
                if m[1] == "ACC":
                    acc.add(m[2])
                else:
                    bad[m[2]] = int(m[3])
            stats["states"] += r.distinct
            stats["transitions"] += r.generated
            stats["tlc_s"] += r.wall
            if r.done:
                missing = [t["id"] for t in pending if t["id"] not in acc and t["id"] not in bad]
                if missing:
                    raise ToolError(f"{mod}: no verdict on {missing[:5]}\n" + r.text[-3000:])
                for k, v in bad.items():
                    rej[k] = v
                break
            if r.rc == -9:
                raise ToolError(f"{mod}: TLC ran out of time")
            # The specification has no value for what was observed.  Find the
            # trace by its state, set it aside as rejected, and go on.
            m = re.findall(r"/\\ tnum = (\d+)", r.text)
            if not m or attempts > 12:
                raise ToolError(f"{mod}: TLC failed\n" + r.text[-4000:])
            k = int(m[-1]) - 1
            if os.environ.get("VERIF_DEBUG"):
                print(r.text[-3500:])
            mp = re.findall(r"/\\ tpos = (-?\d+)", r.text)
            rej[pending[k]["id"]] = int(mp[-1]) + 1 if mp else 0
            for i, v in bad.items():
                rej[i] = v
            pending = [t for i, t in enumerate(pending) if i != k and t["id"] not in acc and t["id"] not in bad]
            shutil.rmtree(d, ignore_errors=True)
    return rej, stats


# ------------------------------------------------------------------- main
def load_known():
    f = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"KNOWN property=(\S+) script=(\w+) (.*)", line)
            if m:
                out.append((m[1], m[2], m[3].strip()))
    return out


def script_key(s):
    e = [{k: v for k, v in x.items() if k not in ("x", "r", "why")} for x in s["ev"]]
    return hashlib.sha256(json.dumps([s.get("sp"), e], sort_keys=True).encode()).hexdigest()[:16]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scratch = tempfile.mkdtemp(prefix="vw.")
    rc = 2
    try:
        rc = decide(prop, tier, seed, scratch)
    except (ToolError, B.BuildError) as ex:
        print("ERROR", prop, str(ex)[-6000:])
    except Exception:
        traceback.print_exc()
    finally:
        if "--keep" in sys.argv:
            print("scratch", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(prop, tier, seed, scratch):
    import gens
    t0 = time.time()
    spec = gens.CHECKS[prop]
    verbose = "-v" in sys.argv
    box = {}
    kinds = spec.get("builds", ["plain"])

    def do_build():
        try:
            for k in kinds:
                box[k] = B.build(k)
        except Exception as ex:
            box["err"] = ex

    th = threading.Thread(target=do_build)
    th.start()
    replay = None
    if "--replay" in sys.argv:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
            replay = json.load(f)
    # design models, next to the build
    mcs = []
    if not replay:
        for m in spec.get("mc", []):
            if m.get("tier", "quick") == "thorough" and tier != "thorough":
                continue
            if tier == "thorough" and m.get("tier") == "quick-only":
                continue
            mcs.append((m, TLC(scratch, m["module"], m["cfg"], workers=m.get("workers", 2), timeout=m.get("timeout", 600),
                               args=m.get("args", ()), env=m.get("env"), heap=m.get("heap", "3g"))))
    rng = random.Random(f"{prop}/{seed}/{tier}")
    tb = time.time()
    if replay:
        scripts = replay["scripts"]
    else:
        cx = gens.Gx(rng, tier, scratch, TLC, cfg_text)
        cx.more = gens.MORE.get(prop, 1)
        scripts = spec["gen"](cx)
        for i, s in enumerate(scripts):
            s["id"] = "%s-%d" % (prop, i)
            s.setdefault("mod", spec.get("mod"))
    th.join()
    if "err" in box:
        raise box["err"]
    tg = time.time()
    groups = {}
    for s in scripts:
        groups.setdefault(s.get("build", kinds[0]), []).append(s)
    traces = []
    for k, ss in groups.items():
        traces += run_driver(box[k], ss, scratch, nproc=spec.get("nproc", NPROC), timeout=spec.get("stall", 100),
                             env=kind_env(k, scratch, seed))
    td = time.time()
    if "--dump" in sys.argv:
        with open(sys.argv[sys.argv.index("--dump") + 1], "w") as f:
            for t in traces:
                f.write(json.dumps(t) + "\n")
    rej, stats = check_traces(traces, scratch, heap=spec.get("heap", "6g"))
    tc = time.time()
    # design results
    mcstat = []
    for m, t in mcs:
        t.wait()
        ok = (m["expect"] in t.text) if "expect" in m else t.done or (m.get("simulate") and t.rc in (0, -9) and "Error" not in t.text)
        mcstat.append({"module": m["module"], "what": m.get("what", ""), "distinct": t.distinct, "generated": t.generated,
                       "wall_s": round(t.wall, 1)})
        if not ok:
            raise ToolError(f"design model {m['module']} fails:\n" + t.text[-4000:])
    tm = time.time()
    confirmed = []
    if rej:
        byid = {t["id"]: t for t in traces}
        again = [s for s in scripts if s["id"] in rej][:40]
        t2 = []
        for k, ss in _group(again, kinds).items():
            t2 += run_driver(box[k], ss, scratch, nproc=spec.get("nproc", NPROC), timeout=spec.get("stall", 100),
                             env=kind_env(k, scratch, seed))
        rej2, _ = check_traces(t2, scratch)
        by2 = {t["id"]: t for t in t2}
        for s in again:
            if s["id"] in rej2:
                confirmed.append((s, by2[s["id"]], rej2[s["id"]]))
            elif spec.get("once"):  # schedules differ from run to run: what was observed counts
                confirmed.append((s, byid[s["id"]], rej[s["id"]]))
    known = load_known()
    nv = 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for s, t, pos in confirmed:
        key = script_key(s)
        hit = [k for k in known if k[0] == prop and k[1] == key]
        if hit:
            print(f"KNOWN-FINDING: property={prop} {hit[0][2]}")
            continue
        path = os.path.join(VERIF, "replays", f"{prop}-{key}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "scripts": [s], "rejected_event": pos, "trace": t}, f, indent=1)
        if nv < 5:
            print(f"VIOLATION property={prop} replay={path}")
            if verbose and pos and pos <= len(t["ev"]):
                print("   ", json.dumps(t["ev"][pos - 1])[:1500])
        nv += 1
    # evidence
    nev = sum(len(t["ev"]) for t in traces)
    kinds_ = {}
    for t in traces:
        for e in t["ev"]:
            kinds_[e["op"]] = kinds_.get(e["op"], 0) + 1
    distinct = len({script_key(s) for s in scripts})
    samples = [tla_trace(t) for t in sorted(traces, key=lambda t: len(json.dumps(t)))[len(traces) // 4:][:1]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "states": stats["states"] + sum(m["distinct"] for m in mcstat),
            "transitions": stats["transitions"] + sum(m["generated"] for m in mcstat),
            "traces_validated_against_impl": len(traces) - len(rej),
            "traces_rejected": len(rej),
            "distinct_scripts": distinct,
            "events": nev,
            "events_by_action": kinds_,
            "raised": sum(1 for t in traces for e in t["ev"] if e.get("x") == 1 or (isinstance(e.get("r"), dict) and e["r"].get("ok") is False)),
            "design_models": mcstat,
            "domain": spec.get("domain", ""),
            "samples": samples,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": nv,
    }
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {len(traces)} traces, {nev} events, {len(rej)} rejected; design states "
          f"{sum(m['distinct'] for m in mcstat)}; build+gen {tg-t0:.1f} drive {td-tg:.1f} tlc {tc-td:.1f} mc {tm-tc:.1f} total {time.time()-t0:.1f} s")
    return 1 if nv else 0


def _group(scripts, kinds):
    g = {}
    for s in scripts:
        g.setdefault(s.get("build", kinds[0]), []).append(s)
    return g


if __name__ == "__main__":
    main()
