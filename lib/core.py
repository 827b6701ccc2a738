"""Harness core: workers, verdicts, evidence.  Verdicts are three-valued:
violated (exit 1), held on what was observed (exit 0), inconclusive or harness error (exit 2)."""
import os, sys, json, time, random, signal, traceback, tempfile, shutil, hashlib, collections, io, contextlib, pickle

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")


class Violation(Exception):
    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg, self.detail = msg, detail


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """The case is outside the property's domain (counted, never a verdict)."""


def load_known(prop):
    """known_findings.txt: 'known: property=<id> key=<mechanism> <what>' and 'fixed: property=<id> <commit> <what>'."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith("known: property=%s " % prop):
                rest = line.strip().split(" ", 3)
                out[rest[2].split("=", 1)[1]] = rest[3]
    return out


class Ctx:
    def __init__(self, prop, scratch, tier):
        self.prop, self.scratch, self.tier = prop, scratch, tier
        self.counters = collections.Counter()
        self.keys = set()
        self.samples = []
        self.known_seen = {}
        self.known_listed = load_known(prop)
        self.case = None
        self.maxima = {}

    def count(self, name, n=1):
        self.counters[name] += int(n)

    def worst(self, name, v):
        """Largest observed (deviation / tolerance) of a monitor."""
        v = float(v)
        if v > self.maxima.get(name, -1.0):
            self.maxima[name] = v

    def nontrivial(self, *key):
        self.keys.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def fail(self, msg, **detail):
        raise Violation(msg, **detail)

    def check(self, ok, msg, **detail):
        if not ok:
            raise Violation(msg, **detail)

    def known(self, key, msg, **detail):
        """A genuine defect listed in known_findings.txt by mechanism; anything unlisted is a violation."""
        if key in self.known_listed:
            self.known_seen.setdefault(key, msg)
        else:
            raise Violation(msg, **detail)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def from_repo(tb_exc):
    """True when the exception was raised inside the code under test (or below a call it made)."""
    frames = traceback.extract_tb(tb_exc.__traceback__)
    return any(os.path.abspath(f.filename).startswith(SRC) for f in frames)


def _alarm(signum, frame):
    raise CaseTimeout()


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return o.tolist() if o.size <= 200 else {"shape": list(o.shape), "min": float(o.min()), "max": float(o.max())}
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


def run_case(mod, case, ctx, limit):
    """-> None | ('violation', msg, detail) | ('timeout',) | ('error', text)"""
    ctx.case = case
    ctx.counters["cases"] += 1
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    cwd = os.getcwd()
    cpu = time.process_time()
    try:
        with quiet():
            mod.run(case, ctx)
        return None
    except Skip as e:
        ctx.counters["skipped: %s" % e] += 1
        return None
    except Violation as e:
        return ("violation", e.msg, jsonable(e.detail))
    except CaseTimeout as e:
        cpu = time.process_time() - cpu
        if cpu > 0.5 * limit and from_repo(e):      # busy in the code under test all along (cases take a few seconds at most)
            return ("violation", "the code under test does not return (%.0f s of processor time)" % cpu, {"traceback": traceback.format_exc()[-3000:], "hang": True})
        return ("timeout",)
    except SystemExit as e:
        if from_repo(e):
            return ("violation", "unexpected exit (%s) on a valid input" % e, {"traceback": traceback.format_exc()[-3000:]})
        return ("error", traceback.format_exc())
    except Exception as e:
        text = traceback.format_exc()
        if from_repo(e):
            return ("violation", "unexpected %s on a valid input: %s" % (type(e).__name__, e), {"traceback": text[-3000:]})
        return ("error", text)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.chdir(cwd)


def required(mod, counters):
    """observations that must be made; those of an internal hook only where the code has that internal name"""
    need = dict(getattr(mod, "REQUIRED", {}))
    for absent, names in getattr(mod, "OPTIONAL", {}).items():
        if counters.get(absent):
            for k in names:
                need.pop(k, None)
    return need


def worker(mod, w, nw, seed, tier, plan, scratch, out):
    ctx = Ctx(mod.PROP, scratch, tier)
    t0 = time.time()
    findings = []
    timeouts = 0
    limit = getattr(mod, "CASE_LIMIT", 120.0)
    directed = list(getattr(mod, "DIRECTED", []))
    if callable(getattr(mod, "directed", None)):
        directed += mod.directed(tier)
    n = plan["n"]
    idx = w
    while True:
        if idx < len(directed):
            case = directed[idx]
            case = dict(case, _idx="directed-%d" % idx)
        else:
            gi = idx - len(directed)
            if n is not None and gi >= n:
                break
            el = time.time() - t0
            need = required(mod, ctx.counters)
            if el > plan["seconds"] and (el > 5 * plan["seconds"] or all(ctx.counters.get(k, 0) * nw >= 1.5 * v for k, v in need.items())):
                break       # on a slow machine, carry on until the monitors have seen enough
            rng = random.Random("%s:%s:%s" % (seed, mod.PROP, gi))
            case = mod.case(rng, gi, tier)
            case["_idx"] = gi
        r = run_case(mod, case, ctx, limit)
        if r is None:
            pass
        elif r[0] == "violation":
            findings.append((case, r))
            if len(findings) >= 2 or r[2].get("hang"):
                break
        elif r[0] == "timeout":
            timeouts += 1
            if timeouts > 3:
                break
        else:
            findings.append((case, r))
            break
        idx += nw
    with open(out, "wb") as f:
        pickle.dump(dict(counters=ctx.counters, keys=ctx.keys, samples=ctx.samples, known=ctx.known_seen,
                         maxima=ctx.maxima, findings=findings, timeouts=timeouts), f)


def main(mod, tier, seed):
    prop = mod.PROP
    t0 = time.time()
    nw = int(os.environ.get("VERIF_WORKERS", "8"))
    nw = min(nw, getattr(mod, "WORKERS", nw))
    plan = dict(getattr(mod, "PLAN", {}).get(tier, {"n": 200, "seconds": 40} if tier == "quick" else {"n": None, "seconds": 420}))
    plan.setdefault("n", None)
    plan.setdefault("seconds", 60 if tier == "quick" else 420)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    rc = 2
    try:
        prepare = getattr(mod, "prepare", None)
        with quiet():
            if prepare:
                prepare()
        pids = []
        outs = []
        sys.stdout.flush(); sys.stderr.flush()
        for w in range(nw):
            out = os.path.join(scratch, "out%d" % w)
            outs.append(out)
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    sc = os.path.join(scratch, "w%d" % w)
                    os.makedirs(sc)
                    os.chdir(sc)
                    worker(mod, w, nw, seed, tier, plan, sc, out)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush(); sys.stderr.flush()
                    os._exit(code)
            pids.append(pid)
        bad = 0
        for pid in pids:
            _, st = os.waitpid(pid, 0)
            if st != 0:
                bad += 1
        counters, keys, samples, known, maxima, findings, timeouts = collections.Counter(), set(), [], {}, {}, [], 0
        for out in outs:
            if not os.path.exists(out):
                continue
            d = pickle.load(open(out, "rb"))
            counters.update(d["counters"]); keys |= d["keys"]; samples += d["samples"]
            for k, v in d["known"].items():
                known.setdefault(k, v)
            for k, v in d["maxima"].items():
                maxima[k] = max(v, maxima.get(k, -1.0))
            findings += d["findings"]; timeouts += d["timeouts"]
        errors = [f for f in findings if f[1][0] == "error"]
        viol = [f for f in findings if f[1][0] == "violation"]
        rc = report(mod, prop, tier, seed, t0, counters, keys, samples, known, maxima, viol, errors, timeouts, bad)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def report(mod, prop, tier, seed, t0, counters, keys, samples, known, maxima, viol, errors, timeouts, bad):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "replays")
    listed = load_known(prop)
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s key=%s %s" % (prop, k, listed.get(k, known[k])))
    replays = []
    for n, (case, r) in enumerate(viol[:5]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (prop, n))
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": prop, "message": r[1], "detail": r[2], "case": jsonable(case)}, f, indent=1, ensure_ascii=False)
        replays.append(path)
        print("  %s: %s" % (prop, r[1]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    need = required(mod, counters)
    missing = [k for k, v in need.items() if counters.get(k, 0) < v]
    cov = {
        "evaluations": int(counters.get("cases", 0)),
        "distinct_nontrivial": len(keys),
        "rule": mod.RULE,
        "samples": [jsonable(s) for s in samples[:3]] or [{"note": "no sample recorded"}],
        "observed": {k: int(v) for k, v in sorted(counters.items())},
        "worst_deviation_over_tolerance": {k: round(v, 6) for k, v in sorted(maxima.items())},
        "known_findings_seen": sorted(known),
        "timeouts": timeouts,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"), "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp%d" % (prop, os.getpid()))
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % prop))
    print("%s %s seed=%s: %d cases, %d distinct non-trivial, %.1f s" % (prop, tier, seed, cov["evaluations"], len(keys), ev["wall_s"]))
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(cov["observed"], indent=1), json.dumps(cov["worst_deviation_over_tolerance"], indent=1))
    if viol:
        return 1
    if errors:
        print("HARNESS-ERROR\n" + errors[0][1][1])
        print(json.dumps(jsonable(errors[0][0]))[:2000])
        return 2
    if bad:
        print("INCONCLUSIVE: %d worker(s) died" % bad)
        return 2
    if timeouts:
        print("INCONCLUSIVE: %d case(s) timed out" % timeouts)
        return 2
    if missing:
        print("INCONCLUSIVE: monitors not reached often enough: " + ", ".join("%s=%d<%d" % (k, counters.get(k, 0), need[k]) for k in missing))
        return 2
    return 0


def replay(mod, path):
    d = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        with quiet():
            if getattr(mod, "prepare", None):
                mod.prepare()
        os.chdir(scratch)
        ctx = Ctx(mod.PROP, scratch, "quick")
        r = run_case(mod, d["case"], ctx, 600)
        print(r)
        print(dict(ctx.counters), ctx.maxima, ctx.known_seen)
        return 1 if r and r[0] == "violation" else (2 if r else 0)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
