"""C22: determinism and isolation."""
import copy, json, os, sys, subprocess, random
import numpy as np
import gen, trace
from oil import load

PROP = "C22"
RULE = ("Two or three random systems (conjugate gradients, multigrid, fully implicit; tables, wells whose controls the driver changes) are each run alone, then interleaved in a random order in one process with foreign objects built in between and "
        "the global random generators disturbed, then alone again, some from shared configuration dictionaries, and in a fresh process with another hash seed; exact digests of every field, balance, well and rock quantity are compared after every "
        "step, and the configuration dictionaries with deep copies. Non-trivial: a step with flow, distinct by system, schedule and step.")
ASSUMPTIONS = ["same machine, same number of threads, CPU"]
PLAN = {"quick": {"n": 200, "seconds": 45}, "thorough": {"n": None, "seconds": 600}}
REQUIRED = {"steps compared": 700, "interleaved steps": 200, "multigrid": 80, "fully implicit": 20, "same shape": 30, "shared configuration": 40, "fresh process": 30, "configurations compared": 500, "options left out": 40}


def prepare():
    load()


def system(rng, like=None):
    c = gen.base(rng, maxn=60)
    if like is not None:
        c["dims"] = list(like["dims"])
        if rng.random() < 0.5:      # the same model but for one thing
            c = copy.deepcopy(like)
            what = rng.choice(["perm", "dt", "nothing", "wells", "P", "fluid"])
            if what == "perm":
                c["perm"] *= 3
            elif what == "dt":
                c["dt"] = [2 * d for d in c["dt"]]
            elif what == "P":
                c["init"]["P"] += 1
            elif what == "fluid":
                c["fluid"]["mu_oil"] *= 2
            elif what == "wells":
                for w in c["wells"]:
                    if w["control"]["type"] == "rate":
                        w["control"]["value"] *= 1.5
            return c
    elif rng.random() < 0.15:
        c["dims"] = [10, 10, 1]         # the default grid, not written out
        c["omit"] = [["reservoir", "dimensions"]] + [["reservoir", k] for k in ("grid_size", "porosity", "permeability", "k_vertical_fraction") if rng.random() < 0.4] + [["fluid", k] for k in sorted(c["fluid"]) if rng.random() < 0.3]
    gen.add_wells(rng, c, nmax=3, surface=True, limits=True, bhp_min=True)
    c["dt"] = [gen.rnd(c["dt"][0] * rng.choice([0.3, 1, 2])) for _ in range(rng.choice([1, 2, 3, 4]))]
    c["sim"] = {"cg_tolerance": rng.choice([1e-6, 1e-10]), "cg_max_iter": 2000}
    r = rng.random()
    if r < 0.35:
        c["sim"]["pressure_solver"] = "amg"
        if rng.random() < 0.6:
            c["sim"]["amg"] = {"tol": rng.choice([1e-6, 1e-10]), "theta": rng.choice([0.1, 0.25, 0.5]), "coarsest_size": rng.choice([2, 5, 20]), "max_cycles": rng.choice([5, 100])}
    elif r < 0.45:
        c["sim"]["solver_type"] = "fully_implicit"
        c["sim"]["newton_max_iter"] = 4; c["sim"]["max_time_step_attempts"] = 2
        c["dims"] = [min(d, 3) for d in c["dims"]]
        for w in c["wells"]:
            w["coordinates"] = [min(a, d - 1) for a, d in zip(w["coordinates"], c["dims"])]
    if rng.random() < 0.4:
        c["scales"] = [gen.rnd(rng.uniform(0.7, 1.3)) for _ in range(3)]
    if rng.random() < 0.25:
        c["from_config"] = True
    return c


def case(rng, idx, tier):
    a = system(rng)
    S = [a]
    for _ in range(rng.choice([1, 1, 2])):
        S.append(system(rng, like=a if rng.random() < 0.7 else None))
    order = [n for n, c in enumerate(S) for _ in c["dt"]]
    rng.shuffle(order)
    return {"systems": S, "order": order, "late": rng.random() < 0.3, "child": rng.random() < 0.35, "hashseed": rng.choice([1, 7, 12345])}


def disturb(torch, k):
    torch.manual_seed(k); np.random.seed(k % 1000); random.seed(k)
    torch.rand(3); np.random.rand(2)


def run(case, ctx):
    L = load(); torch = L["torch"]
    S = case["systems"]
    cfgs = [trace.configs(c, ctx.scratch) for c in S]
    keep = copy.deepcopy(cfgs)

    def unchanged(when):
        for n, (a, b) in enumerate(zip(cfgs, keep)):
            for k in b:
                ctx.check(a[k] == b[k] and json.dumps(a[k]) == json.dumps(b[k]), "%s modified the %s configuration dictionary" % (when, k), now=a[k], given=b[k])
                ctx.count("configurations compared")
    disturb(torch, 1)
    alone = []
    for n, c in enumerate(S):
        alone.append(trace.trace(c, cfgs[n]))
        kind = c["sim"].get("pressure_solver") or c["sim"].get("solver_type", "")
        if kind == "amg":
            ctx.count("multigrid", len(c["dt"]))
        if kind == "fully_implicit":
            ctx.count("fully implicit", len(c["dt"]))
        for k in range(1, len(alone[n])):
            if alone[n][k]["pressure"] != alone[n][k - 1]["pressure"]:
                ctx.nontrivial(c["perm"], case["order"], n, k)
    ctx.count("options left out", sum(len(c.get("omit", [])) for c in S))
    unchanged("running")

    def compare(n, tr, how):
        d = trace.difference(alone[n], tr)
        ctx.check(d is None, "system %d %s: %s differs after step %s from the run alone" % (n, how, d and d[1], d and d[0]), solver=S[n]["sim"])
        ctx.count("steps compared", len(tr) - 1)

    # interleaved, with the same dictionaries
    sims = {}
    got = [[] for _ in S]
    nxt = [0] * len(S)

    def start(n):
        sims[n] = trace.make(S[n], cfgs[n])
        got[n].append(trace.observe(sims[n], True))
    if not case["late"]:
        for n in range(len(S)):
            start(n)
    for k, n in enumerate(case["order"]):
        if n not in sims:
            start(n)
        disturb(torch, k + 17)
        got[n].append(trace.advance(sims[n], S[n], nxt[n]))
        nxt[n] += 1
        ctx.count("interleaved steps")
        if k % 2:
            trace.make(S[(n + 1) % len(S)], copy.deepcopy(keep[(n + 1) % len(S)]))      # an instance nobody uses
    for n in range(len(S)):
        if n not in sims:
            start(n)
        compare(n, got[n], "stepped alternately with %d other(s)" % (len(S) - 1))
    if any(c["dims"] == S[0]["dims"] for c in S[1:]):
        ctx.count("same shape")
    unchanged("stepping several simulators")
    # two instances from the very same dictionaries, in step
    a, b = trace.make(S[0], cfgs[0]), trace.make(S[0], cfgs[0])
    ta, tb = [trace.observe(a, True)], [trace.observe(b, True)]
    for n in range(len(S[0]["dt"])):
        ta.append(trace.advance(a, S[0], n)); tb.append(trace.advance(b, S[0], n))
    compare(0, ta, "with a twin from the same dictionaries"); compare(0, tb, "as a twin from the same dictionaries")
    ctx.count("shared configuration")
    unchanged("running twins")
    # again alone, after everything else
    for n, c in enumerate(S):
        compare(n, trace.trace(c, copy.deepcopy(keep[n])), "repeated")
    if case["child"]:
        env = dict(os.environ, PYTHONHASHSEED=str(case["hashseed"]))
        r = subprocess.run([sys.executable, os.path.abspath(trace.__file__)], input=json.dumps(S), capture_output=True, text=True, env=env, timeout=100)
        if r.returncode:
            raise RuntimeError("child: " + r.stderr[-1500:])
        for n, tr in enumerate(json.loads(r.stdout)):
            compare(n, tr, "in a fresh process")
            ctx.count("fresh process")
    ctx.sample({"order": case["order"], "steps": [len(c["dt"]) for c in S]})
