"""C32: the component log."""
import copy, glob, os, random, re, time
import gen, hist, trace
from oil import load

PROP = "C32"
RULE = ("Random table models with wells of every kind and histories with failing steps run twice, with and without the component log (switched on by the configuration or the environment; in the default place, a bare file name, missing "
        "directories, or a name already taken by another simulator of the same second): digests of every observable agree after every step, and the lines added in a step are read back: the amounts of the well lines must sum to the change of "
        "the component balance, the summary line must state the balance. Non-trivial: an accepted step with a well line, distinct by case and step.")
ASSUMPTIONS = ["the log prints seven digits: sums are compared to 2e-6 of the gross amounts", "one simulator writes to a configured path at a time"]
PLAN = {"quick": {"n": 2500, "seconds": 40}, "thorough": {"n": None, "seconds": 400}}
REQUIRED = {"steps compared": 1000, "summaries": 800, "well lines": 1000, "in lines": 100, "failed steps": 50, "bare names": 20, "default places": 50, "by environment": 30, "two in a second": 30, "no table": 30}
NUM = r"([-+0-9.einfa]+)"


def prepare():
    load()


def case(rng, idx, tier):
    c = gen.base(rng, maxn=60, pvt=rng.random() < 0.9)
    gen.add_wells(rng, c, nmax=5, surface=True, limits=True, bhp_min=True)
    hist.history(rng, c)
    c["place"] = rng.choice(["default", "default", "bare", "file", "dirs", "taken"])
    c["by"] = rng.choice(["config", "config", "environment"])
    return c


def long_():
    """A long history: the log keeps all of it."""
    rng = random.Random(5)
    c = gen.base(rng, maxn=2, pvt=True)
    c["dims"] = [2, 1, 1]
    c["wells"] = [dict(gen.well(rng, c, 0, kinds=("prod",)), name="P%d" % i, control={"type": "bhp", "value": gen.rnd(0.999 * c["init"]["P"])}, coordinates=[0, 0, 0]) for i in (1, 2, 3)]
    c["steps"] = [{"dt": 1e-4, "how": "ok"}] * 900
    c["dt"] = [1e-4]
    c["place"], c["by"] = "file", "config"
    return c


DIRECTED = [long_()]


def run(case, ctx):
    L = load()
    cfg = trace.configs(case, ctx.scratch)
    here = os.getcwd()
    work = os.path.join(ctx.scratch, "log")
    os.makedirs(work, exist_ok=True)
    os.chdir(work)
    old = os.environ.pop("OIL_DEBUG_COMPONENT", None)
    try:
        plain = trace.make(case, copy.deepcopy(cfg))
        sim, path, other = logged(case, ctx, cfg, work)
        compare(case, ctx, plain, sim, path, other)
    finally:
        os.environ.pop("OIL_DEBUG_COMPONENT", None)
        if old is not None:
            os.environ["OIL_DEBUG_COMPONENT"] = old
        os.chdir(here)
        for d, _, files in os.walk(work):
            for f in files:
                os.remove(os.path.join(d, f))


def logs(work):
    return {os.path.join(d, f): open(os.path.join(d, f)).read() for d, _, files in os.walk(work) for f in files}


def logged(case, ctx, cfg, work):
    c = copy.deepcopy(cfg)
    if case["by"] == "config":
        c["sim"]["debug_component_balance"] = True
    else:
        os.environ["OIL_DEBUG_COMPONENT"] = "1"
        ctx.count("by environment")
    want = {"bare": "component.log", "file": os.path.join(work, "a.log"), "dirs": os.path.join(work, "deep", "er", "b.log"), "taken": os.path.join(work, "a.log")}.get(case["place"])
    if want:
        c["sim"]["debug_log_path"] = want
    if case["place"] == "taken":
        with open(want, "w") as f:
            f.write("SUMMARY OIL of an earlier run\n")
    if case["place"] == "bare":
        ctx.count("bare names")
    before = set(logs(work))
    sim = trace.make(case, c)
    other = None
    if not want:
        ctx.count("default places")
        made = set(logs(work)) - before
        ctx.check(len(made) == 1, "a simulator with the component log on made %d files" % len(made), files=sorted(made))
        path = made.pop()
        other = trace.make(case, copy.deepcopy(c))
        made = set(logs(work)) - before - {path}
        ctx.check(len(made) == 1, "two simulators with the component log on share one log", files=sorted(logs(work)))
        ctx.count("two in a second")
    else:
        path = os.path.abspath(want)
        ctx.check(os.path.exists(path), "the component log is not at %s" % want, files=sorted(logs(work)))
        ctx.check("SUMMARY" not in logs(work)[path], "the log of a new simulator starts with lines of an earlier one")
    os.environ.pop("OIL_DEBUG_COMPONENT", None)
    return sim, path, other


def bal(sim):
    return {(p, s): float(sim.component_balance[p][s]) for p in ("oil", "gas") for s in ("in", "out", "accum")}


def compare(case, ctx, plain, sim, path, other):
    names = {w["name"]: tuple(w["coordinates"]) for w in case["wells"]}
    table = bool(case.get("pvt"))
    for n, s in enumerate(case["steps"]):
        a = bool(hist.step(plain, s)); x = trace.observe(plain, a)
        size, b0 = os.path.getsize(path), bal(sim)
        b = bool(hist.step(sim, s)); y = trace.observe(sim, b)
        if other is not None and n == 0:
            mid = os.path.getsize(path)
            hist.step(other, s)
            ctx.check(os.path.getsize(path) == mid, "a step of another simulator wrote to this one's component log")
        d = trace.difference([x], [y])
        ctx.check(d is None, "step %d: %s differs with the component log on" % (n, d and d[1]))
        ctx.count("steps compared")
        with open(path) as f:
            f.seek(size)
            lines = [l for l in f.read().split("\n") if l.strip()]
        b1 = bal(sim)
        well = [l for l in lines if l.startswith("WELL_")]
        summ = [l for l in lines if l.startswith("SUMMARY")]
        if not b:
            ctx.count("failed steps")
            ctx.check(not summ and not well, "step %d failed but is in the component log" % n, lines=lines)
            continue
        ctx.check(len(summ) == 1, "step %d has %d summaries in the component log" % (n, len(summ)), lines=lines)
        ctx.count("summaries")
        if not all(v == v and abs(v) < 1e300 for v in b1.values()):
            ctx.count("balance not finite"); return
        for ph in ("oil", "gas"):
            m = re.search(ph.upper() + r" in=%s out=%s accum=%s" % (NUM, NUM, NUM), summ[0])
            ctx.check(m, "step %d: no %s in the summary of the component log" % (n, ph), line=summ[0])
            for side, v in zip(("in", "out", "accum"), m.groups()):
                w = b1[(ph, side)]
                ctx.check(abs(float(v) - w) <= 1e-6 * abs(w), "step %d: the log says %s %s is %s; the balance is %.9g" % (n, ph, side, v, w), line=summ[0])
        tot = {(p, s): 0.0 for p in ("oil", "gas") for s in ("in", "out")}
        for l in well:
            m = re.search(r"name=(.*?) mode=\S+ cell=\((\d+),(\d+),(\d+)\)", l)
            ctx.check(m and names.get(m.group(1)) == tuple(map(int, m.groups()[1:])), "step %d: a line of the component log names a well and cell that are not in the model" % n, line=l, wells=names)
            for p, side, v in re.findall(r"(oil|gas)_(in|out)\+= %s" % NUM, l):
                tot[(p, side)] += float(v)
                if side == "in":
                    ctx.count("in lines")
            ctx.count("well lines")
        if not table:
            ctx.count("no table")
        for k in tot:
            got, want = tot[k], b1[k] - b0[k]
            dev = abs(got - want) / (2e-6 * abs(got) + 1e-12 * abs(b1[k]) + 1e-300)
            ctx.worst("sum", dev)
            ctx.check(dev <= 1, "step %d: the lines of the component log add up to %.9g m3 %s %s; the balance changed by %.9g" % (n, got, k[0], k[1], want), lines=well)
        if well:
            ctx.nontrivial(case["perm"], n)
            ctx.sample({"lines": lines[:3]})
