"""C23: full runs."""
import copy, json, math, os, sys, re, glob, subprocess, shutil
from decimal import Decimal
import numpy as np
import gen, trace
from oil import load
from core import SRC, REPO

PROP = "C23"
RULE = ("Random models run to the end in an empty directory with random durations, step lengths, save intervals and output options, some failing in the middle, some through the command line in a fresh process; a twin stepped by hand gives the "
        "expected state after every step. Observed: number and length of the steps, the files left, what was drawn into every frame, the frames of the animation matched to the pictures, arrays, summary and text arrays. Durations with decimal "
        "ratios are also run with a stand-in for the step. Non-trivial: a run of at least two steps that changed the fields, distinct by case and options.")
ASSUMPTIONS = ["runs of the IMPES solver (C28 covers the fully implicit option)"]
PLAN = {"quick": {"n": 200, "seconds": 50}, "thorough": {"n": None, "seconds": 600}}
REQUIRED = {"runs": 30, "frames": 30, "animations": 9, "command line": 4, "failed in the middle": 7, "decimal ratios": 60, "text arrays": 12, "without arrays": 3, "drawn fields": 100, "animations of mixed sizes": 2, "runs in a row": 30, "captions": 30, "captions of stopped runs": 2, "whole days": 20}
WORKERS = 8


def prepare():
    L = load()
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    matplotlib.rcParams["savefig.dpi"] = 40
    import imageio, PIL.Image
    import tqdm


def ratio(rng):
    """(total, step, steps) with an exact decimal ratio or a clear remainder"""
    d = rng.choice([1, 2, 3])
    step = Decimal(rng.randrange(1, 400)) / 10 ** d
    n = rng.choice([1, 2, 3, 5, 7, 10, 13, 30, 77, 100, 333, 1000])
    total = step * n
    if rng.random() < 0.3:
        total += step * Decimal(rng.randrange(2, 99)) / 100
    return float(total), float(step), int(Decimal(str(float(total))) / Decimal(str(float(step))))


def whole(rng):
    """(steps, step): steps that end at a whole day, often one where the floating-point product falls short of it"""
    while True:
        d = rng.choice([10, 100, 100, 1000])
        a, k = rng.randrange(1, 5 * d), rng.randrange(2, 150)
        if a * k % d == 0 and (k * (a / d) < a * k // d or rng.random() < 0.003):
            return k, a / d


def case(rng, idx, tier):
    if rng.random() < 0.3:
        c = {"kind": "ratio", "ratios": [ratio(rng) for _ in range(3)], "whole": [whole(rng) for _ in range(2)]}
        return c
    c = gen.base(rng, maxn=40, het=False)
    gen.add_wells(rng, c, nmax=3, bhp_min=True)
    if not c["wells"] or rng.random() < 0.5:
        c["wells"].append(gen.well(rng, c, 9, kinds=("inj", "prod")))
    c["from_config"] = True
    c["kind"] = "run"
    n = rng.choice([1, 1, 2, 3, 4, 5, 6, 9, 12]) if rng.random() > 0.05 else rng.choice([41, 55, 70])
    if rng.random() < 0.04:
        n = 0                     # not even one whole step
    step = gen.rnd(c["dt"][0], 2)
    total = float(Decimal(str(step)) * n)
    if rng.random() < 0.2:
        total = float(Decimal(str(step)) * n + Decimal(str(step)) * Decimal("0.6"))
    if n == 0:
        total = float(Decimal(str(step)) * Decimal("0.6"))
    frames = 14 if rng.random() < 0.06 else 5
    c["nsteps"] = n
    c["dt"] = [step] * n
    s = c["sim"] = {"total_time_days": total, "time_step_days": step, "cg_tolerance": 1e-8, "cg_max_iter": 1500, "max_time_step_attempts": 2}
    if rng.random() < 0.85:
        s["save_interval"] = rng.choice([1, 2, 3, 4, n, max(1, n // 2), n + 1, 50] if n < 40 else [9, 10, 13, 20])
        if frames == 14 and n > 8:
            s["save_interval"] = 1
        s["save_interval"] = max(1, s["save_interval"])
        while n // s["save_interval"] > frames:
            s["save_interval"] += 1
    if rng.random() < 0.6:
        s["animation_fps"] = rng.choice([0, 0, 0.5, 1, 2, 2.5, 4, 5, 10, 20])
    if rng.random() < 0.4:
        s["save_npz"] = rng.choice([True, False])
    if rng.random() < 0.5:
        s["write_full_arrays_txt"] = rng.choice([True, True, False])
    if rng.random() < 0.3:
        s["solver_type"] = "impes"
    c["name"] = rng.choice(["out", "run_step_7", "x_final", "a b", "модель", "case[1]", "p.1", "intermediate"])
    if rng.random() < 0.15 and n:      # gas that shows only after some steps
        c["init"]["sg"] = 0.0; c["init"]["dsg"] = 0.0
        c["wells"] = [dict(gen.well(rng, c, 8, kinds=("inj",)), injected_phase="gas")]
        c["wells"][0]["control"]["value"] = gen.rnd(1e-6 / (n - 0.5) * 2 * gen.pv_cell(c) / step)
        s["save_interval"] = 1 if n > 1 else 2
        s["animation_fps"] = 5
        while n // s["save_interval"] > 5:
            s["save_interval"] += 1
        c["name"] = "late"
    if rng.random() < 0.3 and n and any(w["control"]["type"] == "rate" for w in c["wells"]):
        c["fail_at"] = rng.randrange(n)
    elif rng.random() < 0.25:
        c["cli"] = True
    return c


def framed_(s, n, ok_steps):
    every = s.get("save_interval", 10)
    return [k for k in range(1, ok_steps + 1) if k % every == 0] if every < n else []


def caption(ctx, titles, lo, hi, what):
    """the day in the captions: exact, or whole days"""
    for t in titles:
        num = [float(x) for x in re.findall(r"\d+(?:\.\d+)?(?:e[-+]\d+)?", re.sub(r"Z\s*=\s*\d+", "", t))]
        # whole days: those that have passed
        ctx.check(any(math.floor(lo + 1e-9 * lo) - 1e-6 * lo <= x <= hi + 1e-3 + 1e-6 * hi for x in num), "%s is captioned %r at day %.6g" % (what, t, lo))


class Drawn:
    """what was drawn into which file, seen from matplotlib"""
    def __enter__(self):
        from matplotlib.axes import Axes
        from matplotlib.figure import Figure
        self.log = []
        self.titles = {}
        self.cls = (Axes, Figure); self.old = (Axes.imshow, Figure.savefig)
        me = self

        def imshow(ax, X, *a, **k):
            d = getattr(ax.figure, "_verif", None)
            if d is None:
                d = ax.figure._verif = []
            d.append(np.array(X, dtype=np.float64))
            return me.old[0](ax, X, *a, **k)

        def savefig(fig, fname, *a, **k):
            me.log.append((os.path.basename(str(fname)), getattr(fig, "_verif", [])))
            me.titles[os.path.basename(str(fname))] = [a.get_title() for a in fig.axes if a.get_title()]
            return me.old[1](fig, fname, *a, **k)
        Axes.imshow, Figure.savefig = imshow, savefig
        return self

    def __exit__(self, *a):
        self.cls[0].imshow, self.cls[1].savefig = self.old


def run(case, ctx):
    d = os.path.join(ctx.scratch, "run")
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    os.chdir(d)
    try:
        if case["kind"] == "ratio":
            ratios(case, ctx)
        else:
            full(case, ctx, d)
    finally:
        os.chdir(ctx.scratch)
        shutil.rmtree(d, ignore_errors=True)


def ratios(case, ctx):
    L = load()
    for k, step in case.get("whole", []):
        whole_day(ctx, k, step)
    for total, step, want in case["ratios"]:
        if want > 1000:
            continue
        res = L["Reservoir"]({"dimensions": [2, 1, 1], "grid_size": [10, 10, 5], "porosity": 0.2, "permeability": 50}, L["cpu"])
        fl = L["Fluid"]({}, res, L["cpu"])
        sim = L["Simulator"](res, fl, L["WellManager"]([], res), {"total_time_days": total, "time_step_days": step, "save_interval": 5000}, L["cpu"])
        seen = []
        sim.run_step = lambda *a, **k: seen.append(a[0] if a else k.get("dt")) or True
        sim.run("r")
        ctx.check(len(seen) == want, "%d steps for %r days in steps of %r (expected %d)" % (len(seen), total, step, want))
        ctx.check(all(abs(x - step * 86400) <= 1e-9 * step * 86400 for x in seen), "a step of %r days was run with another length" % step, seen=seen[:3])
        ctx.count("decimal ratios")
        had = {r for r, _, ns in os.walk("results") if "r_final.png" in ns}
        if want < 400:      # again at once: the first run's files stay
            keep = {f: open(f, "rb").read() for r in had for f in [os.path.join(r, x) for x in os.listdir(r)] if os.path.isfile(f)}
            sim.fluid.pressure = sim.fluid.pressure * 1.5
            sim.run("r")
            now = {r for r, _, ns in os.walk("results") if "r_final.png" in ns}
            ctx.check(len(now) == len(had) + 1 and had <= now, "a second run wrote into the directory of the one before it", dirs=sorted(now))
            ctx.check(all(open(f, "rb").read() == b for f, b in keep.items()), "a second run changed files of the one before it")
            ctx.count("runs in a row")


def whole_day(ctx, k, step):
    """a frame at the end of a whole day"""
    L = load()
    res = L["Reservoir"]({"dimensions": [2, 1, 1], "grid_size": [10, 10, 5], "porosity": 0.2, "permeability": 50}, L["cpu"])
    fl = L["Fluid"]({}, res, L["cpu"])
    sim = L["Simulator"](res, fl, L["WellManager"]([], res), {"total_time_days": float(Decimal(str(step)) * (k + 1)), "time_step_days": step, "save_interval": k, "animation_fps": 0}, L["cpu"])
    sim.run_step = lambda *a, **kw: True
    with Drawn() as dr:
        sim.run("w")
    day = float(Decimal(str(step)) * k)
    ctx.check("w_step_%d.png" % k in dr.titles, "no frame after step %d with a save interval of %d" % (k, k), files=sorted(dr.titles))
    caption(ctx, dr.titles["w_step_%d.png" % k], day, day, "the frame after %d steps of %r days" % (k, step))
    ctx.count("whole days")


def one(ctx, pattern, what):
    f = [os.path.join(r, n) for r, _, ns in os.walk("results") for n in ns if n == pattern]
    ctx.check(len(f) == 1, "%d files named %s in the results (%s)" % (len(f), pattern, what), files=[n for _, _, ns in os.walk("results") for n in ns])
    return f[0]


def full(case, ctx, d):
    L = load()
    s, name, n = case["sim"], case["name"], case["nsteps"]
    # twin stepped by hand
    twin = trace.make(case, trace.configs(case, ctx.scratch))
    fields = lambda sim: {k: getattr(sim.fluid, a).detach().cpu().numpy().copy() for k, a in (("pressure", "pressure"), ("sw", "s_w"), ("sg", "s_g"), ("so", "s_o"))}
    bal = lambda sim: {p: dict(sim.mass_balance[p]) for p in ("water", "oil", "gas")}
    states = [(fields(twin), bal(twin))]
    ok_steps = 0

    def attempt(sim, k, call):
        if case.get("fail_at") == k:
            w = [w for w in sim.well_manager.get_wells() if w.control_type == "rate"][0]
            keep = w.control_value
            w.control_value = float("nan")
            try:
                return call()
            finally:
                w.control_value = keep
        return call()
    for k in range(n):
        if not attempt(twin, k, lambda: twin.run_step(dt=s["time_step_days"] * 86400)):
            break
        ok_steps += 1
        states.append((fields(twin), bal(twin)))
    fin, mb = states[-1]
    drawn = None
    if case.get("cli"):
        cfg = trace.configs(case, ctx.scratch)
        conf = {"description": "x", "reservoir": cfg["reservoir"], "wells": cfg["wells"], "fluid": cfg["fluid"], "simulation": cfg["sim"], "output_filename": name}
        with open("conf.json", "w") as f:
            json.dump(conf, f)
        env = dict(os.environ, PYTHONPATH=SRC)
        r = subprocess.run([sys.executable, os.path.join(SRC, "main.py"), "--config", "conf.json"], capture_output=True, text=True, env=env, timeout=100)
        ctx.check(r.returncode == 0, "the command line failed: %s" % r.stderr[-400:])
        ctx.count("command line")
    else:
        sim = trace.make(case, trace.configs(case, ctx.scratch))
        calls = []
        orig = sim.run_step

        def watched(*a, **k):
            i = len(calls)
            r = attempt(sim, i, lambda: orig(*a, **k))
            calls.append((a[0] if a else k.get("dt"), bool(r)))
            return r
        sim.run_step = watched
        with Drawn() as dr:
            sim.run(name)
        drawn = dict(dr.log)
        days = s["time_step_days"]
        for k in framed_(s, n, ok_steps):
            caption(ctx, dr.titles.get("%s_step_%d.png" % (name, k), []), k * days, k * days, "frame %d" % k)
            ctx.count("captions")
        top = s["total_time_days"] if ok_steps == n else ok_steps * days
        caption(ctx, dr.titles.get(name + "_final.png", []), ok_steps * days, top, "the final picture (%d of %d steps)" % (ok_steps, n))
        if top < 0.5 * s["total_time_days"] and s["total_time_days"] - top > 2:
            ctx.count("captions of stopped runs")
        ctx.check(len(dr.log) == len(drawn), "a picture was written twice", names=[a for a, _ in dr.log])
        want = min(n, ok_steps + 1)
        ctx.check(len(calls) == want, "%d steps were attempted; expected %d (%d of them succeed)" % (len(calls), want, ok_steps), total=s["total_time_days"], step=s["time_step_days"])
        ctx.check(all(abs(c[0] - s["time_step_days"] * 86400) <= 1e-9 * c[0] for c in calls), "a step was run with another length")
        ctx.check([c[1] for c in calls] == [True] * ok_steps + [False] * (want - ok_steps), "steps succeed or fail unlike the twin's")
    if "fail_at" in case and ok_steps < n:
        ctx.count("failed in the middle")
    ctx.count("runs")
    if n == 0:
        ctx.count("runs of no step")
    # the files
    every = s.get("save_interval", 10)
    framed = framed_(s, n, ok_steps)
    tree = sorted(os.path.relpath(os.path.join(r, f), "results") for r, _, ns in os.walk("results") for f in ns)
    steps = sorted(int(m.group(1)) for f in tree for m in [re.search(re.escape(name) + r"_step_(\d+)\.png$", os.path.basename(f))] if m)
    ctx.check(steps == framed, "intermediate frames at steps %s; expected %s (interval %d, %d of %d steps done)" % (steps, framed, every, ok_steps, n), files=tree)
    ctx.count("frames", len(framed))
    final = one(ctx, name + "_final.png", "final picture")
    if s.get("save_npz", True):
        z = np.load(one(ctx, name + ".npz", "arrays"))
        for k, a in fin.items():
            ctx.check(z[k].shape == a.shape and np.array_equal(z[k], a), "the saved %s differs from the final field" % k, worst=float(np.abs(z[k].astype(float) - a).max()) if z[k].shape == a.shape else None)
    else:
        ctx.check(not [f for f in tree if f.endswith(".npz")], "arrays were written though save_npz is false")
        ctx.count("without arrays")
    summary(case, ctx, open(one(ctx, name + ".txt", "summary"), encoding="utf-8").read(), fin, mb)
    # what was drawn
    if drawn is not None:
        for key, (fl, _) in [("%s_step_%d.png" % (name, k), states[k]) for k in framed] + [(name + "_final.png", states[-1])]:
            arrs = drawn.get(key)
            if not arrs:
                ctx.count("pictures without a drawing seen"); continue
            gas = bool((fl["sg"] > 1e-6).any())
            ctx.check(len(arrs) == (3 if gas else 2), "%s shows %d fields (%s gas in the model)" % (key, len(arrs), "with" if gas else "no"))
            for got, full_, what, sc, tol in zip(arrs, (fl["pressure"], fl["sw"], fl["sg"]), ("pressure", "water saturation", "gas saturation"), (1e-6, 1.0, 1.0), (1e-5 + 1e-12 * float(np.abs(fl["pressure"]).max()), 1e-6, 1e-6)):
                sl = [full_[:, :, q].astype(float) * sc for q in range(full_.shape[2])]
                near = [min([float(np.abs(got - b).max()) for b in (a, a.T) if got.shape == b.shape] or [np.inf]) for a in sl]      # C29 judges the orientation
                ctx.check(min(near) <= tol, "%s: the %s drawn is no layer of the field at that step (off by %.3g)" % (key, what, min(near)))
                ctx.count("drawn fields")
    gif = [f for f in tree if f.endswith(".gif")]
    if every < n and s.get("animation_fps", 5) > 0:
        ctx.check(len(gif) == 1 and os.path.basename(gif[0]) == name + ".gif", "animation files %s" % gif)
        pics = [one(ctx, "%s_step_%d.png" % (name, k), "frame") for k in framed] + [final]
        animation(ctx, os.path.join("results", gif[0]), pics, s.get("animation_fps", 5))
    else:
        ctx.check(not gif, "an animation was written though none was asked for or there are no frames", files=gif)
    if ok_steps > 1 and not np.array_equal(fin["sw"], states[0][0]["sw"]):
        ctx.nontrivial(case["perm"], s, case.get("fail_at"), case.get("cli"))
    ctx.sample({"steps": ok_steps, "of": n, "options": s, "files": tree})


def placed(f, p):
    """mean difference of a frame and a picture shown whole in it (top left or centred, the rest plain)"""
    h, w = p.shape[:2]
    best = 1e9
    for y, x in {(0, 0), ((f.shape[0] - h) // 2, (f.shape[1] - w) // 2)}:
        e = np.abs(f[y:y + h, x:x + w] - p).sum()
        rest = np.ones(f.shape[:2], bool); rest[y:y + h, x:x + w] = False
        if rest.any():
            r = f[rest]
            e += np.abs(r - np.median(r, axis=0)).sum()
        best = min(best, float(e) / f.size)
    return best


def animation(ctx, path, pics, fps):
    from PIL import Image, ImageSequence
    g = Image.open(path)
    frames = []
    for f in ImageSequence.Iterator(g):      # the writer stores equal pictures in a row once, shown longer
        ctx.check("duration" in f.info and f.info["duration"] > 0, "a frame of the animation has no duration")
        m = max(1, int(round(f.info["duration"] * fps / 1000.0)))
        ctx.check(abs(f.info["duration"] - m * 1000.0 / fps) <= 10.0 * m, "a frame of the animation is shown for %s ms at %s pictures per second" % (f.info["duration"], fps))
        frames += [np.asarray(f.convert("RGB"), dtype=np.float32)] * m
    P = [np.asarray(Image.open(p).convert("RGB"), dtype=np.float32) for p in pics]
    ctx.check(len(frames) == len(P), "the animation has %d frames for %d intermediate pictures and the final one" % (len(frames), len(P) - 1))
    big = [max(p.shape[a] for p in P) for a in (0, 1)]
    ctx.check(all(list(f.shape[:2]) == big for f in frames), "the animation measures %s; its pictures go up to %s" % (frames[0].shape[:2], big))
    if len({p.shape for p in P}) > 1:
        ctx.count("animations of mixed sizes")
    for k, f in enumerate(frames):
        dist = [placed(f, p) for p in P]
        ctx.check(dist[k] <= 1.02 * min(dist) + 0.02, "frame %d of the animation is picture %d, not picture %d" % (k, int(np.argmin(dist)), k), distance=dist)
    ctx.count("long animations", len(P) > 9)
    ctx.count("animations"); ctx.count("animation frames", len(frames))


def summary(case, ctx, text, fin, mb):
    num = r"([-+0-9.einfa]+)"
    for label, a, sc, tol in (("Pressure MPa", fin["pressure"], 1e-6, 0.0051), ("Sw", fin["sw"], 1, 5.1e-5), ("Sg", fin["sg"], 1, 5.1e-5), ("So", fin["so"], 1, 5.1e-5)):
        m = re.search(r"^%s:\s*min=%s,\s*max=%s,\s*mean=%s\s*$" % (label, num, num, num), text, re.M)
        ctx.check(m, "the summary has no line for %s" % label)
        a = a.astype(np.float64) * sc
        for what, g, w in zip(("min", "max", "mean"), m.groups(), (a.min(), a.max(), a.mean())):
            ctx.check(abs(float(g) - w) <= tol + 1e-6 * abs(w), "summary: %s %s is %s, the final field has %.6g" % (label, what, g, w))
    tot = 0.0; big = 0.0
    for p in ("water", "gas", "oil"):
        m = re.search(r"^%s:\s*in=%s,\s*out=%s,\s*net=%s\s*$" % (p, num, num, num), text, re.M)
        ctx.check(m, "the summary has no balance line for %s" % p)
        i, o = float(mb[p]["in"]), float(mb[p]["out"])
        tot += i - o; big = max(big, abs(i), abs(o))
        for what, g, w in zip(("in", "out", "net"), m.groups(), (i, o, i - o)):
            ctx.check(abs(float(g) - w) <= 1e-6 * abs(w) + 1e-12 * max(abs(i), abs(o)), "summary: %s %s is %s, the balance is %.9g" % (p, what, g, w))
    m = re.search(r"^total net=%s\s*$" % num, text, re.M)
    ctx.check(m and abs(float(m.group(1)) - tot) <= 1e-6 * abs(tot) + 1e-12 * big, "summary: total net %s, balances give %.9g" % (m and m.group(1), tot))
    parts = re.split(r"^Final (Pressure \(MPa\)|Water Saturation|Gas Saturation|Oil Saturation):\s*$", text, flags=re.M)
    if case["sim"].get("write_full_arrays_txt", False):
        ctx.check(len(parts) == 9, "text arrays were asked for; %d of 4 found" % (len(parts) // 2))
        for label, body in zip(parts[1::2], parts[2::2]):
            key, sc, tol = {"P": ("pressure", 1e-6, 0.0051), "W": ("sw", 1, 5.1e-5), "G": ("sg", 1, 5.1e-5), "O": ("so", 1, 5.1e-5)}[label[0]]
            got = np.array([float(x) for x in re.findall(r"[-+]?[0-9]*\.?[0-9]+(?:e[-+]?[0-9]+)?", body)])
            a = fin[key].astype(np.float64).ravel() * sc
            ctx.check(got.size == a.size and np.abs(got - a).max() <= tol + 1e-6 * np.abs(a).max(), "the text array %s differs from the final field" % label)
        ctx.count("text arrays")
    else:
        ctx.check(len(parts) == 1, "text arrays were written though not asked for")
