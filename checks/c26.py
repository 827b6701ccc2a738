"""C26: generated PVT tables."""
import json, os, subprocess, sys
import numpy as np
import gen
from oil import load, f64
from core import SRC

PROP = "C26"
RULE = ("Random generator parameters (tiny to long tables, bubble point below, inside and above the range, extreme oil and gas gravities, very low and very high pressures), through the library, main() in process with command-line arguments and a "
        "fresh process; every column is checked against the physical conditions, the file is read back, loaded by the table reader and by the fluid model, and evaluated at and between its nodes. Non-trivial: a generated table, distinct by "
        "parameters and path.")
ASSUMPTIONS = ["admissible: at least two points, 0 < minimum < maximum pressure, positive bubble point"]
PLAN = {"quick": {"n": 7000, "seconds": 40}, "thorough": {"n": None, "seconds": 300}}
REQUIRED = {"tables": 800, "columns": 6000, "command line": 300, "fresh process": 10, "bubble point inside": 400, "bubble point below": 150, "bubble point above": 150, "evaluated": 800, "fluid loaded": 300}

COLS = ["Bo", "Bw", "Bg", "mu_o_cP", "mu_w_cP", "mu_g_cP", "Rs_m3m3", "Rv_m3m3"]
KEYS = {"Bo": "Bo", "Bw": "Bw", "Bg": "Bg", "mu_o_cP": "mu_o", "mu_w_cP": "mu_w", "mu_g_cP": "mu_g", "Rs_m3m3": "Rs", "Rv_m3m3": "Rv"}
OPT = {"p_min_mpa": "--p-min", "p_max_mpa": "--p-max", "n_points": "--n", "temperature_c": "--temp", "oil_api": "--api", "gas_sg": "--gas-sg", "salinity_gpl": "--salinity", "bubble_point_mpa": "--pb"}
DEFAULTS = {"p_min_mpa": 5.0, "p_max_mpa": 60.0, "n_points": 50, "temperature_c": 90.0, "oil_api": 35.0, "gas_sg": 0.7, "salinity_gpl": 100.0, "bubble_point_mpa": 20.0}


def prepare():
    load()
    import simulator.pvt_generator


def case(rng, idx, tier):
    lo = rng.choice([0.01, 0.1, 1.0, 5.0, 20.0, gen.logu(rng, 0.01, 50)])
    hi = gen.rnd(lo + rng.choice([0.01, 1.0, 10.0, 55.0, 200.0]) * rng.uniform(0.5, 1.5))
    p = {"p_min_mpa": lo, "p_max_mpa": hi, "n_points": rng.choice([2, 2, 3, 4, 5, 10, 20, 50, 51, 100, 333]), "temperature_c": gen.rnd(rng.uniform(10, 180), 4), "oil_api": gen.rnd(rng.uniform(5, 70), 4), "gas_sg": gen.rnd(rng.uniform(0.5, 1.6), 4),
         "salinity_gpl": gen.rnd(rng.uniform(0, 350), 4)}
    r = rng.random()
    p["bubble_point_mpa"] = gen.rnd(rng.uniform(lo, hi)) if r < 0.5 else gen.rnd(lo * rng.uniform(0.2, 1)) if r < 0.7 else gen.rnd(hi * rng.uniform(1, 3)) if r < 0.9 else rng.choice([lo, hi])
    for k in list(p):      # omitted ones take their defaults
        if rng.random() < 0.1 and not (k == "p_min_mpa" and hi <= DEFAULTS[k]) and not (k == "p_max_mpa" and lo >= DEFAULTS[k]):
            del p[k]
    if p.get("p_min_mpa", 5.0) >= p.get("p_max_mpa", 60.0):
        p["p_min_mpa"], p["p_max_mpa"] = lo, hi
    return {"params": p, "via": rng.choice(["lib", "lib", "main", "process" if rng.random() < 0.08 else "main"]), "dir": rng.choice(["", "a", "a/b", "bare"]), "q": [rng.random() for _ in range(12)]}


def run(case, ctx):
    L = load()
    from simulator import pvt_generator as G
    from simulator.pvt import PVTTable
    p = case["params"]; full = dict(DEFAULTS, **p)
    d = G.generate_black_oil_pvt(G.PVTParams(**p))
    bare = case["dir"] == "bare" and case["via"] != "lib"      # a file name alone: the current directory
    path = os.path.join(ctx.scratch, "t", "" if bare else case["dir"], "pvt.json")
    here = os.path.dirname(path)
    if bare:
        os.makedirs(here, exist_ok=True)
    if case["via"] == "lib":
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump(d, f)
    else:
        if os.path.exists(path):
            os.unlink(path)
        args = ["--out", "pvt.json" if bare else path]
        for k, v in p.items():
            args += [OPT[k], str(v)]
        if case["via"] == "process":
            env = dict(os.environ, PYTHONPATH=SRC)
            r = subprocess.run([sys.executable, os.path.join(SRC, "simulator", "pvt_generator.py")] + args, capture_output=True, text=True, env=env, timeout=60, cwd=here if bare else None)
            ctx.check(r.returncode == 0, "the command line failed: %s" % r.stderr[-300:], args=args)
            ctx.count("fresh process")
        else:
            keep, was = sys.argv, os.getcwd()
            sys.argv = ["pvt_generator.py"] + args
            if bare:
                os.chdir(here)
            try:
                G.main()
            finally:
                sys.argv = keep
                os.chdir(was)
        if bare:
            ctx.count("bare file name")
        ctx.count("command line")
        ctx.check(os.path.exists(path), "the command line wrote no file")
    t = json.load(open(path, encoding="utf-8"))
    for k in ["pressure_MPa"] + COLS:
        ctx.check(k in t and k in d, "the table has no column %s" % k)
        ctx.check(t[k] == d[k], "the written %s differs from the generated one" % k, args=p)
    n = full["n_points"]
    P = np.array(d["pressure_MPa"], float)
    ctx.check(len(P) == n, "%d pressures in a table of %d" % (len(P), n))
    ctx.check((np.diff(P) > 0).all(), "pressures do not ascend")
    ctx.check(abs(P[0] - full["p_min_mpa"]) <= 1e-9 * P[0] and abs(P[-1] - full["p_max_mpa"]) <= 1e-9 * P[-1], "pressures run from %r to %r" % (P[0], P[-1]))
    pb = full["bubble_point_mpa"]
    ctx.count("bubble point inside" if P[0] < pb < P[-1] else "bubble point below" if pb <= P[0] else "bubble point above")
    for k in COLS:
        a = np.array(d[k], float)
        ctx.check(a.shape == (n,) and np.isfinite(a).all(), "column %s has %s entries or invalid numbers" % (k, a.shape))
        eps = 1e-12 * np.abs(a).max()
        if k[0] == "B":
            ctx.check((a > 0).all(), "%s is not positive" % k)
            ctx.check((np.diff(a) <= eps).all(), "%s increases with pressure" % k, at=float(P[int(np.diff(a).argmax())]))
        elif k[:2] == "mu":
            ctx.check((a > 0).all(), "%s is not positive" % k)
            if k == "mu_o_cP":
                ctx.check((np.diff(a[P <= pb]) <= eps).all(), "oil viscosity rises with pressure below the bubble point", pb=pb)
                ctx.check((np.diff(a[P >= pb]) >= -eps).all(), "oil viscosity falls with pressure above the bubble point", pb=pb)
            else:
                ctx.check((np.diff(a) >= -eps).all(), "%s falls with pressure" % k)
        elif k[:2] == "Rs":
            ctx.check((a >= 0).all() and (np.diff(a) >= -eps).all(), "dissolved gas decreases with pressure or is negative")
            hi = a[P >= pb]
            ctx.check(hi.size == 0 or np.ptp(hi) <= eps, "dissolved gas changes above the bubble point", pb=pb)
        else:
            ctx.check((a >= 0).all(), "vaporised oil is negative")
        ctx.count("columns")
    ctx.count("tables")
    # the oil curves meet at the bubble point
    near = G.generate_black_oil_pvt(G.PVTParams(**dict(p, p_min_mpa=pb * (1 - 1e-7), p_max_mpa=pb * (1 + 1e-7), n_points=5)))
    for k in ("Bo", "Rs_m3m3", "mu_o_cP"):
        a = np.array(near[k], float)
        ctx.check(np.ptp(a) <= 1e-5 * np.abs(a).max(), "%s jumps from %.9g to %.9g at the bubble point" % (k, a[0], a[-1]), pb=pb)
    ctx.check(G.generate_black_oil_pvt(G.PVTParams(**p)) == d, "the same parameters give another table the second time")
    T = PVTTable(path)
    q = np.concatenate([P, [P[0] + x * (P[-1] - P[0]) for x in case["q"]], [P[0] * 0.5, P[-1] * 1.5]])
    v = T.eval(q)
    for k in COLS:
        a = np.array(d[k], float)
        want = np.interp(q, P, a)
        dev = np.abs(np.asarray(v[KEYS[k]], float) - want).max() / (1e-9 * np.abs(a).max() + 1e-300)
        ctx.check(dev <= 1, "the loaded table gives another %s" % k)
    ctx.count("evaluated")
    if case["q"][0] < 0.3:
        res = L["Reservoir"]({"dimensions": [2, 1, 1], "grid_size": [10, 10, 5]}, L["cpu"])
        at = full["p_min_mpa"] + case["q"][1] * (full["p_max_mpa"] - full["p_min_mpa"])
        fl = L["Fluid"]({"pressure": at, "pvt_path": path}, res, L["cpu"])
        B = {k: np.interp(np.float32(at * 1e6) / 1e6, P, np.array(d[k], float)) for k in COLS}
        for got, want, what in ((fl.rho_w, 1000.0 / B["Bw"], "water density"), (fl.rho_o, (850.0 + B["Rs_m3m3"]) / B["Bo"], "oil density"), (fl.rho_g, (1.0 + 850.0 * B["Rv_m3m3"]) / B["Bg"], "gas density"),
                                (fl.mu_w, B["mu_w_cP"] * 1e-3, "water viscosity"), (fl.mu_o, B["mu_o_cP"] * 1e-3, "oil viscosity"), (fl.mu_g, B["mu_g_cP"] * 1e-3, "gas viscosity")):
            g = f64(got)
            ctx.check(np.abs(g - want).max() <= 1e-5 * abs(want), "a fluid on the generated table has %s %.9g; the table gives %.9g" % (what, float(g.ravel()[0]), want))
        ctx.count("fluid loaded")
    ctx.nontrivial(p, case["via"])
    ctx.sample({"params": p, "Bo": d["Bo"][:3], "Rs": d["Rs_m3m3"][:3]})
