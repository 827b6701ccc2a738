"""C08: gravity sinks the heavy phase and lifts the light one."""
import copy
import numpy as np
import gen
from oil import load, build, state
from ref import Model
from sat import explicit

PROP = "C08"
RULE = ("Closed laterally uniform columns (1-12 columns wide, 2-15 layers, layered permeability and porosity, random initial distributions, PVT on/off) run for many steps: "
        "after every step the pore-volume-weighted mean depth of water must not have decreased and that of gas not increased, per face flux direction included; "
        "at the end mobile phases must have segregated. Equal densities and single layers must show no gravity effect. "
        "Non-trivial: a mean depth moved by more than 1000 tolerances in the run.")
ASSUMPTIONS = ["low compressibility, so that pressure equilibration itself moves no volume", "water is the heaviest and gas the lightest phase"]
PLAN = {"quick": {"n": 640, "seconds": 70}, "thorough": {"n": None, "seconds": 600}}
REQUIRED = {"column steps": 2000, "segregated runs": 8, "equal-density steps": 50, "single-layer pairs": 20, "water sank": 500, "gas rose": 300}


def prepare():
    load()


def case(rng, idx, tier):
    kind = ["column", "column", "equal", "column", "column", "single", "column", "column", "equal", "column", "column", "single", "column", "segregate", "column", "column"][idx % 16]
    c = gen.base(rng, maxn=60, pc=False, het=False)
    c["kind"] = kind
    rp, fl, ini = c["fluid"]["relative_permeability"], c["fluid"], c["init"]
    c["dims"] = [rng.choice([1, 1, 1, 2, 3]), rng.choice([1, 1, 1, 2]), rng.randint(2, 15)]
    if kind == "segregate":
        c["dims"] = [1, 1, rng.randint(3, 7)]
        rp.update(nw=rng.choice([1, 2]), no=rng.choice([1, 2]), ng=rng.choice([1, 2]), sg_cr=0.0)
    if kind == "single":
        c["dims"] = [rng.randint(2, 6), rng.randint(1, 5), 1]
        gen.add_wells(rng, c, nmax=2)
    c["gs"][2] = rng.choice([1.0, 3.0, 10.0])
    fl.update(c_oil=1e-7, c_water=1e-7, c_gas=1e-7, c_rock=1e-7)
    if c.get("pvt"):
        for k in ("Bo", "Bw", "Bg", "Rs_m3m3", "Rv_m3m3"):
            if k in c["pvt"]:
                c["pvt"][k] = [c["pvt"][k][0]] * len(c["pvt"]["pressure_MPa"])
        c["pvt"]["Bg"] = [min(b, 0.01) for b in c["pvt"]["Bg"]]
        c["pvt"]["Rs_m3m3"] = [min(r, 60.0) for r in c["pvt"]["Rs_m3m3"]]
        fl["rho_gas"] = 1.0; fl["rho_oil"] = rng.choice([700.0, 800.0])
        if "Rv_m3m3" in c["pvt"]:
            c["pvt"]["Rv_m3m3"] = [0.0005] * len(c["pvt"]["pressure_MPa"])
    else:
        fl.update(rho_oil=rng.choice([700.0, 850.0, 990.0]), rho_water=rng.choice([1000.0, 1150.0]), rho_gas=rng.choice([1.0, 100.0]))
    if kind == "equal":
        c.pop("pvt", None)
        fl.update(rho_oil=900.0, rho_water=900.0, rho_gas=900.0)
    ini.pop("hydro", None)
    nz = c["dims"][2]
    lo, hi = rp["sw_cr"], 1 - rp["so_r"]
    style = rng.choice(["random", "random", "inverted", "uniform"]) if kind != "segregate" else rng.choice(["random", "uniform", "inverted"])
    c["style"] = style
    gas = ini.get("sg", 0) > 0 or rng.random() < 0.6
    lay = []
    for k in range(nz):
        if style == "uniform":
            a, b = 0.4, 0.25 if gas else 0.0
        elif style == "inverted":
            a, b = (0.9, 0.0) if k < nz / 2 else (0.05, 0.8 if gas else 0.0)
        else:
            a = rng.random(); b = rng.random() * (1 - a) if gas else 0.0
        lay.append((lo + a * (hi - lo) * 0.98, b * (hi - lo) * 0.98))
    if kind == "segregate" and c.get("kvf") == 0:
        c["kvf"] = 0.1
    if kind == "segregate":       # one mobile pair, homogeneous: reachable in a bounded number of steps
        if gas:
            lay = [(lo, b) for a, b in lay]
        else:
            lay = [(a, 0.0) for a, b in lay]
    c["lay"] = [[gen.rnd(a), gen.rnd(b)] for a, b in lay]
    c["het"] = {"seed": rng.randrange(10 ** 6), "k": rng.choice([0.0, 0.0, 0.7, 1.5]) if kind != "segregate" else 0.0, "layers": True}
    ini["dP"] = 0.0
    c["target"] = rng.choice([0.002, 0.01, 0.03]) if kind != "segregate" else 0.08
    c["nsteps"] = {"column": rng.choice([5, 20, 60]), "segregate": 2500, "equal": 5, "single": 2}[kind]
    if kind == "column" and rng.random() < 0.3:
        ini["P"] = gen.rnd(rng.uniform(5, 40), 4)
    c["hyd"] = rng.random() < 0.7
    return c


def setup(case):
    c = copy.deepcopy(case)
    nx, ny, nz = c["dims"]
    L = np.array(c["lay"])
    c["init"]["sw_arr"] = np.broadcast_to(L[:, 0], (nx, ny, nz)).ravel().tolist()
    c["init"]["sg_arr"] = np.broadcast_to(L[:, 1], (nx, ny, nz)).ravel().tolist()
    if c["hyd"] or c["kind"] == "equal":
        rho = 900.0 if c["kind"] == "equal" else 850.0
        P = c["init"]["P"] * 1e6 + rho * 9.81 * c["gs"][2] * np.arange(nz)
        c["init"]["P_arr"] = np.broadcast_to(P, (nx, ny, nz)).ravel().tolist()
    return c


def run(case, ctx):
    kind = case["kind"]
    c = setup(case)
    if kind == "single":
        return single(c, ctx)
    if kind == "equal":
        c["fluid"].update(c_oil=0.0, c_water=0.0, c_gas=0.0, c_rock=1e-3)
    sim = build(c, ctx)
    M = Model(c)
    if kind == "equal":
        return equal(c, ctx, sim, M)
    nz = M.dims[2]
    st = state(sim)
    # step length from the strongest gravity flux anywhere in the column's range of saturations
    s = np.linspace(0, 1, 41)
    mmax = 0.0
    rw, ro, rg = (float(M.rho(p, np.array([c["init"]["P"] * 1e6]))[0]) for p in "wog")
    if not (rw > ro * 1.0001 > rg):
        ctx.count("densities not ordered"); return
    mu = [float(np.min(M.mu(p, st["P"]))) for p in "wg"]
    mmax = max(M.krw_end / mu[0] * (rw - rg), M.krg_end / mu[1] * (rw - rg)) * 9.81 * M.gs[2]
    m, _ = M.mob(st["sw"], st["sg"], st["P"])
    z = np.arange(nz) * M.gs[2]
    d0 = {p: float((M.PV * st[k] * z).sum()) for p, k in (("w", "sw"), ("g", "sg"))}
    start = st
    moved = 0.0
    for n in range(c["nsteps"]):
        m, _ = M.mob(st["sw"], st["sg"], st["P"])
        sp = 0.0
        dr = {"w": rw - min(ro, rg), "g": max(rw, ro) - rg}
        for p in "wg":
            f = M.T[2] * np.maximum(M.lo(m[p], 2), M.hi(m[p], 2)) * dr[p] * 9.81 * M.gs[2]
            pv = np.minimum(M.lo(M.PV, 2), M.hi(M.PV, 2))
            sp = max(sp, float((f / pv).max()))
        if sp <= 1e-18:
            break
        dt = min(c["target"] / sp, 3e9)
        if kind == "segregate":     # counter-current flow is slower than its fastest phase: follow the observed pace
            boost = 1.0 if n == 0 else min(boost * 1.5, 1e5) if last < 0.03 else max(boost * 0.6, 1.0)
            dt *= boost
        if not sim.run_step(dt):
            ctx.count("failed steps"); return
        new = state(sim)
        last = max(np.abs(new["sw"] - st["sw"]).max(), np.abs(new["sg"] - st["sg"]).max())
        if kind == "column" or n % 25 == 0:
            r = explicit(M, c, st, new, dt, ())
            over = bool(r["over"].any())
        else:
            over = False
        # numerical compressibility: mean total flux through the column
        slack = float(np.abs((new["P"] - st["P"]) * M.PV * M.ct_iv(st["P"], st["sw"], st["sg"])[1]).sum())
        for p, key, sgn, name in (("w", "sw", 1, "water rose"), ("g", "sg", -1, "gas sank")):
            ds = (new[key] - st[key])
            # volume moved downward through each face
            down = -np.cumsum((ds * M.PV).sum(axis=(0, 1)))[:-1] * sgn
            tol = (M.PV * 1.3e-7 * 24).sum() + 3 * slack + 1e-5 * np.abs(ds * M.PV).sum()
            # unit-in-last-place noise of the stored pressures
            up = 3 * float(np.spacing(np.float32(new["P"].max())))
            tol += float((M.T[2] * np.maximum(M.lo(m[p], 2), M.hi(m[p], 2)) * up).sum() * dt)
            if over:
                # overshooting windows cut volume (C02); the mean depth of what is left still may not go the wrong way
                ctx.count("steps with a window hit"); continue
            if kind == "segregate" and boost > 1:
                continue                    # steps beyond the explicit limit: only the end state is judged
            worst = float((-down).max() / tol)
            ctx.worst(name, worst)
            if worst > 1:
                k = int((-down).argmax())
                ctx.fail("step %d: %s: %.6g m3 crossed the face below layer %d the wrong way" % (n, name, -down[k], k), sw=new["sw"][0, 0].tolist(), sg=new["sg"][0, 0].tolist())
            if down.max() > 20 * tol:
                ctx.count("water sank" if p == "w" else "gas rose"); moved = max(moved, down.max() / tol)
        ctx.count("column steps")
        st = new
        if kind == "segregate" and n % 20 == 19 and all(g1 <= 0.35 * g0 + 0.6 for _, g0, g1, _ in gaps(M, start, st)):
            break
    if moved > 50:
        ctx.nontrivial(kind, c["dims"], c["perm"], c["style"])
        ctx.sample({"kind": kind, "dims": c["dims"], "style": c["style"], "steps": c["nsteps"], "sw_end": st["sw"][0, 0], "sg_end": st["sg"][0, 0]})
    if kind == "segregate":
        final(c, ctx, M, start, st, rw, ro, rg)


def gaps(M, start, st):
    """distance (in layers) of the mean position of mobile water / gas from its fully segregated position, at the start and now"""
    z = np.arange(M.dims[2])
    PV = M.PV[0, 0]
    hi = 1 - M.swc - M.sor
    out = []
    for key, heavy, lo in (("sw", True, M.swc), ("sg", False, 0.0)):
        mob0 = np.maximum(start[key][0, 0] - lo, 0); mob1 = np.maximum(st[key][0, 0] - lo, 0)
        vol = float((mob1 * PV).sum())
        if vol < 0.02 * PV.sum() * hi:
            continue
        left, best = vol, 0.0
        for k in (z[::-1] if heavy else z):
            v = min(left, PV[k] * hi); best += v * k; left -= v
        cen = float((mob1 * PV * z).sum()) / vol
        best /= vol
        cen0 = float((mob0 * PV * z).sum()) / max(float((mob0 * PV).sum()), 1e-30)
        out.append((key, abs(best - cen0), abs(best - cen), (cen, best, cen0)))
    return out


def final(c, ctx, M, start, st, rw, ro, rg):
    """Mobile phases end up where their density puts them."""
    for key, g0, g1, (cen, best, cen0) in gaps(M, start, st):
        ctx.count("segregated runs")
        ctx.worst("remaining gap %s" % key, g1 / (0.6 * g0 + 0.8))
        ctx.check(g1 <= 0.6 * g0 + 0.8, "%s has not collected at the %s after %d steps: mean layer %.3f, %.3f when segregated, %.3f initially" %
                  ("water" if key == "sw" else "gas", "bottom" if key == "sw" else "top", c["nsteps"], cen, best, cen0), profile=st[key][0, 0].tolist())


def equal(c, ctx, sim, M):
    st0 = state(sim)
    for n in range(c["nsteps"]):
        m, _ = M.mob(st0["sw"], st0["sg"], st0["P"])
        f = max(float((M.T[2] * np.maximum(M.lo(m[p], 2), M.hi(m[p], 2))).max()) for p in "wg") * 900 * 9.81 * M.gs[2] / M.PV.min()
        dt = 0.05 / max(f, 1e-18)           # a step in which an unbalanced column would move 5 % of a pore volume
        if not sim.run_step(dt):
            ctx.count("failed steps"); return
        new = state(sim)
        tol = 3e-7 * (n + 2) + 0.05 * (n + 1) * 20 / (900 * 9.81 * M.gs[2])
        for key in ("sw", "sg"):
            ds = np.abs(new[key] - st0[key]).max()
            ctx.worst("equal densities", ds / tol)
            ctx.check(ds <= tol, "step %d: %s moved by %.3g in a column of equal densities" % (n, key, ds))
        ctx.count("equal-density steps")


def single(c, ctx):
    out = []
    c["init"]["dP"] = 0.3
    c["init"].pop("P_arr", None)
    c["fluid"]["c_rock"] = 1e-4
    for rho in ((850.0, 1000.0, 1.0), (300.0, 4000.0, 200.0)):
        d = copy.deepcopy(c)
        d["fluid"].update(rho_oil=rho[0], rho_water=rho[1], rho_gas=rho[2])
        sim = build(d, ctx)
        for n in range(c["nsteps"]):
            if not sim.run_step(c["dt"][0] * 86400.0):
                ctx.count("failed steps"); return
        out.append(state(sim))
    for key in ("P", "sw", "sg"):
        ctx.check((out[0][key] == out[1][key]).all(), "densities change %s of a single layer by %.3g" % (key, np.abs(out[0][key] - out[1][key]).max()))
    ctx.count("single-layer pairs")
    ctx.nontrivial("single", c["dims"], c["perm"])
