"""C02: a closed reservoir conserves the volume of every phase, step by step."""
import numpy as np
import gen
from oil import load, build, state
from ref import Model
from sat import explicit

PROP = "C02"
RULE = ("Closed random reservoirs (1-3 D, heterogeneous, barriers, gravity, capillarity, PVT, perturbed pressures and saturations, phases immobile in "
        "all or part of the grid) run for several steps; after each step the pore volume of water and gas summed over the grid, over each part "
        "separated by barriers and over each perm-isolated cell is compared with the value before. Non-trivial: volume worth 1000 tolerances changed cells.")
ASSUMPTIONS = ["whether a cell overshoots its window is decided with the float64 flux reference (C03)",
               "the per-cell truncation of overshooting changes is the known finding overshoot-truncated-per-cell; even then the imbalance may not exceed the overshoot"]
PLAN = {"quick": {"n": 6000, "seconds": 60}, "thorough": {"n": None, "seconds": 600}}
REQUIRED = {"steps": 400, "steps without overshoot": 200, "steps with exchange": 150, "immobile phase steps": 50, "gravity steps": 50}


def prepare():
    load()


def case(rng, idx, tier):
    c = gen.base(rng, maxn=200 if tier == "quick" else 900)
    rp, ini = c["fluid"]["relative_permeability"], c["init"]
    if ini["dP"] == 0.0:
        ini["dP"] = rng.choice([0.02, 0.3])
    r = rng.random()
    if r < 0.12:
        ini["sw"] = rp["sw_cr"]; ini["dsw"] = 0.0            # immobile water
    elif r < 0.24:
        ini["sg"] = 0.0; ini["dsg"] = 0.0                     # no gas anywhere
    elif r < 0.3:
        ini["sw"] = gen.rnd(rp["sw_cr"] * rng.random()); ini["dsw"] = 0.0
    n = rng.choice([1, 2, 3, 5])
    f = rng.choice([1, 0.1, 0.02])
    c["dt"] = [gen.rnd(c["dt"][0] * f)] * n
    if rng.random() < 0.2 and max(c["dims"][:2]) > 2:
        ax = 0 if c["dims"][0] >= c["dims"][1] else 1
        c["walls"] = [[ax, rng.randrange(1, c["dims"][ax] - 1)]]
    if rng.random() < 0.2:
        c["sim"]["max_substeps"] = rng.choice([1, 3, 50])
    gen.stretch(rng, c)
    return c


# one cell cannot take the water the pressure pushes into it: the excess is cut (known finding)
DIRECTED = [{"dims": [4, 1, 1], "gs": [10.0, 10.0, 5.0], "poro": 0.2, "perm": 500.0, "fluid": {"c_rock": 1e-2},
             "init": {"sw_arr": [0.7, 0.7, 0.79, 0.79], "sg_arr": [0.0] * 4, "P_arr": [3e7, 2.9e7, 1.1e7, 1e7]}, "wells": [],
             "sim": {"cg_tolerance": 1e-10, "cg_max_iter": 4000}, "dt": [20.0]}]


def run(case, ctx):
    sim = build(case, ctx)
    M = Model(case)
    lab = parts(M)
    for n, d in enumerate(case["dt"]):
        st = state(sim); dt = d * 86400.0
        if not sim.run_step(dt):
            ctx.count("failed steps"); return
        new = state(sim)
        observe(ctx, case, M, lab, st, new, dt, n)


def parts(M):
    """labels of the hydraulically connected parts"""
    import scipy.sparse as sp
    from scipy.sparse.csgraph import connected_components
    idx = np.arange(M.PV.size).reshape(M.PV.shape)
    I, J = [], []
    for ax in range(3):
        m = M.T[ax] > 0
        I.append(M.lo(idx, ax)[m]); J.append(M.hi(idx, ax)[m])
    I, J = np.concatenate(I), np.concatenate(J)
    _, lab = connected_components(sp.coo_matrix((np.ones(len(I)), (I, J)), shape=(M.PV.size,) * 2), directed=False)
    return lab


def observe(ctx, case, M, lab, st, new, dt, n):
    ctx.check(all(np.isfinite(v).all() for v in new.values()), "step %d: fields are not finite" % n)
    r = explicit(M, case, st, new, dt, ())
    ctx.count("steps")
    if M.dims[2] > 1:
        ctx.count("gravity steps")
    over = bool(r["over"].any() or (r["tw"] + r["tg"]).max() > 1e-3)      # or too stiff to tell
    base = 1.3e-7 * (r["N"] + 3)
    k = lab.max() + 1
    wmin, gmin, omin = r["floors"]
    # how far the explicit change of each cell leaves its window
    cut = np.maximum(0, np.maximum.reduce([wmin - (st["sw"] + r["dw"]), gmin - (st["sg"] + r["dg"]), (st["sw"] + r["dw"] + st["sg"] + r["dg"]) - (1 - omin)]))
    moved = 0.0
    for p, key in (("w", "sw"), ("g", "sg")):
        d = (new[key] - st[key]) * M.PV
        b = np.bincount(lab, weights=d.ravel(), minlength=k)
        tol = np.bincount(lab, weights=(M.PV * (base + 6e-7 * r["sw_part_" + p] + 2 * r["cut"][p])).ravel(), minlength=k)
        dev = np.abs(b) / tol
        # mobility: a phase without mobility anywhere does not move at all
        if r["m"][p].max() == 0 and r["me"][p].max() < 1e-20 and not over:
            ctx.count("immobile phase steps")
            ctx.check(np.abs(new[key] - st[key]).max() <= 1.3e-7 * 2, "step %d: immobile %s moved by %.3g" % (n, "water" if p == "w" else "gas", np.abs(new[key] - st[key]).max()))
        ex = np.abs(d).sum()
        moved = max(moved, ex / tol.sum())
        if not over:
            ctx.worst("imbalance", dev.max())
            if dev.max() > 1:
                c = int(dev.argmax())
                ctx.fail("step %d: %s volume of a closed part (%d cells) changed by %.6g m3 (%.3g x tolerance); %.6g m3 moved between cells" %
                         (n, "water" if p == "w" else "gas", int((lab == c).sum()), b[c], dev[c], ex / 2))
        else:
            lim = tol + 2 * np.bincount(lab, weights=(M.PV * (cut + r["tw"] + r["tg"])).ravel(), minlength=k)
            bad = np.abs(b) > lim
            if bad.any():
                c = int(bad.argmax())
                ctx.fail("step %d: %s volume of a closed part changed by %.6g m3, more than the %.6g m3 that overshoot their windows" % (n, p, b[c], lim[c]))
            if dev.max() > 1:
                ctx.known("overshoot-truncated-per-cell", "an overshooting change is cut in its own cell, so %.3g m3 of a phase appear or vanish" % np.abs(b).max())
                ctx.count("overshoot imbalances")
    if over:
        ctx.count("steps with overshoot")
    else:
        ctx.count("steps without overshoot")
        if moved > 100:
            ctx.count("steps with exchange")
            ctx.nontrivial(case["dims"], case["perm"], n, round(moved))
            ctx.sample({"dims": case["dims"], "dt": dt / 86400, "exchange_over_tolerance": moved, "parts": int(k)})
