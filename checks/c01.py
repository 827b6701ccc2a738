"""C01: saturations stay physical and sum to one; no phase drops below min(initial, critical)."""
import numpy as np
import gen
from oil import load, build, state

PROP = "C01"
RULE = ("Hostile random cases (steps up to hundreds of days, rates up to tens of pore volumes per step, bottom-hole pressures far from the block, cells "
        "starting at, above and below the critical saturations, gas and water competing for one cell, PVT on/off) run for several steps; the monitor "
        "inspects every cell after every step. Non-trivial: some saturation changed by more than 1e-4 in the step.")
ASSUMPTIONS = ["a monitor tolerance of 2e-6 in saturation (float32)"]
PLAN = {"quick": {"n": 4000, "seconds": 60}, "thorough": {"n": None, "seconds": 600}}
REQUIRED = {"steps": 200, "cells at a window": 50, "cells": 5000}


def prepare():
    load()


def case(rng, idx, tier):
    c = gen.base(rng, maxn=160 if tier == "quick" else 600)
    hard = rng.random()
    c["dt"] = [gen.logu(rng, 0.05, 3 if hard < 0.4 else 300)]
    if rng.random() < 0.85:
        gen.add_wells(rng, c, nmax=5, surface=bool(c.get("pvt")), limits=bool(c.get("pvt")), bhp_min=True,
                      frac=rng.choice([None, 0.05, 0.5, 3.0, 30.0]))
    c["dt"] = c["dt"] * rng.choice([1, 2, 4, 6])
    rp = c["fluid"]["relative_permeability"]
    ini = c["init"]
    r = rng.random()
    if r < 0.2:      # start below the critical saturations / with less than residual oil
        ini["sw"] = gen.rnd(rp["sw_cr"] * rng.uniform(0, 1)); ini["cap"] = 1.0
    elif r < 0.4:
        ini["sw"] = gen.rnd(rng.uniform(0.2, 0.9)); ini["dsg"] = 0.5; ini["cap"] = gen.rnd(1 - rp["so_r"] * rng.uniform(0, 1))
    elif r < 0.5:
        ini["sw"] = rp["sw_cr"]; ini["dsw"] = 0.0
    s = c["sim"]
    s["cg_tolerance"] = rng.choice([1e-6, 1e-8])
    if rng.random() < 0.3:
        s["max_saturation_change"] = rng.choice([0.005, 0.02, 0.2, 1.0])
    if rng.random() < 0.3:
        s["max_substeps"] = rng.choice([1, 2, 5, 100])
    gen.stretch(rng, c)
    return c


def run(case, ctx):
    sim = build(case, ctx)
    rp = case["fluid"]["relative_permeability"]
    st0 = state(sim)
    prev = st0
    for n, dt in enumerate(case["dt"]):
        ok = sim.run_step(dt * 86400.0)
        new = state(sim)
        observe(ctx, case, rp, st0, prev, new, n)
        if not ok:
            ctx.count("failed steps")
            break
        prev = new


TOL = 2e-6


def observe(ctx, case, rp, st0, prev, new, n):
    P, sw, sg, so = new["P"], new["sw"], new["sg"], new["so"]
    ctx.check(np.isfinite(P).all(), "step %d: pressure is not finite" % n)
    for name, s in (("water", sw), ("gas", sg), ("oil", so)):
        ctx.check(np.isfinite(s).all(), "step %d: %s saturation is not finite" % (n, name))
        ctx.worst("out of [0,1]", max(-s.min(), s.max() - 1, 0) / TOL)
        ctx.check(s.min() >= -TOL and s.max() <= 1 + TOL, "step %d: %s saturation outside [0, 1]: %.6g .. %.6g" % (n, name, s.min(), s.max()))
    e = np.abs(sw + sg + so - 1).max()
    ctx.worst("sum", e / 3e-7)
    ctx.check(e <= 3e-7, "step %d: saturations sum to one only within %.3g" % (n, e))
    so0 = 1 - st0["sw"] - st0["sg"]
    for name, s, s0, crit, pv in (("water", sw, st0["sw"], rp["sw_cr"], prev["sw"]), ("gas", sg, st0["sg"], rp["sg_cr"], prev["sg"]), ("oil", so, so0, rp["so_r"], prev["so"])):
        floor = np.minimum(s0, crit)
        d = (floor - s).max()
        ctx.worst("below floor", max(d, 0) / TOL)
        ctx.check(d <= TOL, "step %d: %s saturation %.6g below the smaller of initial and critical" % (n, name, d), cell=list(map(int, np.unravel_index((floor - s).argmax(), s.shape))))
        ctx.count("cells at a window", ((np.abs(s - floor) < 1e-5) & (pv > floor + 1e-4)).sum())
    ctx.count("steps"); ctx.count("cells", sw.size)
    ch = max(np.abs(sw - prev["sw"]).max(), np.abs(sg - prev["sg"]).max())
    if ch > 1e-4:
        ctx.nontrivial(case["dims"], case["perm"], n, round(ch, 6))
        ctx.sample({"dims": case["dims"], "dt": case["dt"], "max_change": ch, "sw": [sw.min(), sw.max()], "sg": [sg.min(), sg.max()], "so": [so.min(), so.max()]})
