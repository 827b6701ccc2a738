"""C03: every cell's saturation change equals its net two-point phase fluxes plus its wells."""
import numpy as np
import gen
from oil import load, build, state
from ref import Model
from sat import compare

PROP = "C03"
RULE = ("Random grids (1-3 D), anisotropic and heterogeneous rock, relative permeability, PVT, gravity, gas-oil capillary pressure and wells; after each "
        "step the water and gas change of every cell inside its saturation window is compared with an independent float64 two-point flux "
        "reference at the observed new pressure. Non-trivial: the step moved a saturation by more than 1000 times the tolerance of its cell.")
ASSUMPTIONS = ["the observed new pressure is taken as given (C05 decides it)", "cells whose explicit change overshoots their window are checked only for "
               "not exceeding the explicit change's reach (C01) and counted"]
PLAN = {"quick": {"n": 5000, "seconds": 60}, "thorough": {"n": None, "seconds": 600}}
REQUIRED = {"steps": 200, "cells compared": 5000, "sharp cells": 1000, "gravity steps": 50}


def prepare():
    load()


def case(rng, idx, tier):
    c = gen.base(rng, maxn=200 if tier == "quick" else 800)
    if rng.random() < 0.75:
        gen.add_wells(rng, c, surface=bool(c.get("pvt")), limits=bool(c.get("pvt")), bhp_min=True)
    c["dt"] = [c["dt"][0] * f for f in [1, 1, 0.3, 3][:rng.choice([1, 1, 2, 3])]]
    if rng.random() < 0.4:      # flows driven by fields only: keep the change moderate
        c["dt"] = [x * 0.1 for x in c["dt"]]
    if rng.random() < 0.2:
        c["sim"]["max_saturation_change"] = rng.choice([0.01, 0.2])
        c["sim"]["max_substeps"] = rng.choice([1, 5, 40])
    gen.stretch(rng, c)
    return c


def run(case, ctx):
    sim = build(case, ctx)
    M = Model(case)
    for n, d in enumerate(case["dt"]):
        st = state(sim); dt = d * 86400.0
        if not sim.run_step(dt):
            ctx.count("failed steps"); return
        new = state(sim)
        worst, rw, rg, r = compare(M, case, st, new, dt)
        ctx.count("steps"); ctx.count("cells compared", r["loose"].sum()); ctx.count("cells overshooting", r["over"].sum())
        if M.dims[2] > 1:
            ctx.count("gravity steps")
        if M.pgs:
            ctx.count("gas-oil capillary steps")
        if M.pvt:
            ctx.count("pvt steps")
        sharp = r["clean"] & ((np.abs(r["dw"]) > 300 * r["tw"]) | (np.abs(r["dg"]) > 300 * r["tg"]))
        ctx.count("sharp cells", sharp.sum())
        ctx.worst("cell", worst)
        if worst > 1:
            sel = r["loose"]
            rr = np.where(sel, np.maximum(rw, rg), 0)
            c = tuple(int(x) for x in np.unravel_index(rr.argmax(), rr.shape))
            ctx.fail("step %d, cell %s: saturation change (water %.6g, gas %.6g) is not the net flux (water %.6g, gas %.6g): %.3g x tolerance" %
                     (n, list(c), new["sw"][c] - st["sw"][c], new["sg"][c] - st["sg"][c], r["dw"][c], r["dg"][c], worst))
        if sharp.any():
            ctx.nontrivial(case["dims"], case["perm"], n)
            ctx.sample({"dims": case["dims"], "dt": d, "sharp_cells": int(sharp.sum()), "max_dSw": np.abs(r["dw"]).max(), "max_dSg": np.abs(r["dg"]).max(), "worst/tol": worst})
