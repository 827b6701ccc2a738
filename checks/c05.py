"""C05: the new pressure satisfies the implicit volume balance of every cell (independent residual, per cell and global)."""
import numpy as np
import gen
from oil import load, build, case_fields, state, f64
from ref import Model
from wells import pressure_wells

PROP = "C05"
RULE = ("Random grids (1-3 D, up to 220 cells, zero-permeability cells), rocks, fluids, PVT tables, wells and step sequences; after each accepted "
        "step the residual of an independently assembled float64 balance is checked in every cell and summed over the grid. Non-trivial: the step "
        "moved some pressure by more than 100 ulp or had a well; distinct by case parameters.")
ASSUMPTIONS = ["pressure is stored in float32, so the balance is decided up to the volume this rounding is worth",
               "CPU device; AMG is covered by C19-C21"]
PLAN = {"quick": {"n": 5000, "seconds": 60}, "thorough": {"n": None, "seconds": 600}}
REQUIRED = {"steps": 100, "cells": 2000, "well steps": 50}


def prepare():
    load()


def case(rng, idx, tier):
    c = gen.base(rng, maxn=220 if tier == "quick" else 900)
    ns = rng.choice([1, 1, 2, 3])
    c["dt"] = [c["dt"][0] * f for f in [1, 1, 0.5, 2][:ns]]
    if rng.random() < 0.8:
        gen.add_wells(rng, c, surface=bool(c.get("pvt")) and rng.random() < 0.25, bhp_min=True)
    if rng.random() < 0.2:
        c["sim"]["global_rate_scale"] = rng.choice([0.25, 2.0])
    if rng.random() < 0.15:
        c["sim"]["pressure_float64"] = True
    gen.stretch(rng, c)
    return c


DIRECTED = [  # surface-rate injector with PVT: the pressure equation uses the raw surface rate (known finding)
    {"dims": [5, 4, 2], "gs": [20.0, 20.0, 5.0], "poro": 0.2, "perm": 100.0,
     "pvt": {"pressure_MPa": [1.0, 60.0], "Bo": [1.3, 1.2], "Bw": [1.05, 1.02], "Bg": [0.01, 0.004], "mu_o_cP": [1.5, 1.2], "mu_w_cP": [0.5, 0.5],
             "mu_g_cP": [0.02, 0.03], "Rs_m3m3": [50.0, 120.0]},
     "fluid": {}, "init": {"P": 20.0, "sw": 0.4}, "sim": {"cg_tolerance": 1e-10, "cg_max_iter": 4000},
     "wells": [{"name": "I", "type": "injector", "coordinates": [1, 1, 0], "radius": 0.1, "control": {"type": "rate", "value": 2000.0},
                "injected_phase": "gas", "rate_type": "surface"}], "dt": [0.5]}]


def run(case, ctx):
    sim = build(case, ctx)
    M = Model(case)
    for n, dt_days in enumerate(case["dt"]):
        st = state(sim)
        dt = dt_days * 86400.0
        ok = sim.run_step(dt)
        if not ok:
            ctx.count("failed steps")
            return
        new = state(sim)
        check_balance(ctx, M, case, st, new, dt, sim, n)


def check_balance(ctx, M, case, st, new, dt, sim, n, report_known=True):
    Pn = new["P"]
    ctx.check(np.isfinite(Pn).all(), "pressure is not finite after step %d" % n)
    variants = pressure_wells(M, case, st, new, dt)
    best = None
    for v in variants:
        lo, hi, tol, diag, scale = M.pressure_balance(st, Pn, dt, v["wells"])
        # solver tolerance: sqrt(r D^-1 r) < tol (x10 after the retry)
        stol = 10 * case["sim"].get("cg_tolerance", 1e-6) * np.sqrt(diag) * 3 + 1e-300
        t = 3 * tol + stol
        dev = np.maximum(np.maximum(lo, -hi), 0) / t
        glo, ghi = lo.sum(), hi.sum()
        up = np.spacing(np.abs(Pn).astype(np.float32)).astype(float)
        acc = M.PV * M.ct_iv(st["P"], st["sw"], st["sg"])[1] / dt
        # summed over the grid every internal flux cancels; what is left is accumulation and wells
        gt = (acc * up * 1.0).sum() + 1e-6 * v["q_abs"] + v["q_err"] + 3e-6 * np.abs(acc * (Pn - st["P"])).sum() + 3 * stol.sum() \
            + 1e-300
        gdev = max(glo, -ghi, 0) / (2 * gt)
        d = max(dev.max(), gdev)
        if best is None or d < best[0]:
            best = (d, dev, gdev, v)
        if d <= 1:
            break
    d, dev, gdev, v = best
    ctx.count("steps"); ctx.count("cells", dev.size)
    if case.get("wells"):
        ctx.count("well steps")
    if case.get("pvt"):
        ctx.count("pvt steps")
    if M.dims[2] > 1:
        ctx.count("gravity steps")
    if M.pcs:
        ctx.count("capillary steps")
    ctx.worst("cell residual", min(dev.max(), 1e9) if d <= 1 or not v.get("known") else 0)
    ctx.worst("global residual", min(gdev, 1e9) if d <= 1 else 0)
    moved = np.abs(Pn - st["P"]).max()
    if moved > 200 or case.get("wells"):
        ctx.nontrivial(case["dims"], case["perm"], n, round(moved))
        ctx.sample({"dims": case["dims"], "wells": case.get("wells"), "dt_days": dt / 86400, "max_dP": moved, "max_cell_residual/tol": dev.max(), "global/tol": gdev})
    if d > 1:
        c = np.unravel_index(dev.argmax(), dev.shape)
        ctx.fail("step %d: volume balance violated: cell %s residual %.3g x tolerance, whole grid %.3g x tolerance" % (n, [int(x) for x in c], dev.max(), gdev))
    if v.get("known") and report_known:
        ctx.known(v["known"], "pressure equation uses the raw configured rate of a rate well, not the rate the well actually flows")
