"""C17: mass balance = what the saturation fields did."""
import numpy as np
import gen, hist
from oil import load, build, state
from ref import Model

PROP = "C17"
RULE = ("Random grids, fluids (table or compressible), wells and histories of 1-8 steps of which some fail; after every step each phase's increments of in and out mass must equal the sums of positive and negative "
        "observed saturation change times pore volume times an independently evaluated density at the new pressure; nothing after a failed step; never decreasing. Non-trivial: a phase's non-zero increment, distinct by case and step.")
ASSUMPTIONS = ["totals are compared to 2e-5 of the gross mass moved in the step (single precision sums)"]
PLAN = {"quick": {"n": 2200, "seconds": 60}, "thorough": {"n": None, "seconds": 600}}
REQUIRED = {"steps": 1000, "failed steps": 150, "phase increments": 6000, "gas increments": 1000, "steps with table": 500}


def prepare():
    load()


def case(rng, idx, tier):
    c = gen.base(rng, maxn=120 if tier == "quick" else 800)
    if rng.random() < 0.85:
        gen.add_wells(rng, c, nmax=4, bhp_min=True)
    if rng.random() < 0.3:
        c["sim"]["max_saturation_change"] = rng.choice([0.002, 0.01])
    if rng.random() < 0.2:
        c["fluid"]["rho_gas"] = 120.0
    return hist.history(rng, c)


def mb(sim):
    return {(p, s): float(sim.mass_balance[p][s]) for p in ("water", "oil", "gas") for s in ("in", "out")}


def run(case, ctx):
    sim = build(case, ctx)
    M = Model(case)
    ctx.check(all(v == 0 for v in mb(sim).values()), "the mass balance does not start at zero")
    for n, s in enumerate(case["steps"]):
        st = state(sim); before = mb(sim)
        ok = hist.step(sim, s)
        after = mb(sim)
        if not ok:
            ctx.check(after == before, "step %d failed but changed the mass balance" % n)
            ctx.count("failed steps"); continue
        new = state(sim)
        if not np.isfinite(new["P"]).all():
            ctx.count("pressure not finite"); return
        dw, dg = new["sw"] - st["sw"], new["sg"] - st["sg"]
        ctx.count("steps")
        if M.pvt:
            ctx.count("steps with table")
        for p, ph, ds in (("water", "w", dw), ("gas", "g", dg), ("oil", "o", -(dw + dg))):
            P = new["P"]
            c = np.stack([M.rho(ph, P * (1 + e)) for e in (0, 3e-7, -3e-7)])
            mass = ds * M.PV * c[0]
            # rounding of -(dSw + dSg): the two changes may cancel
            noise = (np.abs(dw) + np.abs(dg)) * 1.2e-7 * M.PV * np.abs(c[0]) if ph == "o" else 0 * mass
            for side, v in (("in", np.clip(mass, 0, None)), ("out", np.clip(-mass, 0, None))):
                want = float(v.sum())
                tol = 2e-5 * float(np.abs(v).sum()) + float(noise.sum()) + float((v / np.abs(c[0]) * np.ptp(c, axis=0)).sum()) + 1e-13 * after[(p, side)] + 1e-15
                got = after[(p, side)] - before[(p, side)]
                dev = abs(got - want) / tol
                ctx.worst(p, dev)
                ctx.check(dev <= 1, "step %d: %s %s grew by %.9g kg; the saturation changes are worth %.9g kg" % (n, p, side, got, want), rho=[float(c[0].min()), float(c[0].max())])
                ctx.check(got >= 0 or M.rho(ph, P).min() < 0, "step %d: cumulative %s %s decreased" % (n, p, side))
                ctx.count("phase increments")
                if want > 0:
                    ctx.nontrivial(case["perm"], n, p, side)
                    if p == "gas":
                        ctx.count("gas increments")
        ctx.sample({"step": n, "balance": {"%s %s" % k: v for k, v in after.items()}})
