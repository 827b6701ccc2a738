"""C18: a failed step changes nothing; a retried step is a clean step of the reduced length."""
import copy
import numpy as np
import gen, hist, rates
from oil import load, build, state, case_fields

PROP = "C18"
RULE = ("Random models (tables, wells, gravity, both solvers) whose pressure solve is made to fail: too few iterations for the step length (so a shorter attempt succeeds or all fail) or an injected invalid rate. Each step of a "
        "history is compared with fresh simulators built from the observed state and allowed a single attempt at each successive length: same first success, same fields, balances and well diagnostics; failure leaves "
        "every field and balance bit-identical. Non-trivial: a step that failed outright or succeeded only after failed attempts, distinct by case and step.")
ASSUMPTIONS = ["failures are injected through solver limits and invalid well rates, both public settings"]
PLAN = {"quick": {"n": 1600, "seconds": 60}, "thorough": {"n": None, "seconds": 600}}
REQUIRED = {"steps": 1000, "failed: too few iterations": 200, "failed: invalid rate": 100, "succeeded after failed attempts": 100, "clean steps after a failed one": 50, "steps with a table": 500}


def prepare():
    load()


def case(rng, idx, tier):
    c = gen.base(rng, maxn=60 if tier == "quick" else 300)
    c["dt"] = [gen.rnd(c["dt"][0] * rng.choice([0.3, 1, 3]))]
    if rng.random() < 0.85:
        gen.add_wells(rng, c, nmax=3, bhp_min=True)
    if rng.random() < 0.2:
        c["sim"]["max_saturation_change"] = 0.01
    hist.history(rng, c)
    if rng.random() < 0.85:
        c["sim"]["cg_max_iter"] = rng.choice([1, 1, 2, 2, 3, 4, 5, 8])
        c["sim"]["cg_tolerance"] = rng.choice([1e-6, 1e-7, 1e-9])
    c["sim"]["max_time_step_attempts"] = rng.choice([1, 2, 3, 5, 8, 12])
    c["sim"]["dt_reduction_factor"] = rng.choice([1.3, 2.0, 2.0, 3.0, 10.0])
    if rng.random() < 0.15:
        del c["sim"]["max_time_step_attempts"]
        if rng.random() < 0.5:
            del c["sim"]["dt_reduction_factor"]
    if rng.random() < 0.25:
        c["sim"]["pressure_solver"] = "amg"
        c["sim"]["amg"] = {"tol": 1e-30, "max_cycles": rng.choice([1, 2]), "coarsest_size": rng.choice([2, 5, 200]), "device": "cpu"}     # out of reach: always falls back
    return c


def balances(sim):
    return copy.deepcopy({"mass": {p: dict(v) for p, v in sim.mass_balance.items()}, "component": {p: dict(v) for p, v in sim.component_balance.items()}})


def flat(b):
    return {(k, p, s): float(v) for k, d in b.items() for p, e in d.items() for s, v in e.items()}


def fresh(case, ctx, st, F):
    c = dict(case, sim=dict(case["sim"], max_time_step_attempts=1))
    G = dict(F, P=st["P"].astype(np.float32), sw=st["sw"].astype(np.float32), sg=st["sg"].astype(np.float32))
    sim = build(c, ctx, fields=G)
    return sim


def run(case, ctx):
    F = case_fields(case)
    sim = build(case, ctx, fields=F)
    tries = case["sim"].get("max_time_step_attempts", 5)
    f = case["sim"].get("dt_reduction_factor", 2.0)
    failed_before = False
    for n, s in enumerate(case["steps"]):
        st = state(sim); bal = flat(balances(sim))
        ok = bool(hist.step(sim, s))
        new = state(sim); after = flat(balances(sim))
        ctx.count("steps")
        if case.get("pvt"):
            ctx.count("steps with a table")
        # reference: single attempts from the same state
        dt, k, ref = s["dt"], 0, None
        first = None
        while k < tries:
            g = fresh(case, ctx, st, F)
            good = hist.step(g, {"dt": dt, "how": s["how"]})
            if good:
                first, ref = k, g
                break
            dt /= f
            k += 1
        ctx.check(ok == (first is not None), "step %d %s although single attempts from the same state %s" % (n, "succeeded" if ok else "failed", "all fail" if first is None else "succeed at reduction %d of %d allowed attempts" % (first, tries)))
        if not ok:
            for q in ("P", "sw", "sg"):
                ctx.check(np.array_equal(new[q], st[q]), "step %d failed but changed %s" % (n, q), worst=float(np.abs(new[q] - st[q]).max()))
            ctx.check(np.abs(new["so"] - st["so"]).max() <= 1.2e-7, "step %d failed but changed the oil saturation" % n)
            ctx.check(after == bal, "step %d failed but changed a balance" % n, changed={str(q): [bal[q], after[q]] for q in bal if bal[q] != after[q]})
            ctx.count("failed: invalid rate" if s["how"] == "nan" else "failed: too few iterations")
            ctx.nontrivial(case["_idx"], n, "fail")
            failed_before = True
            continue
        if not (np.isfinite(new["P"]).all() and new["P"].min() > 1e4):
            ctx.count("pressure below zero"); return
        want = state(ref); wb = flat(balances(ref))
        # last digits of a quotient may differ (dt / f / f or dt / f^2)
        for q, tol in (("P", 6e-7 * np.abs(want["P"]) + 1.0), ("sw", 1e-6), ("sg", 1e-6), ("so", 2e-6)):
            d = np.abs(new[q] - want[q])
            ctx.worst(q, float((d / tol).max()))
            ctx.check((d <= tol).all(), "step %d (reduction %d): %s differs by %.3g from one clean step of that length" % (n, first, q, d.max()))
        for q in bal:
            inc, winc = after[q] - bal[q], wb[q]
            gross = sum(abs(v) for r, v in wb.items() if r[:2] == q[:2])
            tol = 1e-4 * gross + 1e-12 * abs(after[q]) + 1e-12 + (2e-6 * float(np.sum(F["phi"])) * np.prod(case["gs"]) * 1e3 if q[0] == "mass" else 0)
            ctx.check(abs(inc - winc) <= tol, "step %d (reduction %d): %s grew by %.9g instead of %.9g in one clean step of that length" % (n, first, " ".join(q), inc, winc))
        for w, a, b in zip(case["wells"], rates.observe(sim), rates.observe(ref)):
            if a["q"] is not None and b["q"] is not None:
                ctx.check(abs(a["q"] - b["q"]) <= 1e-4 * abs(b["q"]) + 1e-15, "step %d: well %s reports %.9g instead of %.9g" % (n, w["name"], a["q"], b["q"]))
        if first > 0:
            ctx.count("succeeded after failed attempts"); ctx.nontrivial(case["_idx"], n, first)
            ctx.sample({"step": n, "attempts": first + 1, "dP": float(np.abs(new["P"] - want["P"]).max())})
        elif failed_before:
            ctx.count("clean steps after a failed one")
        failed_before = False
