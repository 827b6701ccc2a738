"""C16: component balance = time integral of the wells' surface rates."""
import numpy as np
import gen, hist
from oil import load, build, state
from ref import Model
from sat import compare
from wells import DAY
import rates

PROP = "C16"
RULE = ("Random table fluids with and without vaporised oil, 1-6 wells of every kind (surface and reservoir rates, limits, minimum pressure, pressure wells with inflow and backflow, shared cells), histories of "
        "1-8 steps, some of which fail: after every step the increments of oil and gas in and out must equal the wells' reported (producers) or reference (injectors) rates in surface volumes times the step, "
        "nothing after a failed one; never decreasing; accumulated = in - out. Non-trivial: an increment compared that is not zero, distinct by case and step.")
ASSUMPTIONS = ["a PVT table is configured", "a step that succeeded at a reduced length is integrated over that length (C18)"]
PLAN = {"quick": {"n": 2200, "seconds": 60}, "thorough": {"n": None, "seconds": 600}}
REQUIRED = {"steps": 1000, "failed steps": 150, "multi-substep steps": 200, "oil out": 1000, "gas in": 500, "oil in": 200, "backflow": 100, "two wells in one cell": 200}


def prepare():
    load()


def case(rng, idx, tier):
    c = gen.base(rng, maxn=40 if tier == "quick" else 200, pvt=True, gas=rng.random() < 0.85)
    c["dt"] = [c["dt"][0] * rng.choice([0.3, 1.0])]
    c["wells"] = [gen.well(rng, c, a, surface=True, limits=rng.random() < 0.3, bhp_min=rng.random() < 0.3, frac=rng.choice([0.001, 0.003, 0.01, 0.03, 0.1])) for a in range(rng.randint(1, 6))]
    for w in c["wells"]:        # moderate raw surface rates (known finding of C05)
        if w.get("surface_phase") == "gas" or (w.get("injected_phase") == "gas" and w.get("rate_type") == "surface"):
            w["control"]["value"] = gen.rnd(w["control"]["value"] * rng.choice([0.05, 0.3]))
        if w["control"]["type"] == "bhp" and rng.random() < 0.15:
            w["control"]["value"] = gen.rnd(2 * c["init"]["P"] - w["control"]["value"], 6)
    if len(c["wells"]) > 1 and rng.random() < 0.3:
        c["wells"][1]["coordinates"] = list(c["wells"][0]["coordinates"])
    if rng.random() < 0.5:
        c["fluid"]["c_rock"] = 1e-3
    if rng.random() < 0.3:
        c["sim"]["global_rate_scale"] = rng.choice([0.1, 0.5, 2.0])
    if rng.random() < 0.3:
        c["sim"]["max_saturation_change"] = rng.choice([0.002, 0.01])
    if rng.random() < 0.1:
        c["sim"]["debug_component_balance"] = True
    return hist.history(rng, c)


def cb(sim):
    return {(p, s): float(sim.component_balance[p][s]) for p in ("oil", "gas") for s in ("in", "out", "accum")}


def run(case, ctx):
    sim = build(case, ctx)
    M = Model(case)
    total = cb(sim)
    ctx.check(all(v == 0 for v in total.values()), "the component balance does not start at zero")
    cells = [tuple(w["coordinates"]) for w in case["wells"]]
    for n, s in enumerate(case["steps"]):
        st = state(sim)
        before = cb(sim)
        ok = hist.step(sim, s)
        after = cb(sim)
        if not ok:
            ctx.check(after == before, "step %d failed but changed the component balance" % n, before={str(k): v for k, v in before.items()}, after={str(k): v for k, v in after.items()})
            ctx.count("failed steps"); continue
        new = state(sim)
        if not (np.isfinite(new["P"]).all() and new["P"].min() > 1e4):
            ctx.count("pressure below zero"); return
        obs = rates.observe(sim)
        best = None
        for dt in hist.lengths(case, s):
            exp, tol = expected(case, M, st, new, dt, obs, ctx)
            if exp is None:
                best = None; break
            dev = {}
            for k in exp:
                dev[k] = abs(after[k] - before[k] - exp[k]) / (tol[k] + 1e-6 * abs(exp[k]) + 3e-14 * abs(after[k]) + 1e-18)
            d = max(dev.values())
            if best is None or d < best[0]:
                best = (d, dev, exp, dt)
        if best is None:
            ctx.count("conversion factor vanishes"); continue
        d, dev, exp, dt = best
        ctx.worst("increment", d)
        if d > 1:
            k = max(dev, key=dev.get)
            ctx.fail("step %d: %s %s grew by %.9g, the wells' rates over the step make %.9g" % (n, k[0], k[1], after[k] - before[k], exp[k]), wells=case["wells"], obs=obs, dt=dt)
        for k in exp:
            ctx.check(after[k] >= before[k], "step %d: cumulative %s %s decreased" % (n, k[0], k[1]))
        for p in ("oil", "gas"):
            ctx.check(abs(after[(p, "accum")] - (after[(p, "in")] - after[(p, "out")])) <= 1e-9 * (after[(p, "in")] + after[(p, "out")]), "step %d: accumulated %s is not in minus out" % (n, p))
        ctx.count("steps")
        if dt < s["dt"] * 86400 * 0.99:
            ctx.count("reduced steps")
        if max(np.abs(new["sw"] - st["sw"]).max(), np.abs(new["sg"] - st["sg"]).max()) > case["sim"].get("max_saturation_change", 0.05) * 1.1:
            ctx.count("multi-substep steps")
        if len(set(cells)) < len(cells):
            ctx.count("two wells in one cell")
        for k in exp:
            if exp[k] > 0 and after[k] > before[k]:
                ctx.count("%s %s" % k); ctx.nontrivial(case["perm"], n, k)
        if any(v for v in exp.values()):
            ctx.sample({"step": n, "increments": {"%s %s" % k: after[k] - before[k] for k in exp}, "expected": {"%s %s" % k: exp[k] for k in exp}})


def expected(case, M, st, new, dt, obs, ctx):
    worst, rw, rg, r = compare(M, case, st, new, dt, [None if o["q"] is None else float(o["q"]) for o in obs])
    exp = {(p, s): 0.0 for p in ("oil", "gas") for s in ("in", "out")}
    tol = dict(exp)
    for w, a, o in zip(case["wells"], r["acts"], obs):
        if w["type"] == "producer":
            if o["q"] is None or not o["surf"]:
                ctx.fail("producer %s reports no rates after a step" % w["name"])
            side = "out" if float(o["q"]) <= 0 else "in"
            if side == "in":
                ctx.count("backflow")
            if rates.sane(a):
                rates.reported_consistent(ctx, M, -1, w, a, o)
            for p in ("oil", "gas"):
                v = float(o["surf"][p]) * dt / DAY
                exp[(p, side)] += v; tol[(p, side)] += 2e-5 * v
        elif w.get("injected_phase", "water") == "gas":
            side = "in" if a["q"] >= 0 else "out"
            if side == "out":
                ctx.count("backflow")
            v = abs(a["q"]) / a["b"]["Bg"] * dt
            e = a["q_err"] / a["b"]["Bg"] * dt + 3e-6 * v
            exp[("gas", side)] += v; tol[("gas", side)] += e
            exp[("oil", side)] += v * a["b"]["Rv"]; tol[("oil", side)] += e * a["b"]["Rv"] + 3e-6 * v * a["b"]["Rv"]
            if abs(a["q"]) <= a["q_err"]:       # the side is not decided
                for s in ("in", "out"):
                    tol[("gas", s)] += v + e; tol[("oil", s)] += (v + e) * a["b"]["Rv"]
    return exp, tol
