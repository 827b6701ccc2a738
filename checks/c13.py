"""C13: surface-rate wells deliver their target in surface volumes."""
import numpy as np
import gen
from oil import load, build, state
from ref import Model
from wells import DAY
import rates

PROP = "C13"
RULE = ("Random table fluids (with and without vaporised oil), saturations and pressures, 1-6 surface-rate wells (every controlled phase, injectors of both phases, shared cells, rate scale), "
        "1-4 steps: the reported rate of the controlled phase must equal the target unless the cell cannot supply it or a limit binds, then it must not exceed it; reported phase rates must match the reported "
        "total and an independent conversion at the cell; the volume taken from or put into the cell must match. Non-trivial: a well delivered its target, distinct by phase, case and step.")
ASSUMPTIONS = ["a PVT table is configured", "phase fractions above 1e-6"]
PLAN = {"quick": {"n": 5000, "seconds": 60}, "thorough": {"n": None, "seconds": 600}}
REQUIRED = {"target met: oil": 300, "target met: water": 150, "target met: gas": 300, "target met: liquid": 300, "surface injectors: gas": 200, "surface injectors: water": 200,
            "target met with vaporised oil": 200, "choked": 100, "reports": 2000}


def prepare():
    load()


def case(rng, idx, tier):
    c = gen.base(rng, maxn=60 if tier == "quick" else 300, pvt=True, gas=rng.random() < 0.85)
    c["dt"] = [c["dt"][0] * rng.choice([0.3, 1.0])] * rng.choice([1, 1, 2, 4])
    n = rng.randint(1, 6)
    c["wells"] = []
    if rng.random() < 0.6:
        c["fluid"]["c_rock"] = rng.choice([1e-3, 1e-2])       # pressures survive large surface gas rates (known finding of C05)
    for a in range(n):
        kind = rng.choice(["prod", "prod", "prod", "inj"])
        w = gen.well(rng, c, a, kinds=(kind,), frac=rng.choice([0.0003, 0.001, 0.003, 0.01, 0.03, 0.1]))
        w.pop("limits", None); w.pop("bhp_min", None)
        q = w["control"]["value"]
        w["rate_type"] = "surface"
        if kind == "prod":
            sp = rng.choice(["oil", "water", "gas", "liquid", None, "oil", "gas"])
            w.pop("surface_phase", None)
            if sp:
                w["surface_phase"] = sp if rng.random() < 0.9 else sp.upper()
            if sp == "gas":
                w["control"]["value"] = gen.rnd(q * rng.choice([1, 3, 10]))
            if rng.random() < 0.15:
                w["rate_type"] = "reservoir"; w["control"]["value"] = q
        else:
            w["injected_phase"] = rng.choice(["water", "gas"])
            if w["injected_phase"] == "gas":
                w["control"]["value"] = gen.rnd(q * rng.choice([1, 3, 10]))
        c["wells"].append(w)
    if n > 1 and rng.random() < 0.3:
        c["wells"][1]["coordinates"] = list(c["wells"][0]["coordinates"])
    if rng.random() < 0.3:
        c["sim"]["global_rate_scale"] = rng.choice([0.1, 0.5, 2.0])
    if rng.random() < 0.1:
        c["init"]["P"] = rng.choice([3.0, 90.0])
    gen.stretch(rng, c)
    return c


def run(case, ctx):
    sim = build(case, ctx)
    M = Model(case)
    for n, d in enumerate(case["dt"]):
        st = state(sim); dt = d * DAY
        if not sim.run_step(dt):
            ctx.count("failed steps"); return
        new = state(sim)
        if not (np.isfinite(new["P"]).all() and new["P"].min() > 1e4):
            ctx.count("pressure below zero"); return
        obs = rates.observe(sim)
        r = rates.cells_follow(ctx, M, case, st, new, dt, n, obs=obs)
        for w, a, o in zip(case["wells"], r["acts"], obs):
            if w["type"] == "injector":
                ph = w.get("injected_phase", "water")
                ctx.count("surface injectors: %s" % ph if not a["choked"] else "choked injectors")
                if not a["choked"]:
                    ctx.nontrivial("inj", ph, case["perm"], n, w["coordinates"])
                continue
            q, surf = rates.reported_consistent(ctx, M, n, w, a, o)
            ctx.check(q <= 0, "step %d: producer %s reports %.6g m3/s into the reservoir" % (n, w["name"], q))
            if not rates.sane(a):
                ctx.count("controlled phase absent"); continue
            rates.rate_matches(ctx, n, w, a, o)
            if w.get("rate_type") != "surface":
                continue
            k = rates.key_of(w)
            t = rates.target(w, M)
            ctx.check(surf[k] <= t * (1 + 2e-5), "step %d: producer %s reports %.8g m3/d of %s, above its target %.8g" % (n, w["name"], surf[k], k, t), well=w)
            if rates.unchoked(a):
                dev = abs(surf[k] - t) / (1e-5 * t)
                ctx.worst("target", dev)
                ctx.check(dev <= 1, "step %d: producer %s reports %.8g m3/d of %s, its target is %.8g" % (n, w["name"], surf[k], k, t), well=w, state=a["f"], b=a["b"])
                ctx.count("target met: " + k)
                if a["b"]["Rv"] > 0 and a["f"]["g"] > 1e-3:
                    ctx.count("target met with vaporised oil")
                ctx.nontrivial(k, case["perm"], n, w["coordinates"], t)
                ctx.sample({"well": w, "reported": surf, "total m3/s": q, "fractions": a["f"], "B": a["b"]})
            elif a["choked"]:
                ctx.count("choked")
