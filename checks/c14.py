"""C14: phase limits."""
import copy
import numpy as np
import gen
from oil import load, build, state
from ref import Model
from wells import DAY, LIMITS, conv_rel
import rates

PROP = "C14"
RULE = ("Random table fluids; rate producers (reservoir and every surface control, optional minimum bottom-hole pressure) with every combination of oil, water, gas and liquid limits from far below to far above "
        "their rates: no reported phase rate may exceed its limit; when the unlimited rate would exceed one, the tightest must be met exactly; otherwise the run must be identical to one without limits; "
        "the cell must lose the limited volume. Non-trivial: a limit bound, distinct by limit, case and step.")
ASSUMPTIONS = ["a PVT table is configured"]
PLAN = {"quick": {"n": 4000, "seconds": 60}, "thorough": {"n": None, "seconds": 600}}
REQUIRED = {"bound: wopr": 150, "bound: wlpr": 80, "bound: wgpr": 150, "bound: liqr": 100, "not binding": 200, "twins": 150, "limit checks": 3000, "limited on minimum pressure": 15, "several limits exceeded": 200}


def prepare():
    load()


def case(rng, idx, tier):
    c = gen.base(rng, maxn=50 if tier == "quick" else 300, pvt=True, gas=rng.random() < 0.8)
    c["dt"] = [c["dt"][0] * rng.choice([0.3, 1.0])] * rng.choice([1, 1, 2, 3])
    c["wells"] = []
    if rng.random() < 0.6:
        c["fluid"]["c_rock"] = rng.choice([1e-3, 1e-2])       # pressures survive large surface gas rates (known finding of C05)
    loose = rng.random() < 0.3
    for a in range(rng.randint(1, 4)):
        w = gen.well(rng, c, a, kinds=("prod",) if a == 0 or rng.random() < 0.8 else ("inj", "bhp_inj"), surface=True, frac=rng.choice([0.001, 0.003, 0.01, 0.03]), bhp_min=rng.random() < 0.3)
        if w["type"] == "producer":
            q = w["control"]["value"] / (60 if w.get("surface_phase") == "gas" else 1)
            lim = {}
            for key, _ in LIMITS:
                if rng.random() < 0.6:
                    f = rng.choice([1e-3, 0.05, 0.3, 0.8, 2.0]) if not loose else 1e6
                    lim[key] = gen.rnd(q * f * rng.uniform(0.5, 1.5) * (60 if key == "wgpr" else 1))
            if lim and rng.random() < 0.08:
                lim[rng.choice(sorted(lim))] = rng.choice([0.0, 0])
            w["limits"] = lim
        c["wells"].append(w)
    if len(c["wells"]) > 1 and rng.random() < 0.2:
        c["wells"][1]["coordinates"] = list(c["wells"][0]["coordinates"])
    if rng.random() < 0.2:
        c["sim"]["global_rate_scale"] = rng.choice([0.1, 2.0])
    gen.stretch(rng, c)
    return c


def off(rate, limit):
    """relative distance of a reported rate from its limit"""
    return abs(1 - rate / limit) if limit else abs(rate)


def run(case, ctx):
    sim = build(case, ctx)
    M = Model(case)
    free = copy.deepcopy(case)
    for w in free["wells"]:
        w.pop("limits", None)
    twin = build(free, ctx)
    binding = False
    for n, d in enumerate(case["dt"]):
        st = state(sim); dt = d * DAY
        ok = sim.run_step(dt)
        ok2 = twin.run_step(dt)
        if not ok:
            ctx.count("failed steps"); return
        new = state(sim)
        if not (np.isfinite(new["P"]).all() and new["P"].min() > 1e4):
            ctx.count("pressure below zero"); return
        obs = rates.observe(sim)
        r = rates.cells_follow(ctx, M, case, st, new, dt, n, obs=obs)
        sure_free = True
        for w, a, o in zip(case["wells"], r["acts"], obs):
            if w["type"] == "injector":
                continue
            q, surf = rates.reported_consistent(ctx, M, n, w, a, o)
            lim = w.get("limits") or {}
            back = a["mode"] == "bhp" and q > 0            # pressure below the well's: flows in, limits do not apply
            ctx.check(q <= 0 or a["mode"] == "bhp", "step %d: limited producer %s reports %.6g m3/s into the reservoir" % (n, w["name"], q), well=w)
            if back:
                sure_free = False
                continue
            for key, ph in LIMITS:
                if key in lim:
                    ctx.worst("limit", surf[ph] / lim[key] - 1 if lim[key] else surf[ph])
                    ctx.check(surf[ph] <= lim[key] * (1 + 1e-5) + 1e-12, "step %d: producer %s reports %.8g m3/d of %s, limit %s is %.8g" % (n, w["name"], surf[ph], ph, key, lim[key]), well=w, mode=a["mode"])
                    ctx.count("limit checks")
            if not rates.sane(a):
                sure_free = False
                continue
            rates.rate_matches(ctx, n, w, a, o)
            if not lim:
                continue
            # what it would report without limits: the choked target, or the flow at its minimum pressure
            if a["mode"] == "bhp":
                free_q = abs(M.wi(w) * float(r["m"]["t"][a["cell"]]) * (w["bhp_min"] * 1e6 - float(new["P"][a["cell"]])))
                want = {k: free_q * v * DAY for k, v in a["surf_per_res"].items()}
                err = 1e-3
            else:
                want = a["target_surf"]; err = 1e-3 if rates.unchoked(a) else 0.02
            over = [(key, ph) for key, ph in LIMITS if key in lim and (a["surf_per_res"][ph] > 1e-9 or not lim[key]) and want[ph] > lim[key] * (1 + err + 2 * conv_rel(ph, a["surf_per_res"], a["b"], a["fe"]))]
            near = [(key, ph) for key, ph in LIMITS if key in lim and want[ph] > lim[key] * (1 - err - 2 * conv_rel(ph, a["surf_per_res"], a["b"], a["fe"]))]
            if over:
                binding = True
                gap = min(off(surf[ph], lim[key]) for key, ph in over)
                ctx.worst("tightest limit", gap / 1e-5)
                ctx.check(gap <= 1e-5, "step %d: producer %s would exceed %s, but no limit is met exactly (nearest %.3g off)" % (n, w["name"], [k for k, _ in over], gap), well=w, reported=surf)
                key = min(over, key=lambda kp: off(surf[kp[1]], lim[kp[0]]))[0]
                ctx.count("bound: " + key)
                if not lim[key]:
                    ctx.count("limits of zero")
                if len(over) > 1:
                    ctx.count("several limits exceeded")
                if a["mode"] == "bhp":
                    ctx.count("limited on minimum pressure")
                ctx.nontrivial(key, case["perm"], n, w["coordinates"], lim[key])
                ctx.sample({"well": w, "unlimited": want, "reported": surf})
            elif not near:
                ctx.count("not binding")
                if a["mode"] != "bhp" and rates.unchoked(a) and w.get("rate_type") == "surface":
                    t = rates.target(w, M)
                    ctx.check(abs(surf[rates.key_of(w)] - t) <= 1e-5 * t, "step %d: a limit that does not bind changed the rate of %s: %.8g, target %.8g" % (n, w["name"], surf[rates.key_of(w)], t), well=w)
            else:
                binding = True
        if not sure_free:
            binding = True
        if not binding and ok2:
            tw = state(twin)
            for k in ("P", "sw", "sg"):
                ctx.check((tw[k] == new[k]).all(), "step %d: limits that do not bind change %s by %.3g" % (n, k, np.abs(tw[k] - new[k]).max()), wells=case["wells"])
            ctx.count("twins")
