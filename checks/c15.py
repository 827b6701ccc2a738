"""C15: pressure-controlled wells and the switch to a minimum bottom-hole pressure."""
import copy
import numpy as np
import gen
from oil import load, build, state
from ref import Model
from wells import DAY, switch_state
import rates
import c05

PROP = "C15"
RULE = ("Random anisotropic, heterogeneous grids with 1-5 wells on bottom-hole pressure (above and below the cell's, injectors of both phases, producers) and rate producers with a minimum pressure around the one "
        "their rate needs; 1-4 steps. Reported rates and saturation changes of the wells' cells must equal Peaceman's index times mobility times drawdown, the volume balance of every cell must hold with that "
        "flow, the switch must happen exactly when the rate needs a lower pressure: runs whose producers do not switch must equal runs without minimum, runs whose producers switch must equal pressure-controlled ones. "
        "Non-trivial: a pressure well moved more than 100 tolerances.")
ASSUMPTIONS = ["well radius below the equivalent radius of the cell"]
PLAN = {"quick": {"n": 4000, "seconds": 60}, "thorough": {"n": None, "seconds": 600}}
REQUIRED = {"bhp producing": 800, "bhp producer backflow": 100, "bhp injecting": 500, "bhp injector backflow": 50, "switched": 200, "kept rate": 300, "twins without minimum": 80, "twins on pressure": 60, "balances": 800}


def prepare():
    load()


def case(rng, idx, tier):
    c = gen.base(rng, maxn=80 if tier == "quick" else 400)
    c["dt"] = [c["dt"][0] * rng.choice([0.1, 0.5, 1.0])] * rng.choice([1, 1, 2, 4])
    mode = rng.choice(["bhp", "bhp", "min", "min", "mix"])
    c["wells"] = []
    for a in range(rng.randint(1, 5)):
        if mode == "bhp" or (mode == "mix" and rng.random() < 0.5):
            w = gen.well(rng, c, a, kinds=("bhp_inj", "bhp_prod"))
            if rng.random() < 0.2:          # on the other side of the cell's pressure
                w["control"]["value"] = gen.rnd(2 * c["init"]["P"] - w["control"]["value"], 6)
        else:
            w = gen.well(rng, c, a, kinds=("prod",), frac=rng.choice([0.001, 0.01, 0.03, 0.1]))
            # a minimum around the pressure the rate needs
            h = math_dd(c, w)
            w["bhp_min"] = gen.rnd(c["init"]["P"] - min(h * rng.choice([0.05, 0.5, 0.9, 1.1, 2.0, 10.0]), c["init"]["P"] * 0.9), 6)
            if rng.random() < 0.15:
                w["bhp_min"] = gen.rnd(c["init"]["P"] + rng.choice([0.1, 2.0]), 6)
            elif rng.random() < 0.06:       # down to vacuum
                w["bhp_min"] = 0.0
                w["control"]["value"] = gen.rnd(w["control"]["value"] * max(1.0, c["init"]["P"] / max(h, 1e-9) * rng.choice([0.8, 1.2, 3.0])))
            if rng.random() < 0.15:
                w.pop("bhp_min")
        c["wells"].append(w)
    if len(c["wells"]) > 1 and rng.random() < 0.2:
        c["wells"][1]["coordinates"] = list(c["wells"][0]["coordinates"])
    if rng.random() < 0.2:
        c["sim"]["global_rate_scale"] = rng.choice([0.1, 0.5, 3.0])
    if rng.random() < 0.3:
        c["fluid"]["c_rock"] = 1e-3
    gen.stretch(rng, c)
    return c


def math_dd(c, w):
    """rough drawdown (MPa) its rate needs"""
    M = Model(c)
    m, _ = M.mob(np.full((1, 1, 1), c["init"]["sw"] + 0.5 * c["init"].get("dsw", 0)), np.zeros((1, 1, 1)), np.full((1, 1, 1), c["init"]["P"] * 1e6))
    J = max(M.wi(w) * float(m["t"][0, 0, 0]), 1e-20)
    return w["control"]["value"] / DAY / J / 1e6


def run(case, ctx):
    sim = build(case, ctx)
    M = Model(case)
    kinds = []
    if any(w.get("bhp_min") is not None for w in case["wells"]):
        free = copy.deepcopy(case)
        for w in free["wells"]:
            w.pop("bhp_min", None)
        onp = copy.deepcopy(case)
        for w in onp["wells"]:
            if w.get("bhp_min") is not None:
                w["control"] = {"type": "bhp", "value": w.pop("bhp_min")}
        kinds = [["without minimum", "rate", build(free, ctx)], ["on pressure", "bhp", build(onp, ctx)]]
    for n, d in enumerate(case["dt"]):
        st = state(sim); dt = d * DAY
        modes = [switch_state(M, w, st) for w in case["wells"]]
        if not sim.run_step(dt):
            ctx.count("failed steps"); return
        new = state(sim)
        if not (np.isfinite(new["P"]).all() and new["P"].min() > 1e4):
            ctx.count("pressure below zero"); return
        obs = rates.observe(sim)
        r = rates.cells_follow(ctx, M, case, st, new, dt, n, obs=obs if M.pvt else None)
        c05.check_balance(ctx, M, case, st, new, dt, sim, n, report_known=False)
        ctx.count("balances")
        for w, md, a, o in zip(case["wells"], modes, r["acts"], obs):
            c = a["cell"]
            if w["control"]["type"] == "bhp" or md == "bhp":
                dd = (w["control"]["value"] if w["control"]["type"] == "bhp" else w["bhp_min"]) * 1e6 - float(new["P"][c])
                ctx.count("bhp %s" % (("producing" if dd < 0 else "producer backflow") if w["type"] == "producer" else ("injecting" if dd > 0 else "injector backflow")))
                big = abs(a["q"]) * dt / float(M.PV[c])
                if big > 1e-4:
                    ctx.nontrivial(case["perm"], n, c, md)
                    ctx.sample({"well": w, "cell pressure": float(new["P"][c]), "index": M.wi(w), "flow m3/s": a["q"]})
            if w["type"] == "producer" and M.pvt:
                q, surf = rates.reported_consistent(ctx, M, n, w, a, o)
                rates.rate_matches(ctx, n, w, a, o)
                if a["mode"] == "bhp" and abs(a["q"]) > 10 * a["q_err"]:
                    ctx.check((q < 0) == (dd_of(w, new) < 0), "step %d: well %s flows %.6g m3/s with drawdown %.6g Pa" % (n, w["name"], q, dd_of(w, new)))
            if w["control"]["type"] == "rate" and w.get("bhp_min") is not None:
                ctx.count({"bhp": "switched", "rate": "kept rate", "either": "at the switch"}[md])
        for kd in kinds:
            name, want, twin = kd
            if twin is None:
                continue
            mine = [md for w, md in zip(case["wells"], modes) if w["control"]["type"] == "rate" and w.get("bhp_min") is not None]
            lim = want == "bhp" and any(w.get("limits") for w in case["wells"])
            if lim or any(md != want for md in mine) or not twin.run_step(dt):
                kd[2] = None
                continue
            t = state(twin)
            dev = max(np.abs(t["P"] - new["P"]).max() / (np.abs(new["P"]).max() * 3e-7 + 1), np.abs(t["sw"] - new["sw"]).max() / 1e-5, np.abs(t["sg"] - new["sg"]).max() / 1e-5)
            ctx.worst("twins", dev)
            ctx.check(dev <= 1, "step %d: producers that %s differ from wells %s (pressure by %.4g Pa, water by %.3g)" % (n, "keep their rate" if want == "rate" else "fall back to their minimum pressure", name,
                      np.abs(t["P"] - new["P"]).max(), np.abs(t["sw"] - new["sw"]).max()), wells=case["wells"], modes=modes)
            ctx.count("twins " + name)


def dd_of(w, new):
    return (w["control"]["value"] if w["control"]["type"] == "bhp" else w["bhp_min"]) * 1e6 - float(new["P"][tuple(w["coordinates"])])
