"""C06: equilibrium is preserved; pressure has no spurious extrema; wells push pressure in one direction only."""
import copy
import numpy as np
import gen
from oil import load, build, state, eff_dims
from ref import Model

PROP = "C06"
RULE = ("Four kinds of cases: (rest) closed layer at uniform pressure with arbitrary saturations, any length of steps; (column) one mobile phase at its discrete "
        "hydrostatic pressure in 1-3 D grids with several layers; (range) closed reservoir without gravity and capillarity from rough pressures; (push) the "
        "same state with no well, a well, and a stronger well. Monitors: bit-level drift, pressure range, pointwise order of the runs. "
        "Non-trivial: the run moved (range, push) or could have moved (rest, column) pressures.")
ASSUMPTIONS = ["pressures are stored in float32: one unit in the last place per step is allowed", "solver tolerance 1e-10 or tighter, turned into a pressure bound by the accumulation term"]
PLAN = {"quick": {"n": 2400, "seconds": 60}, "thorough": {"n": None, "seconds": 600}}
REQUIRED = {"rest steps": 300, "column steps": 300, "range steps": 200, "push pairs": 200, "column cells at rest": 1000}


def prepare():
    load()


def case(rng, idx, tier):
    kind = ["rest", "column", "range", "push"][idx % 4]
    c = gen.base(rng, maxn=150 if tier == "quick" else 600, pc=kind == "push")
    c["kind"] = kind
    ini, fl, rp = c["init"], c["fluid"], c["fluid"]["relative_permeability"]
    if kind in ("rest", "range"):
        c["dims"][2] = 1
        if c["dims"][0] * c["dims"][1] < 2:
            c["dims"][0] = 5
        ini.pop("hydro", None)
    if kind == "rest":
        ini["dP"] = 0.0
        c["dt"] = [gen.logu(rng, 1e-3, 1000)] * rng.choice([3, 10, 30])
        if c["fluid"].get("capillary_pressure_og") is None and rng.random() < 0.3:      # uniform saturations may have any capillary curve
            ini["dsw"] = ini["dsg"] = 0.0
            fl["pc_scale"] = gen.logu(rng, 200, 3e4)
            fl["capillary_pressure_og"] = {"pc_scale": 1e4, "pc_exponent": 1.0}
    elif kind == "column":
        if c["dims"][2] == 1:
            c["dims"][2] = rng.choice([2, 4, 9])
        ini.pop("hydro", None)
        c["phase"] = rng.choice("wo") if ini.get("sg", 0) == 0 or rng.random() < 0.8 else "o"
        ini["dP"] = ini["dsw"] = ini["dsg"] = 0.0
        ini["sg"] = 0.0
        ini["sw"] = 1 - rp["so_r"] if c["phase"] == "w" else rp["sw_cr"]
        ini["cap"] = 1.0
        if c.get("pvt"):
            for k in ("Bo", "Bw", "Rs_m3m3"):
                c["pvt"][k] = [c["pvt"][k][0]] * len(c["pvt"]["pressure_MPa"])
            fl["c_rock"] = max(fl["c_rock"], 1e-5)
        else:
            fl["c_oil"] = fl["c_water"] = 0.0
        c["dt"] = [gen.logu(rng, 1e-3, 1000)] * rng.choice([3, 10, 30])
    elif kind == "range":
        ini["dP"] = rng.choice([0.05, 1.0, 8.0])
        c["dt"] = [gen.logu(rng, 1e-3, 30)] * rng.choice([1, 3, 6])
    else:
        c["w"] = gen.well(rng, c, 0)
        c["w"]["bhp_far"] = gen.rnd(rng.uniform(0.5, 6), 4)
        c["factor"] = rng.choice([1.5, 3.0, 20.0])
        if c["w"]["control"]["type"] == "bhp":
            mx = ini["P"] + ini["dP"] + ini.get("hydro", 0) * 9.81e-6 * c["gs"][2] * c["dims"][2]
            c["w"]["control"]["value"] = gen.rnd(mx + rng.uniform(0.1, 5) if c["w"]["type"] == "injector" else max(0.05, ini["P"] - ini["dP"] - rng.uniform(0.1, 5)), 6)
    return c


def hydrostatic(case):
    """discrete hydrostatic pressures of the mobile phase (incompressible), float32"""
    M = Model(case)
    z = np.arange(M.dims[2])
    rho = float(M.rho(case["phase"], np.array([case["init"]["P"] * 1e6]))[0])
    P = case["init"]["P"] * 1e6 + rho * 9.81 * case["gs"][2] * z
    return np.broadcast_to(P[None, None, :], M.PV.shape)


def bound(M, st, Pn, dt, wells, tol):
    """How far the solver's stopping rule lets a pressure be from the exact solution (Pa)."""
    lo, hi, t, diag, scale = M.pressure_balance(st, Pn, dt, wells)
    acc = M.PV * M.ct_iv(st["P"], st["sw"], st["sg"])[0] / dt
    return 10 * tol * np.sqrt(diag.max()) / max(acc.min(), 1e-300)


def ulp(P):
    return np.spacing(np.abs(P).astype(np.float32)).astype(float)


def run(case, ctx):
    case = copy.deepcopy(case)
    {"rest": rest, "column": rest, "range": prange, "push": push}[case["kind"]](case, ctx)


def rest(case, ctx):
    if case["kind"] == "column":
        case["init"]["P_arr"] = hydrostatic(case).astype(np.float32).astype(float).ravel().tolist()
    case["sim"]["cg_tolerance"] = 1e-14
    sim = build(case, ctx)
    M = Model(case)
    st0 = prev = state(sim)
    noise0 = 0.0
    if case["kind"] == "column":
        # unit-in-last-place pressure noise must not be worth more than 2e-4 of a pore volume over the whole run
        m, _ = M.mob(st0["sw"], st0["sg"], st0["P"])
        tt = np.zeros_like(M.PV)
        for ax in range(3):
            if M.PV.shape[ax] > 1:
                e = M.T[ax] * float(m[case["phase"]].max()) * 4 * ulp(st0["P"]).max()
                M.add_lo(tt, ax, e); M.add_hi(tt, ax, e)
        lim = 2e-4 / max(float((tt / M.PV).max()), 1e-300) / 86400.0 / len(case["dt"])
        case["dt"] = [min(d, lim) for d in case["dt"]]
    if case["kind"] == "column" and M.dims[2] > 1:
        # rounding of the stored hydrostatic pressures leaves this much imbalance in every column
        noise0 = 2.0
    for n, d in enumerate(case["dt"]):
        ok = sim.run_step(d * 86400.0)
        ctx.check(ok, "step %d: a closed reservoir at rest failed to step" % n)
        new = state(sim)
        # gravity terms are evaluated in float32: relative 4e-7 of the column weight
        w = float(np.ptp(st0["P"])) if case["kind"] == "column" else 0.0
        if case.get("het", {}).get("zero"):
            w *= 1.0
        tol = (n + 2) * ulp(st0["P"]) * (1 + noise0) + 1e-5 * w + 1e-3
        drift = np.abs(new["P"] - st0["P"])
        ctx.worst(case["kind"] + " pressure", (drift / tol).max())
        ctx.check((drift <= tol).all(), "step %d: pressure at rest drifted by %.6g Pa" % (n, drift.max()))
        tolS = 3e-7 * (n + 2)
        if case["kind"] == "column":     # flux of the mobile phase under the allowed pressure noise
            tolS = tolS + 0.0
        for key, mob in (("sw", "w"), ("sg", "g")):
            ds = np.abs(new[key] - st0[key])
            if case["kind"] == "column" and mob == case["phase"]:
                # only rounding noise of a few Pa drives it: bounded by transmissibility x noise x dt / PV
                m, _ = M.mob(prev["sw"], prev["sg"], prev["P"])
                tt = np.zeros_like(M.PV)
                for ax in range(3):
                    if M.PV.shape[ax] > 1:
                        e = M.T[ax] * float(m[mob].max()) * (6 * ulp(st0["P"]).max() + 1e-6 * w)
                        M.add_lo(tt, ax, e); M.add_hi(tt, ax, e)
                t = tolS + (n + 1) * tt * d * 86400.0 / M.PV
            else:
                t = tolS
            if case["kind"] == "rest":   # ulp-sized pressure noise between cells may move a little
                m, _ = M.mob(st0["sw"], st0["sg"], st0["P"])
                tt = np.zeros_like(M.PV)
                for ax in range(3):
                    if M.PV.shape[ax] > 1:
                        e = M.T[ax] * float(m[mob].max()) * 2 * ulp(st0["P"]).max()
                        M.add_lo(tt, ax, e); M.add_hi(tt, ax, e)
                if drift.max() == 0:
                    tt[:] = 0
                t = t + (n + 1) * tt * d * 86400.0 / M.PV
            ctx.worst(case["kind"] + " saturation", (ds / t).max())
            ctx.check((ds <= t).all(), "step %d: saturation %s at rest changed by %.3g" % (n, key, ds.max()))
        prev = new
        ctx.count(case["kind"] + " steps")
        if case["kind"] == "column":
            ctx.count("column cells at rest", new["P"].size)
    ctx.nontrivial(case["kind"], case["dims"], case["perm"], case["dt"][0])
    ctx.sample({"kind": case["kind"], "dims": case["dims"], "dt": case["dt"][0], "steps": len(case["dt"]), "max_drift_Pa": float(np.abs(prev["P"] - st0["P"]).max())})


def prange(case, ctx):
    case["sim"]["cg_tolerance"] = 1e-12
    sim = build(case, ctx)
    M = Model(case)
    for n, d in enumerate(case["dt"]):
        st = state(sim); dt = d * 86400.0
        if not sim.run_step(dt):
            ctx.count("failed steps"); return
        new = state(sim)
        b = bound(M, st, new["P"], dt, [], 1e-12)
        if b > 200:
            ctx.count("bound too loose"); return
        tol = ulp(st["P"]).max() * 1.01 + b
        lab_ok = st["P"].min() - tol <= new["P"].min() and new["P"].max() <= st["P"].max() + tol
        over = max(st["P"].min() - new["P"].min(), new["P"].max() - st["P"].max(), 0)
        ctx.worst("range", over / tol)
        ctx.check(lab_ok, "step %d: new pressures [%.8g, %.8g] leave the range of the old ones [%.8g, %.8g]" % (n, new["P"].min(), new["P"].max(), st["P"].min(), st["P"].max()))
        ctx.count("range steps")
        if np.abs(new["P"] - st["P"]).max() > 100 * tol:
            ctx.nontrivial("range", case["dims"], case["perm"], n)


def push(case, ctx):
    w = {k: v for k, v in case["w"].items() if k != "bhp_far"}
    case["sim"]["cg_tolerance"] = 1e-12
    runs = []
    ws = [[], [w]]
    rate = w["control"]["type"] == "rate"
    sgn = 1 if w["type"] == "injector" else -1
    w2 = copy.deepcopy(w)
    if rate:
        w2["control"]["value"] = w["control"]["value"] * case["factor"]
    else:
        w2["control"]["value"] = max(0.01, w["control"]["value"] + sgn * case["w"]["bhp_far"])
    ws.append([w2])
    M = None
    for wl in ws:
        c = dict(case, wells=wl)
        sim = build(c, ctx)
        M = M or Model(case)
        st = state(sim); dt = case["dt"][0] * 86400.0
        if not sim.run_step(dt):
            ctx.count("failed steps"); return
        new = state(sim)
        bw = []
        if not rate and wl:
            bw = [dict(cell=tuple(w["coordinates"]), kind="bhp", wi=M.wi(w), p=wl[0]["control"]["value"] * 1e6)]
        if not rate:
            # pressure control pushes one way only while the block stays on its side of the well pressure
            if (new["P"][tuple(w["coordinates"])] - wl[0]["control"]["value"] * 1e6) * sgn > 0 if wl else (new["P"][tuple(w["coordinates"])] - w["control"]["value"] * 1e6) * sgn > 0:
                ctx.count("block crossed the well pressure"); return
        runs.append((new["P"], bound(M, st, new["P"], dt, bw, 1e-12)))
    for a in (0, 1):
        (P1, b1), (P2, b2) = runs[a], runs[a + 1]
        if b1 + b2 > 200:
            ctx.count("bound too loose"); continue
        if not np.isfinite(P1).all() or not np.isfinite(P2).all():
            ctx.fail("pressure is not finite")
        tol = 1.01 * (ulp(P1) + ulp(P2)) + b1 + b2
        wrong = (P1 - P2) * sgn
        ctx.worst("push", (wrong / tol).max())
        if (wrong > tol).any():
            c = tuple(int(x) for x in np.unravel_index((wrong / tol).argmax(), wrong.shape))
            ctx.fail("%s %s moved the pressure of cell %s by %.6g Pa the wrong way (%s)" %
                     ("a" if a == 0 else "a stronger", w["type"], list(c), wrong[c], "against no well" if a == 0 else "against the weaker well"))
        ctx.count("push pairs")
        if np.abs(P1 - P2).max() > 20 * tol.max():
            ctx.nontrivial("push", case["perm"], a)
