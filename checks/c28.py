"""C28: the fully implicit option."""
import random
import numpy as np
import gen
from oil import load, build, state, f64

PROP = "C28"
RULE = ("Random two-phase models under the fully implicit option (uniform and perturbed states, contrast, gravity, capillary pressure, pressure wells, extreme and invalid controls, tiny iteration and attempt limits) stepped several times; bounds, "
        "complement, invalid numbers, every attempt (its start state, length, order and verdict, with the linear solver failing at chosen calls in half the open models), every bounded Newton update, returned value against restored state, and mass of a closed reservoir after a reported success are observed; uniform closed ones must stay as they are. Non-trivial: a step that moved the state or failed, distinct "
        "by case and step.")
ASSUMPTIONS = ["two phases (no gas), initial state within the bounds"]
PLAN = {"quick": {"n": 480, "seconds": 45}, "thorough": {"n": None, "seconds": 500}}
REQUIRED = {"steps": 220, "failed": 60, "succeeded": 60, "uniform closed": 20, "restored": 60, "attempts": 250, "retries": 100, "newton updates": 200, "solver faults": 100, "large models": 3}
OPTIONAL = {"no attempt hook": ["attempts", "retries"], "no update hook": ["newton updates"], "no linear solves": ["solver faults"]}
CASE_LIMIT = 200


def prepare():
    load()


def case(rng, idx, tier):
    c = gen.base(rng, maxn=12 if tier == "quick" else 24, gas=False, pvt=False)
    c["dims"] = rng.choice([[1, 1, 1], [2, 1, 1], [3, 1, 1], [2, 2, 1], [1, 1, 3], [2, 2, 2], [3, 2, 1], [4, 1, 1], [1, 3, 2]])
    rp = c["fluid"]["relative_permeability"]
    if rng.random() < 0.15:
        rp["model"] = "stone2"
    kind = c["kind"] = rng.choice(["uniform", "closed", "closed", "wells", "wells", "hostile"])
    c["init"].pop("hydro", None); c["init"].pop("mask", None)
    if kind == "uniform":
        c["dims"][2] = 1
        c["init"].update(dP=0.0, dsw=0.0)
        c.pop("het", None)
    else:
        c["init"]["dP"] = rng.choice([0.0, 1e-4, 0.01, 0.5, 5.0])
        c["init"]["dsw"] = rng.choice([0.0, 0.001, 0.1]) * (c["init"]["cap"] - c["init"]["sw"])
    if kind in ("wells", "hostile"):
        for n in range(rng.choice([1, 2])):
            w = gen.well(rng, c, n, kinds=("bhp_inj", "bhp_prod") if rng.random() < 0.8 else ("inj", "prod"))
            w.pop("injected_phase", None)
            if kind == "hostile":
                w["control"]["value"] = rng.choice([float("nan"), 0.0, -500.0, 1e4, 1e30, float("inf")])
            elif rng.random() < 0.3:
                w["control"]["value"] = rng.choice([0.05, 99.0, 300.0])
            c["wells"].append(w)
    if rng.random() < 0.25:
        c["init"]["P"] = rng.choice([0.2, 1.0, 95.0])
        c["init"]["dP"] = 0.0 if kind == "uniform" else 0.05
    c["dt"] = [gen.rnd(rng.choice([1e-4, 0.01, 1.0, 30.0, 1000.0]) * rng.uniform(0.5, 2)) for _ in range(rng.choice([1, 2, 3]))]
    c["sim"] = {"solver_type": "fully_implicit"}
    if rng.random() < 0.7:
        c["sim"]["max_time_step_attempts"] = rng.choice([1, 2, 3])
    if rng.random() < 0.3:
        c["sim"]["dt_reduction_factor"] = rng.choice([1.5, 4.0, 10.0])
    if rng.random() < 0.3:
        c["sim"]["newton_max_iter"] = rng.choice([1, 2, 50])
    if rng.random() < 0.2:
        c["sim"]["newton_tolerance"] = rng.choice([1e-6, 1.0])
    if kind not in ("uniform", "closed") and rng.random() < 0.5:
        n, c["faults"] = 0, []
        for _ in range(12):
            n += rng.choice([1, 2, 2, 3, 5, 15])
            c["faults"].append(n)
    return c


def directed(tier):
    """more than five hundred cells: the sparse linear solver, failing at chosen calls in one case"""
    out = []
    for n, kind in enumerate(["closed", "wells", "uniform", "wells"][:4 if tier != "quick" else 3]):
        rng = random.Random("C28 big %d" % n)
        while True:
            c = case(rng, 0, tier)
            if c["kind"] == kind and not c.get("faults") and len(c["dt"]) == 1:
                break
        c["dims"] = rng.choice([[505, 1, 1], [17, 30, 1], [2, 255, 1]])
        for w in c["wells"]:
            w["coordinates"] = [min(a, b - 1) for a, b in zip(w["coordinates"], c["dims"])]
        if kind != "uniform":
            c["init"].update(dP=0.1, dsw=0.02)
            c["dt"] = [0.05]
        c["sim"].update(newton_max_iter=2, max_time_step_attempts=1 if kind == "closed" else 2)
        c["sparse faults"] = [1] if kind == "wells" else []
        out.append(c)
    return out


def run(case, ctx):
    L = load(); torch = L["torch"]
    c = dict(case)
    hostile = [w["control"]["value"] for w in case["wells"]]
    sim = build(c, ctx)
    rp = case["fluid"]["relative_permeability"]
    lo, hi = np.float32(rp["sw_cr"]), np.float32(1.0 - rp["so_r"])
    # start within the bounds
    sim.fluid.s_w = sim.fluid.s_w.clamp(float(lo), float(hi)); sim.fluid.s_g = torch.zeros_like(sim.fluid.s_w); sim.fluid.s_o = 1.0 - sim.fluid.s_w
    sim.fluid.pressure = sim.fluid.pressure.clamp(1e5, 1e8)
    sim.fluid.prev_pressure, sim.fluid.prev_sw, sim.fluid.prev_sg = sim.fluid.pressure.clone(), sim.fluid.s_w.clone(), sim.fluid.s_g.clone()
    # attempts and intermediate states; the linear solver fails at chosen calls (fault injection)
    attempts = []
    newton, apply = getattr(sim, "_fully_implicit_newton_step", None), getattr(sim, "_apply_newton_step", None)
    if newton is not None:
        def watched(dt, *a, **k):
            at = {"dt": float(dt), "before": state(sim)}
            r = newton(dt, *a, **k)
            ok = bool(r[0]) if isinstance(r, tuple) else bool(r)
            at["after"], at["ok"] = state(sim), ok
            attempts.append(at)
            return r
        sim._fully_implicit_newton_step = watched
    else:
        ctx.count("no attempt hook")
    if apply is None:
        ctx.count("no update hook")
    else:
        def bounded(*a, **k):
            b = state(sim)
            apply(*a, **k)
            s = state(sim)
            ctx.count("newton updates")
            if all(np.isfinite(z[q]).all() for z in (b, s) for q in ("P", "sw")):
                over = np.abs(s["P"] - b["P"]) / np.minimum(0.1 * np.abs(b["P"]), 2e6)
                inside = (b["P"] >= 1e5) & (b["P"] <= 1e8) & (b["sw"] >= lo) & (b["sw"] <= hi)
                ctx.worst("pressure change of an update", float(over[inside].max(initial=0)))
                ctx.check(over[inside].max(initial=0) <= 1 + 1e-5, "a Newton update changed a pressure by %.3g times the allowed 10 %% or 2 MPa" % over[inside].max(initial=0))
                ctx.check(np.abs(s["sw"] - b["sw"])[inside].max(initial=0) <= 0.1 + 1e-6, "a Newton update changed a water saturation by %.3g" % np.abs(s["sw"] - b["sw"])[inside].max(initial=0))
            ctx.check(s["P"].min() >= 1e5 and s["P"].max() <= 1e8 and s["sw"].min() >= lo - 1.2e-7 and s["sw"].max() <= hi + 1.2e-7,
                      "a Newton update left pressure %.6g..%.6g MPa, water saturation %.9g..%.9g (mobile range %.9g..%.9g)" % (s["P"].min() / 1e6, s["P"].max() / 1e6, s["sw"].min(), s["sw"].max(), lo, hi)) if np.isfinite(s["P"]).all() and np.isfinite(s["sw"]).all() else None
        sim._apply_newton_step = bounded
    solve, calls = torch.linalg.solve, [0]
    def faulty(*a, **k):
        calls[0] += 1
        if calls[0] in case["faults"]:
            ctx.count("solver faults")
            raise torch.linalg.LinAlgError("injected: singular matrix")
        return solve(*a, **k)
    import scipy.sparse.linalg as sl
    sparse, scalls = sl.spsolve, [0]

    def faulty_sparse(*a, **k):
        scalls[0] += 1
        ctx.count("sparse solves")
        if scalls[0] in case.get("sparse faults", []):
            ctx.count("sparse solver faults")
            raise RuntimeError("injected: factor is singular")
        return sparse(*a, **k)
    sl.spsolve = faulty_sparse
    if case.get("faults"):
        torch.linalg.solve = faulty
    try:
        steps(case, ctx, sim, attempts, lo, hi)
    finally:
        torch.linalg.solve = solve
        sl.spsolve = sparse
    if np.prod(case["dims"]) > 500:
        ctx.count("large models")
    if case.get("faults") and not calls[0]:
        ctx.count("no linear solves")


def steps(case, ctx, sim, attempts, lo, hi):
    PV = f64(sim.reservoir.porous_volume)
    f = case["fluid"]
    rho_w = lambda P: f.get("rho_water", 1000.0) * (1 + f["c_water"] * 1e-6 * (P - 1e5))
    rho_o = lambda P: f.get("rho_oil", 850.0) * (1 + f["c_oil"] * 1e-6 * (P - 1e5))
    for n, dt in enumerate(case["dt"]):
        st = state(sim)
        del attempts[:]
        r = sim.run_step(dt * 86400)
        new = state(sim)
        ctx.count("steps")
        ctx.check(r is True or r is False, "step %d returned %r" % (n, r))
        for k in ("P", "sw", "so", "sg"):
            ctx.check(new[k].shape == st[k].shape and np.isfinite(new[k]).all(), "step %d (returned %r): %s holds invalid numbers" % (n, r, k))
        ctx.check(new["P"].min() >= 1e5 and new["P"].max() <= 1e8, "step %d (returned %r): pressure runs from %.6g to %.6g MPa" % (n, r, new["P"].min() / 1e6, new["P"].max() / 1e6))
        ctx.check(new["sw"].min() >= lo - 1.2e-7 and new["sw"].max() <= hi + 1.2e-7, "step %d (returned %r): water saturation runs from %.9g to %.9g; mobile range %.9g to %.9g" % (n, r, new["sw"].min(), new["sw"].max(), lo, hi))
        ctx.check(np.abs(new["so"] + new["sw"] - 1).max() <= 1.2e-7, "step %d (returned %r): oil is not the complement of water" % (n, r))
        if attempts:
            limit, factor = case["sim"].get("max_time_step_attempts", 5), case["sim"].get("dt_reduction_factor", 2.0)
            oks = [a["ok"] for a in attempts]
            ctx.check(r is any(oks), "step %d returned %r after attempts that converged: %s" % (n, r, oks))
            ctx.check(not any(oks[:-1]), "step %d went on after an attempt that converged: %s" % (n, oks))
            ctx.check(r or len(attempts) == limit, "step %d gave up after %d attempts of %d" % (n, len(attempts), limit))
            for j, a in enumerate(attempts):
                want = dt * 86400 / factor ** j
                ctx.check(abs(a["dt"] - want) <= 1e-6 * want, "step %d: attempt %d took %.9g s instead of %.9g s" % (n, j, a["dt"], want))
                for k in ("P", "sw", "so"):
                    dev = np.abs(a["before"][k] - st[k]).max()
                    ctx.check(dev <= (1.2e-7 if k == "so" else 0), "step %d: attempt %d started from another %s than the step (by up to %.6g)" % (n, j, k, dev))
                ctx.count("attempts")
                if j:
                    ctx.count("retries")
                    if not np.array_equal(attempts[j - 1]["after"]["P"], st["P"]):
                        ctx.count("retries after a moved attempt")
            if r:
                for k in ("P", "sw"):
                    ctx.check(np.array_equal(attempts[-1]["after"][k], new[k]), "step %d succeeded but does not keep the %s its last attempt reached" % (n, k))
        if not r:
            ctx.count("failed")
            for k in ("P", "sw", "so"):
                ctx.check(np.abs(new[k] - st[k]).max() <= (1.2e-7 if k == "so" else 0), "step %d failed but changed %s by up to %.6g" % (n, k, np.abs(new[k] - st[k]).max()))
            ctx.count("restored")
            ctx.nontrivial(case["perm"], case["kind"], n, "failed")
        else:
            ctx.count("succeeded"); ctx.count("succeeded: " + case["kind"])
            it = case["sim"].get("newton_max_iter", 20)      # bounded updates add up to a bounded step
            up, down = (1.1 ** it - 1) * st["P"], (1 - 0.9 ** it) * st["P"]
            dP, dS = new["P"] - st["P"], np.abs(new["sw"] - st["sw"]).max()
            ctx.check((dP <= np.minimum(up, it * 2e6) * (1 + 1e-5)).all() and (-dP <= np.minimum(down, it * 2e6) * (1 + 1e-5)).all() and dS <= 0.1 * it + 1e-6,
                      "step %d of at most %d Newton updates changed pressure by %.6g..%.6g MPa, water saturation by %.3g" % (n, it, dP.min() / 1e6, dP.max() / 1e6, dS))
            moved = not (np.array_equal(new["P"], st["P"]) and np.array_equal(new["sw"], st["sw"]))
            if moved:
                ctx.count("moved"); ctx.count("moved: " + case["kind"]); ctx.nontrivial(case["perm"], case["kind"], n)
            if not case["wells"]:
                for what, s, rho in (("water", "sw", rho_w), ("oil", "so", rho_o)):
                    a, b = PV * st[s] * rho(st["P"]), PV * new[s] * rho(new["P"])
                    tol = 20 * max(case["sim"].get("newton_tolerance", 1e-3), 1e-3) * len(PV.ravel()) ** 0.5 + 6e-7 * float((np.abs(a) + np.abs(b)).sum())
                    dev = abs(float((b - a).sum())) / tol
                    ctx.worst(what + " mass", dev)
                    ctx.check(dev <= 1, "step %d succeeded in a closed reservoir and changed the %s mass from %.9g to %.9g kg" % (n, what, a.sum(), b.sum()))
                    ctx.count("closed masses")
        if case["kind"] == "uniform":
            ctx.check(r is True, "step %d of a uniform closed reservoir failed" % n)
            for k in ("P", "sw", "so"):
                ctx.check(np.abs(new[k] - st[k]).max() <= 1.2e-7 * np.abs(st[k]).max(), "step %d changed %s of a uniform closed reservoir by %.6g" % (n, k, np.abs(new[k] - st[k]).max()))
            ctx.count("uniform closed")
    ctx.sample({"kind": case["kind"], "dims": case["dims"], "returned": r})
