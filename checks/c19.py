"""C19: every pressure solver option gives the same answer."""
import copy
import numpy as np
import gen
from oil import load, build, state, case_fields
from ref import Model
from wells import pressure_wells

PROP = "C19"
RULE = ("Random solvable models (contrast, anisotropy, impermeable cells, tables, all kinds of wells) stepped with conjugate gradients at several tolerances, with the multigrid option at random tuning and with pressure_float64; every step is "
        "compared with a tightly converged fresh simulator from the same state and with a dense solution of an independently assembled balance. The allowed difference is the one the solver's own tolerance implies (from the inverse matrix), "
        "plus 1e-4 (1e-3 for the dense solution) of the pressure change. Non-trivial: a step that moves pressure by more than 1 kPa, distinct by case, option and step.")
ASSUMPTIONS = ["the reference is converged to 1e-10 (preconditioned residual norm)", "steps whose reference does not converge are outside the property"]
PLAN = {"quick": {"n": 900, "seconds": 60}, "thorough": {"n": None, "seconds": 600}}
REQUIRED = {"steps": 1000, "multigrid": 600, "multigrid after an earlier step": 300, "multigrid unattainable": 60, "conjugate gradients": 400, "dense": 1000, "multi-level": 300, "pressure_float64": 200, "residual, multigrid": 600, "residual, conjugate gradients": 400, "residual near the tolerance, multigrid": 20,
            "residual near the tolerance, conjugate gradients": 20, "relaxed retry": 10}


def prepare():
    load()


def case(rng, idx, tier):
    c = gen.base(rng, maxn=45 if tier == "quick" else 200)
    long = rng.random() < 0.03
    if long:        # hundreds of iterations
        c["dims"] = rng.choice([[240, 1, 1], [1, 330, 1], [17, 16, 1], [120, 2, 1]])
        c["het"] = {"seed": rng.randrange(10 ** 6), "k": rng.choice([1.0, 2.0]), "aniso": True, "phi": True}
    if rng.random() < 0.85:
        gen.add_wells(rng, c, nmax=3, bhp_min=True)
    c["dt"] = [gen.rnd(c["dt"][0] * rng.choice([0.1, 1, 1, 10])) for _ in range(rng.choice([1, 2, 3]))]
    c["sim"] = {"solver_type": "impes", "cg_tolerance": 1e-10, "cg_max_iter": 6000, "max_time_step_attempts": 1}
    c["options"] = []
    if long:
        c["dt"] = c["dt"][:1]
        c["options"] = [{"cg_tolerance": rng.choice([1e-6, 1e-8, 1e-9]), "cg_max_iter": 6000}]
        if rng.random() < 0.5:
            c["options"].append({"pressure_solver": "amg", "amg": {"tol": 1e-8, "max_cycles": 100, "coarsest_size": rng.choice([5, 20])}, "cg_tolerance": 1e-8, "cg_max_iter": 6000})
        return c
    for _ in range(3):
        if rng.random() < 0.6:
            o = {"pressure_solver": "amg", "amg": {}, "cg_tolerance": rng.choice([1e-6, 1e-8, 1e-10])}
            a = o["amg"]
            for key, vals in (("tol", [1e-4, 1e-6, 1e-8, 1e-10, 1e-12, 1e-17]), ("max_cycles", [1, 3, 20, 100, 400]), ("theta", [0.02, 0.1, 0.25, 0.5, 0.8]), ("max_levels", [1, 2, 3, 10]), ("coarsest_size", [1, 2, 5, 20, 200]), ("device", ["cpu", "auto"])):
                if rng.random() < 0.75:
                    a[key] = rng.choice(vals)
        else:
            o = {"pressure_solver": "cg", "cg_tolerance": rng.choice([1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9])}
            if rng.random() < 0.3:
                del o["pressure_solver"]
        if rng.random() < 0.25:
            o["pressure_float64"] = rng.choice([True, False])
        o["cg_max_iter"] = rng.choice([2000, 6000])
        c["options"].append(o)
    for _ in range(3):      # options whose stopping rule decides the answer: loose tolerances, few iterations
        if rng.random() < 0.5:
            o = {"pressure_solver": "amg", "amg": {"tol": rng.choice([0.3, 0.1, 0.03, 1e-2, 3e-3, 1e-3, 1e-4]), "max_cycles": rng.choice([1, 1, 2, 3]), "coarsest_size": rng.choice([1, 2, 5]), "theta": rng.choice([0.05, 0.25, 0.6])},
                 "cg_tolerance": rng.choice([1e-8, 1e-9]), "cg_max_iter": 6000}
        else:
            o = {"cg_tolerance": gen.logu(rng, 1e-9, 1e-1), "cg_max_iter": rng.choice([1, 1, 2, 2, 3, 4, 6, 10, 20, 40])}
        o["stopping"] = True
        c["options"].append(o)
    return c


def systems(M, case, st, new, dt):
    """dense matrix and right-hand side of the balance, one per admissible well mode"""
    shape = st["P"].shape; n = st["P"].size
    out = []
    for v in pressure_wells(M, case, st, new, dt):
        def res(p):
            lo, hi, tol, diag, scale = M.pressure_balance(st, p.reshape(shape), dt, v["wells"])
            return 0.5 * (lo + hi).ravel()
        q = res(np.zeros(n))
        A = np.stack([(res(e) - q) / 1e6 for e in np.eye(n) * 1e6], 1)
        lo, hi, tol, _, _ = M.pressure_balance(st, new["P"], dt, v["wells"])
        out.append((A, -q, (3 * tol + 0.5 * (hi - lo)).ravel()))
    return out


def easy(M, case, st, dt):
    """textbook bound on the iterations, well below what is allowed, whichever mode the wells are in"""
    for A, q, _ in systems(M, case, st, st, dt):
        D = np.abs(np.diag(A))
        k = np.linalg.cond(A / np.sqrt(np.outer(D, D)))
        r0 = np.sqrt(((q - A @ st["P"].ravel()) ** 2 / D).sum())
        if not (k < 1e6 and np.isfinite(r0) and np.sqrt(k) * np.log(2 * np.sqrt(k) * r0 / 1e-10 + 2) < case["sim"]["cg_max_iter"]):
            return False
    return True


def run(case, ctx):
    F = case_fields(case)
    M = Model(case)
    n = int(np.prod(case["dims"]))
    for k, o in enumerate(case["options"]):
        o = dict(o); stopping = o.pop("stopping", False)
        c = dict(case, sim=dict(case["sim"], **o))
        sim = build(c, ctx, fields=F)
        for step, dt_days in enumerate(case["dt"]):
            dt = dt_days * 86400.0
            st = state(sim)
            if st["P"].min() < 2e5:
                ctx.count("pressure below zero"); break
            G = dict(F, P=st["P"].astype(np.float32), sw=st["sw"].astype(np.float32), sg=st["sg"].astype(np.float32))
            ref = build(case, ctx, fields=G)
            if not ref.run_step(dt):
                ctx.count("reference does not converge")
                ctx.check(not easy(M, case, st, dt), "step %d: conjugate gradients with %d iterations do not converge to 1e-10 on a well-conditioned system" % (step, case["sim"]["cg_max_iter"]))
                break
            ok = sim.run_step(dt)
            if stopping and not ok and o.get("pressure_solver") != "amg":
                ctx.count("too few iterations"); break
            ctx.check(ok, "step %d fails with %s although conjugate gradients converge to 1e-10" % (step, o))
            new, want = state(sim), state(ref)
            if not (want["P"].min() > 1e4 and want["P"].max() < 1e9):
                ctx.count("pressure out of range"); break
            moved = np.abs(want["P"] - st["P"]).max()
            sys_ = systems(M, case, st, want, dt)
            best = None
            for A, q, err in sys_:
                try:
                    inv = np.linalg.inv(A)
                except np.linalg.LinAlgError:
                    continue
                x = inv @ q
                x = x + inv @ (q - A @ x)
                d = np.abs(x - want["P"].ravel()).max()
                if best is None or d < best[0]:
                    best = (d, A, q, inv, x, err)
            if best is None:
                ctx.count("singular"); break
            d, A, q, inv, x, err = best
            D = np.abs(np.diag(A))
            cg = np.sqrt((inv ** 2 * D[None, :]).sum(1))          # |e_i| <= cg_i * (preconditioned residual norm)
            plain = np.sqrt((inv ** 2).sum(1)) * np.linalg.norm(q)
            ulp = np.spacing(np.abs(want["P"]).astype(np.float32)).astype(float).ravel()
            # dense solution against the tightly converged simulator
            tol = 3e-9 * cg + 1e-3 * moved + 50 + 2 * ulp + np.abs(inv) @ err     # rounding of the coefficients
            if np.linalg.cond(A * np.sqrt(1 / np.outer(D, D))) < 1e9:
                dev = (np.abs(x - want["P"].ravel()) / tol).max()
                ctx.worst("dense", dev)
                ctx.check(dev <= 1, "step %d: pressure differs by %.4g Pa from a direct solution (pressure moves by %.4g Pa)" % (step, np.abs(x - want["P"].ravel()).max(), moved), option=o)
                ctx.count("dense")
            # the residual the accepted pressure leaves, against the tolerance asked for (ten times it after a retry)
            r = q - A @ new["P"].ravel()
            noise = np.abs(A) @ (0.5 * np.spacing(np.abs(new["P"]).astype(np.float32)).astype(float).ravel()) + 2 * err
            if o.get("pressure_solver") == "amg":
                got = np.linalg.norm(r)
                ask = max(float(o["amg"].get("tol", o["cg_tolerance"])) * np.linalg.norm(q) * 1.001, 10 * o["cg_tolerance"] * np.sqrt(D.max())) + np.linalg.norm(noise)
            else:
                got = np.sqrt((r ** 2 / D).sum())
                ask = 10.1 * o["cg_tolerance"] + np.sqrt((noise ** 2 / D).sum())
            kind = "multigrid" if o.get("pressure_solver") == "amg" else "conjugate gradients"
            ctx.worst("residual, " + kind, got / ask)
            ctx.check(got <= ask, "step %d: the pressure accepted with %s leaves a residual of %.4g; the tolerance allows %.4g" % (step, o, got, ask))
            ctx.count("residual, " + kind)
            ask0 = ask if kind == "multigrid" else 1.01 * o["cg_tolerance"] + np.sqrt((noise ** 2 / D).sum())
            if stopping and got > 0.3 * ask0:
                ctx.count("residual near the tolerance, " + kind)
            if got > ask0:
                ctx.count("relaxed retry")
            bound = 10 * o["cg_tolerance"] * cg                    # the retry is ten times looser
            if o.get("pressure_solver") == "amg":
                bound = np.maximum(bound, float(o["amg"].get("tol", o["cg_tolerance"])) * plain)
                ctx.count("multigrid")
                if step:
                    ctx.count("multigrid after an earlier step")
                if o["amg"].get("tol") == 1e-17:
                    ctx.count("multigrid unattainable")
                if n > o["amg"].get("coarsest_size", 200) and o["amg"].get("max_levels", 10) > 1:
                    ctx.count("multi-level")
            else:
                ctx.count("conjugate gradients")
            if "pressure_float64" in o:
                ctx.count("pressure_float64")
            bound = 3 * bound + 3e-9 * cg + 2 * ulp + 1e-4 * moved + 20
            diff = np.abs(new["P"] - want["P"]).ravel()
            ctx.worst("solver", (diff / bound).max())
            ctx.check((diff <= bound).all(), "step %d: pressure differs by %.4g Pa between %s and conjugate gradients at 1e-10 (pressure moves by %.4g Pa)" % (step, diff.max(), o, moved), allowed=float(bound[diff.argmax()]))
            # saturations follow the pressure
            dP = np.maximum(diff, ulp).reshape(st["P"].shape)
            m, _ = M.mob(st["sw"], st["sg"], st["P"])
            for key in ("sw", "sg"):
                ds = np.abs(new[key] - want[key])
                amp = np.zeros_like(dP)
                for ax in range(3):
                    if dP.shape[ax] > 1:
                        t = M.T[ax] * (np.maximum(M.lo(m["t"], ax), M.hi(m["t"], ax)) + 1e-3 * m["t"].max()) * (M.lo(dP, ax) + M.hi(dP, ax) + 0.002 * np.abs(M.lo(want["P"], ax) - M.hi(want["P"], ax)))
                        M.add_lo(amp, ax, t); M.add_hi(amp, ax, t)
                for w in case["wells"]:
                    cell = tuple(w["coordinates"])
                    amp[cell] += abs(w["control"]["value"]) / 86400 * 1e-3 if w["control"]["type"] == "rate" and w.get("bhp_min") is None else 1e-3 * abs(M.PV[cell]) / dt + M.wi(w) * m["t"][cell] * dP[cell]
                lim = 3 * amp * dt / M.PV + 3e-6
                r = (ds / lim).max()
                ctx.worst("saturation", r)
                ctx.check(r <= 1, "step %d: %s differs by %.3g between %s and conjugate gradients at 1e-10" % (step, key, ds.max(), o))
            ctx.count("steps")
            if moved > 1e3:
                ctx.nontrivial(case["perm"], k, step)
                ctx.sample({"option": o, "moved_Pa": moved, "difference_Pa": float(diff.max())})
