"""C21: hierarchies are well formed; a preconditioner cycle is a linear contraction."""
import numpy as np
import gen, mat
from oil import load

PROP = "C21"
RULE = ("Random SPD M-matrices and settings; the hierarchy is inspected after the build and after each of several matrix updates: interpolation rows non-negative with sum one, one identity row per coarse cell, every coarse matrix equal to "
        "the dense Galerkin product of its parent and symmetric with the same total, sizes strictly decreasing, finest matrix proportional to the system. The preconditioner at fixed cycles is tested for additivity, homogeneity and reduction of "
        "the energy norm of the error. Non-trivial: a level with an interpolation, distinct by matrix, settings and update.")
ASSUMPTIONS = ["a fixed number of cycles is requested when linearity is tested (the adaptive count is a separate option)"]
PLAN = {"quick": {"n": 2000, "seconds": 60}, "thorough": {"n": None, "seconds": 600}}
REQUIRED = {"levels": 900, "levels after an update": 500, "cycles": 2500, "rescaled by an update": 150, "levels with more than 64 rows": 200, "orphans": 100}


def prepare():
    load()
    import solver.classical_amg


def case(rng, idx, tier):
    s = mat.spec(rng, nmax=130 if tier == "quick" else 500, kind=rng.choice(["grid", "grid", "grid", "graph", "line", "pieces", "diag" if rng.random() < 0.2 else "grid"]))
    if rng.random() < 0.06:
        s = mat.spec(rng, n=rng.choice([210, 330, 520]), kind=rng.choice(["grid", "line"]))
    ups = []
    for _ in range(rng.choice([0, 1, 2, 3])):
        u = dict(s, acc=rng.choice([1.0, 1e-2, 1e-5]), scale=10.0 ** rng.choice([-15, -9, -6, -3, 0, 3]), wells=rng.choice([0, 2]))
        if rng.random() < 0.3:
            u["seed"] = rng.randrange(10 ** 6)       # other values and pattern of the same size
        if rng.random() < 0.2:
            u["drop"] = 0.2
        ups.append(u)
    return {"A": s, "updates": ups, "theta": rng.choice([0.02, 0.1, 0.25, 0.5, 0.9]), "max_levels": rng.choice([1, 2, 3, 5, 10]), "coarsest_size": rng.choice([1, 2, 5, 20, 60, 200]),
            "layout": rng.choice(["csr", "csr", "scipy"]), "ulayout": [rng.choice(["csr", "coo", "scipy", "dense"]) for _ in ups], "bs": rng.randrange(10 ** 6)}


def run(case, ctx):
    L = load(); torch = L["torch"]
    from solver.classical_amg import ClassicalAMG
    A = mat.matrix(case["A"])
    give = lambda M, lay: M.tocsr() if lay == "scipy" else mat.torch_matrix(M, lay, "float64", torch)
    amg = ClassicalAMG(give(A, case["layout"]), theta=case["theta"], max_levels=case["max_levels"], coarsest_size=case["coarsest_size"])
    inspect(ctx, case, amg, A, 0)
    for u, (spec, lay) in enumerate(zip(case["updates"], case["ulayout"])):
        before = [None if l.get("P") is None else l["P"].to_dense().numpy().copy() for l in amg.levels]
        A2 = mat.matrix(spec)
        amg.update_matrix(give(A2, lay))
        if (np.median(A2.diagonal()) < 1e-6) != (np.median(A.diagonal()) < 1e-6):
            ctx.count("rescaled by an update")
        A = A2
        ctx.check(len(before) == len(amg.levels), "update %d changed the number of levels" % (u + 1))
        inspect(ctx, case, amg, A, u + 1)


def inspect(ctx, case, amg, A, u):
    L = load(); torch = L["torch"]
    levels = amg.levels
    n = A.shape[0]
    where = "after the build" if u == 0 else "after update %d" % u
    ctx.check(1 <= len(levels) <= case["max_levels"] + 1, "%d levels with max_levels=%d" % (len(levels), case["max_levels"]))
    F = levels[0]["A"].to_dense().double().numpy()
    ctx.check(F.shape == (n, n), "the finest level has shape %s for a system of %d unknowns %s" % (F.shape, n, where))
    D = A.toarray()
    ratio = F[0, 0] / D[0, 0]
    ctx.check(ratio > 0 and np.abs(F - ratio * D).max() <= 1e-12 * np.abs(F).max(), "the finest matrix is not (a multiple of) the system %s" % where)
    for k, lev in enumerate(levels):
        M = lev["A"].to_dense().double().numpy()
        s = np.abs(M).max()
        ctx.check(np.isfinite(M).all(), "level %d holds invalid numbers %s" % (k, where))
        ctx.check(np.abs(M - M.T).max() <= 1e-11 * s, "the matrix of level %d is not symmetric %s" % (k, where), asymmetry=float(np.abs(M - M.T).max() / s))
        P = lev.get("P")
        if k == len(levels) - 1:
            ctx.check(P is None, "the last level has an interpolation %s" % where)
            break
        ctx.check(P is not None, "level %d has no interpolation but is not the last %s" % (k, where))
        P = P.to_dense().double().numpy()
        C = levels[k + 1]["A"].to_dense().double().numpy()
        ctx.check(P.shape == (M.shape[0], C.shape[0]), "the interpolation of level %d has shape %s between %d and %d unknowns %s" % (k, P.shape, M.shape[0], C.shape[0], where))
        ctx.check(C.shape[0] < M.shape[0], "level %d does not shrink (%d to %d) %s" % (k, M.shape[0], C.shape[0], where))
        ctx.check(P.min() >= 0, "the interpolation of level %d has a negative weight %.3g %s" % (k, P.min(), where))
        e = np.abs(P.sum(1) - 1).max()
        ctx.worst("row sum", e / 1e-11)
        ctx.check(e <= 1e-11, "an interpolation row of level %d sums to 1%+.3g %s" % (k, P.sum(1)[np.argmax(np.abs(P.sum(1) - 1))] - 1, where), theta=case["theta"], matrix=case["A"])
        unit = (P == 1.0) & ((P != 0).sum(1) == 1)[:, None]
        ctx.check(unit.any(0).all(), "a coarse cell of level %d does not interpolate from itself alone %s" % (k, where))
        if lev.get("coarse_nodes") is not None:
            nodes = lev["coarse_nodes"].cpu().numpy()
            ctx.check(len(nodes) == C.shape[0] and all(unit[i, j] for j, i in enumerate(nodes)), "the coarse cells of level %d are not their own interpolation rows %s" % (k, where))
        G = P.T @ M @ P
        tol = 1e-11 * (P.T @ np.abs(M) @ P) + 1e-14 * np.abs(G).max()
        d = np.abs(C - G)
        ctx.worst("Galerkin", (d / tol).max())
        ctx.check((d <= tol).all(), "the matrix of level %d is not the Galerkin product of its parent %s" % (k + 1, where), worst=float(d.max() / np.abs(G).max()), theta=case["theta"], sizes=[M.shape[0], C.shape[0]])
        ctx.check(abs(C.sum() - M.sum()) <= 1e-11 * np.abs(M).sum(), "the total of level %d changes from %.9g to %.9g %s" % (k + 1, M.sum(), C.sum(), where))
        ctx.count("levels")
        if u:
            ctx.count("levels after an update")
        if M.shape[0] > 64:
            ctx.count("levels with more than 64 rows")
        if C.shape[0] > 0.5 * M.shape[0]:
            ctx.count("orphans")
        ctx.nontrivial(case["A"]["seed"], case["theta"], u, k)
    # the cycle as a map
    r = np.random.RandomState(case["bs"] + u)
    w = np.linalg.eigvalsh(D)
    kappa = w[-1] / max(w[0], 1e-300)
    if kappa > 1e11:
        ctx.count("too ill-conditioned for the map tests"); return
    lin = 1e-9 + 1e-14 * kappa
    keep = amg.apply_tol, amg.apply_max_cycles
    try:
        for cycles in (1, 2):
            amg.apply_max_cycles = cycles
            f = lambda v: amg.apply(torch.from_numpy(v.copy()), cycles=cycles).numpy()
            x = r.randn(n); y = np.sin(np.arange(n) * 0.7) + (r.rand(n) < 0.1) * 30
            a, b = r.uniform(-3, 3), 10.0 ** r.uniform(-6, 6)
            fx, fy, fz = f(x), f(y), f(a * x + b * y)
            s = np.abs(a) * np.abs(fx).max() + b * np.abs(fy).max()
            d = np.abs(fz - a * fx - b * fy).max()
            ctx.worst("linearity", d / (lin * s))
            ctx.check(np.isfinite(fz).all() and d <= lin * s, "%d preconditioner cycle(s) are not a linear map %s" % (cycles, where), deviation=float(d / s))
            # error of A e = v, in the energy norm
            for v in (x, y):
                e0 = np.linalg.solve(D, v)
                if not np.any(e0):
                    continue
                e1 = e0 - f(v)
                q0, q1 = e0 @ D @ e0, e1 @ D @ e1
                ctx.worst("energy norm of the error", np.sqrt(max(q1, 0) / q0))
                ctx.check(q1 < q0 * (1 + 1e-14 * kappa), "%d cycle(s) do not reduce the error %s (energy norm x %.3g)" % (cycles, where, np.sqrt(q1 / q0)), settings={k: case[k] for k in ("theta", "max_levels", "coarsest_size")}, matrix=case["A"])
                ctx.count("cycles")
    finally:
        amg.apply_tol, amg.apply_max_cycles = keep
    ctx.sample({"levels": [int(l["A"].shape[0]) for l in levels], "update": u})
