"""C31: the multigrid preconditioner as it is handed out."""
import numpy as np
import gen, mat
from oil import load

PROP = "C31"
RULE = ("Random symmetric positive definite M-matrices and settings; a preconditioner that is handed out is applied to smooth, oscillating, local, tiny and huge vectors in both precisions: shape and precision of the result, arguments unchanged, zero "
        "maps to zero, repeated calls agree, scaled and summed vectors map accordingly, the error in the energy norm shrinks; used in conjugate gradients it takes no more iterations than none. Refusals must be the documented error. Non-trivial: a "
        "preconditioner handed out for more than one level, distinct by matrix and settings.")
ASSUMPTIONS = ["condition number below 1e9"]
PLAN = {"quick": {"n": 800, "seconds": 40}, "thorough": {"n": None, "seconds": 400}}
REQUIRED = {"handed out": 60, "several levels": 40, "applications": 600, "single precision": 100, "conjugate gradients": 40}


def prepare():
    load()
    import solver.pressure_amg


def case(rng, idx, tier):
    s = mat.spec(rng, nmax=130 if tier == "quick" else 400, kind=rng.choice(["grid", "grid", "graph", "line", "pieces", "diag" if rng.random() < 0.2 else "grid"]))
    s["acc"] = rng.choice([1.0, 1e-1, 1e-2, 1e-4])
    return {"A": s, "kw": {k: v for k, v in {"theta": rng.choice([0.05, 0.1, 0.25, 0.5]), "max_levels": rng.choice([2, 3, 5, 10]), "coarsest_size": rng.choice([2, 5, 20, 60, 200])}.items() if rng.random() < 0.8},
            "layout": rng.choice(["csr", "coo", "csr"]), "device": rng.choice(["auto", None, "cpu"]), "bs": rng.randrange(10 ** 6)}


def run(case, ctx):
    L = load(); torch = L["torch"]
    from solver.pressure_amg import amg_preconditioner
    A = mat.matrix(case["A"])
    D = A.toarray(); n = len(D)
    w = np.linalg.eigvalsh(D)
    kappa = w[-1] / max(w[0], 1e-300)
    if kappa > 1e9:
        ctx.count("too ill-conditioned"); return
    T = mat.torch_matrix(A, case["layout"], "float64", torch)
    T0 = T.to_dense().clone()
    torch.manual_seed(case["bs"])
    try:
        M = amg_preconditioner(T, device=case["device"], **case["kw"])
    except RuntimeError as e:
        ctx.check("quality" in str(e).lower(), "the preconditioner failed: %s" % e)
        ctx.count("refused")
        return
    ctx.check(torch.equal(T.to_dense(), T0), "the matrix was changed")
    ctx.count("handed out")
    f = M["apply"]
    levels = None
    r = np.random.RandomState(case["bs"])
    point = np.zeros(n); point[r.randint(n)] = 1.0
    vs = [r.randn(n), np.ones(n), np.sin(np.arange(n) * 0.7), point, np.linspace(-1, 1, n) * 1e-12, r.randn(n) * 1e9, D @ r.randn(n)]
    call = lambda v, dt=torch.float64: f(torch.from_numpy(np.asarray(v)).to(dt))
    for k, v in enumerate(vs):
        for dt in (torch.float64, torch.float32):
            x = torch.from_numpy(v).to(dt); keep = x.clone()
            z = f(x)
            ctx.check(torch.equal(x, keep), "applying the preconditioner changed the vector")
            ctx.check(z.shape == x.shape and z.dtype == dt, "a vector of %s %s becomes %s %s" % (tuple(x.shape), x.dtype, tuple(z.shape), z.dtype))
            ctx.check(bool(torch.isfinite(z).all()), "invalid numbers after the preconditioner")
            ctx.check(torch.equal(z, f(x)), "the same vector maps to something else the second time")
            b = x.double().numpy()
            if not b.any():
                continue
            e0 = np.linalg.solve(D, b); e1 = e0 - z.double().numpy()
            q0, q1 = e0 @ D @ e0, e1 @ D @ e1
            slack = 1e-14 * kappa + (1e-12 * kappa if dt is torch.float32 else 0)
            ctx.worst("energy norm", np.sqrt(max(q1, 0) / q0))
            ctx.check(q1 < q0 * (1 + slack), "the preconditioner makes the error grow (energy norm x %.3g)" % np.sqrt(q1 / q0), vector=k, settings=case["kw"], matrix=case["A"])
            ctx.count("applications")
            if dt is torch.float32:
                ctx.count("single precision")
        c = -2.0 ** r.randint(-30, 30)              # a power of two scales exactly
        d = np.abs(call(c * v).numpy() - c * call(v).numpy()).max()
        ctx.check(d <= 1e-12 * np.abs(c * call(v).numpy()).max(), "a vector scaled by %g does not map to the scaled result" % c)
    z = call(np.zeros(n)).numpy()
    ctx.check((z == 0).all(), "zero does not map to zero")
    # of use in a Krylov method
    b = r.randn(n)
    plain, pre = cg(D, b, lambda v: v), cg(D, b, lambda v: call(v).numpy())
    ctx.worst("iterations against none", pre / max(plain, 1))
    ctx.check(pre <= plain + 1, "conjugate gradients take %d iterations with the preconditioner, %d without" % (pre, plain), settings=case["kw"], matrix=case["A"])
    ctx.count("conjugate gradients")
    if n > case["kw"].get("coarsest_size", 200):
        ctx.count("several levels"); ctx.nontrivial(case["A"]["seed"], case["kw"], n)
    ctx.sample({"n": n, "settings": case["kw"], "iterations": [plain, pre]})


def cg(D, b, M, tol=1e-8):
    x = np.zeros(len(b)); r = b.copy(); z = M(r); p = z.copy(); rz = r @ z
    for k in range(20 * len(b)):
        if np.linalg.norm(r) <= tol * np.linalg.norm(b):
            return k
        q = D @ p; a = rz / (p @ q); x += a * p; r0 = r.copy(); r -= a * q
        z = M(r); new = r @ z; beta = max(0.0, (z @ (r - r0)) / rz); rz = new; p = z + beta * p     # flexible: the number of cycles may adapt
    return 20 * len(b)
