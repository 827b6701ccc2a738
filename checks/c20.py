"""C20: the multigrid solver solves the system it is given."""
import numpy as np
import gen, mat
from oil import load

PROP = "C20"
RULE = ("Random symmetric positive definite M-matrices (grids, graphs, lines, disconnected pieces, rock without permeability; contrast, anisotropy, accumulation down to 1e-6, scale 1e-22..1e6; COO, uncoalesced COO, CSR and dense layouts; "
        "float32/float64) solved in chains sharing a cache with other systems of the same and of other sizes: the true residual in float64 must meet the tolerance, dtype kept, arguments untouched. "
        "Non-trivial: a solve with a non-zero right-hand side, distinct by matrix, settings and history position.")
ASSUMPTIONS = ["single-precision inputs are compared up to the rounding of the matrix and of the returned vector", "with 2000 cycles allowed (enough for every generated matrix when its hierarchy is its own)"]
PLAN = {"quick": {"n": 1000, "seconds": 60}, "thorough": {"n": None, "seconds": 600}}
REQUIRED = {"solves": 500, "after another system of the same size": 200, "float32": 300, "more than 500 unknowns": 3, "tiny scale": 300, "multi-level": 200, "zero right-hand side": 20}


def prepare():
    load()
    import solver.pressure_amg


def case(rng, idx, tier):
    big = rng.random() < (0.012 if tier == "quick" else 0.03)
    n0 = None
    chain = []
    settings = [{"theta": rng.choice([0.05, 0.1, 0.25, 0.5, 0.9]), "max_levels": rng.choice([1, 2, 3, 10]), "coarsest_size": rng.choice([1, 2, 5, 20, 200, 1000])} for _ in range(2)]
    for k in range(rng.choice([1, 2, 3, 4] if not big else [1, 2])):
        if big:
            s = mat.spec(rng, n=n0 or rng.choice([504, 550, 640]), kind=rng.choice(["grid", "line", "graph"]))
        elif n0 and rng.random() < 0.8:
            s = mat.spec(rng, n=n0)
        else:
            s = mat.spec(rng, nmax=130)
        n0 = n0 or s["n"]
        if s["kind"] != "grid":
            s["sd"] = min(s["sd"], 1.0); s["acc"] = max(s["acc"], 1e-5)
        if k and rng.random() < 0.3:      # the same kind of system at another step: same pattern, other values
            s = dict(chain[-1]["A"], seed=chain[-1]["A"]["seed"], acc=s["acc"], scale=s["scale"], wells=s["wells"])
        if k and rng.random() < 0.1:
            s = dict(chain[0]["A"])
        chain.append({"A": s, "b": rng.choice(["random", "random", "point", "const", "smooth", "zero" if rng.random() < 0.3 else "random"]), "bs": rng.randrange(10 ** 6),
                      "bscale": 10.0 ** rng.choice([-12, -6, 0, 7]), "tol": rng.choice([1e-3, 1e-6, 1e-8, 1e-10]),
                      "layout": rng.choice(["coo", "coo", "coo_dup", "csr", "dense"]), "dtype": rng.choice(["float64", "float64", "float32"]), "bdtype": rng.choice(["float64", "float64", "float32"]),
                      "set": rng.choice([0, 0, 0, 1]), "device": rng.choice(["cpu", "auto", None])})
    return {"chain": chain, "settings": settings}


def run(case, ctx):
    L = load(); torch = L["torch"]
    from solver.pressure_amg import amg_solve
    seen = []
    for k, c in enumerate(case["chain"]):
        S = case["settings"][c["set"]]
        A0 = mat.matrix(c["A"]); n = A0.shape[0]
        if c["dtype"] == "float32" and c["A"]["scale"] < 1e-15:
            A0 = A0 * 1e12                       # single precision cannot hold entries near its underflow
        T = mat.torch_matrix(A0, c["layout"], c["dtype"], torch)
        Ad = (T.to_dense() if T.layout != torch.strided else T).double().numpy()     # the system as given
        b = mat.rhs(c["b"], n, c["bs"]) * c["bscale"]
        tb = torch.from_numpy(b).to({"float64": torch.float64, "float32": torch.float32}[c["bdtype"]])
        b = tb.double().numpy().copy()
        tol = c["tol"]
        if c["dtype"] == "float32":              # rounding may cost a float32 matrix its definiteness
            w = np.linalg.eigvalsh(Ad)
            if w[0] < 1e-7 * w[-1]:
                ctx.count("skipped: singular in float32"); continue
        x = amg_solve(T, tb, tol=tol, max_cycles=2000, theta=S["theta"], max_levels=S["max_levels"], coarsest_size=S["coarsest_size"], device=c["device"])
        ctx.check(x.shape == tb.shape, "solve %d returned shape %s for a right-hand side of shape %s" % (k, tuple(x.shape), tuple(tb.shape)))
        ctx.check(x.dtype == tb.dtype, "solve %d returned %s for a %s right-hand side" % (k, x.dtype, tb.dtype))
        ctx.check(np.array_equal((T.to_dense() if T.layout != torch.strided else T).double().numpy(), Ad), "solve %d modified the matrix" % k)
        ctx.check(np.array_equal(tb.double().numpy(), b), "solve %d modified the right-hand side" % k)
        xn = x.double().numpy()
        ctx.check(np.isfinite(xn).all(), "solve %d returned invalid numbers" % k, settings=S, case=c)
        r = b - Ad @ xn
        eps = 6e-8 if c["bdtype"] == "float32" else 2e-16
        allow = tol * np.linalg.norm(b) * (1 + 1e-6) + np.linalg.norm(eps * 8 * (np.abs(Ad) @ np.abs(xn))) + 1e-300
        dev = np.linalg.norm(r) / allow
        if dev > 1 and c["dtype"] == c["bdtype"] == "float64":
            # not enough cycles for this (ill-conditioned) system?  then twice as many must come closer
            x2 = amg_solve(T, tb, tol=tol, max_cycles=4000, theta=S["theta"], max_levels=S["max_levels"], coarsest_size=S["coarsest_size"], device=c["device"]).double().numpy()
            e1, e2 = (np.linalg.solve(Ad, b) - v for v in (xn, x2))
            q1, q2 = np.sqrt(max(e1 @ Ad @ e1, 0)), np.sqrt(max(e2 @ Ad @ e2, 0))
            if np.linalg.norm(b - Ad @ x2) <= allow or q2 < 0.97 * q1:
                ctx.count("converging slowly"); seen.append((n, c["set"])); continue
        ctx.worst("residual", dev)
        ctx.check(dev <= 1, "solve %d of %d: relative residual %.3g misses the requested %.0e" % (k, len(case["chain"]), np.linalg.norm(r) / max(np.linalg.norm(b), 1e-300), tol), n=n, settings=S, matrix=c["A"], before=[s for s in seen])
        ctx.count("solves")
        if not np.any(b):
            ctx.count("zero right-hand side")
        else:
            ctx.nontrivial(c["A"]["seed"], c["A"]["scale"], c["A"]["acc"], c["set"], k)
        if (n, c["set"]) in seen:
            ctx.count("after another system of the same size")
        seen.append((n, c["set"]))
        if n > 500:
            ctx.count("more than 500 unknowns")
        if "float32" in (c["dtype"], c["bdtype"]):
            ctx.count("float32")
        if np.median(A0.diagonal()) < 1e-6:
            ctx.count("tiny scale")
        if n > S["coarsest_size"] and S["max_levels"] > 1 and c["A"]["kind"] != "diag":
            ctx.count("multi-level")
        ctx.sample({"n": n, "settings": S, "residual/allowed": float(dev)})
