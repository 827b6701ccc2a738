"""Random pressure-like matrices: symmetric positive definite M-matrices of grids and graphs, at any scale, in any sparse layout."""
import numpy as np
import scipy.sparse as sp
import gen


def spec(rng, nmax=150, n=None, kind=None):
    """JSON description of a matrix; n fixes the size"""
    kind = kind or rng.choice(["grid", "grid", "grid", "graph", "line", "pieces", "diag"])
    s = {"kind": kind, "seed": rng.randrange(10 ** 6), "sd": rng.choice([0.0, 0.5, 1.0, 2.0, 3.0]),
         "acc": rng.choice([1.0, 0.1, 1e-2, 1e-3, 1e-5, 1e-6]), "scale": 10.0 ** rng.choice([-22, -15, -12, -9, -7, -6, -5, -3, 0, 2, 6]),
         "aniso": [rng.choice([1.0, 1.0, 10.0, 0.01]) for _ in range(3)], "wells": rng.choice([0, 0, 1, 3])}
    if rng.random() < 0.15:
        s["vol"] = True      # cells of different size: accumulation varies over orders of magnitude
    if rng.random() < 0.1:
        s["tight"] = 0.2     # rock without permeability: rows with a diagonal only
    if n is None:
        while True:
            d = [rng.choice([1, 2, 3, 4, 5, 7, 9, 13]) for _ in range(3)]
            n = d[0] * d[1] * d[2]
            if 1 <= n <= nmax:
                break
        if kind == "grid":
            s["d"] = d
    elif kind == "grid":
        f = [(a, b, n // (a * b)) for a in range(1, n + 1) if n % a == 0 for b in range(1, n // a + 1) if (n // a) % b == 0]
        s["d"] = list(rng.choice(f))
    s["n"] = n
    return s


def edges(s, r):
    n = s["n"]
    if s["kind"] == "grid":
        d = s["d"]; idx = np.arange(n).reshape(d); E = []; T = []
        k = np.exp(s["sd"] * r.randn(n))
        if s.get("tight"):
            k[r.rand(n) < s["tight"]] = 0
        for ax in range(3):
            a = idx.take(range(d[ax] - 1), ax).ravel(); b = idx.take(range(1, d[ax]), ax).ravel()
            E.append(np.stack([a, b])); T.append(np.where(k[a] * k[b] > 0, 2 * k[a] * k[b] / np.maximum(k[a] + k[b], 1e-300), 0) * s["aniso"][ax])
        return np.concatenate(E, 1), np.concatenate(T)
    if s["kind"] == "line":
        a = np.arange(n - 1); return np.stack([a, a + 1]), np.exp(s["sd"] * r.randn(n - 1))
    if s["kind"] == "diag":
        return np.zeros((2, 0), dtype=int), np.zeros(0)
    if s["kind"] == "pieces":    # several disconnected lines
        a = np.array([i for i in range(n - 1) if (i + 1) % 7], dtype=int)
        return np.stack([a, a + 1]) if len(a) else np.zeros((2, 0), dtype=int), np.exp(s["sd"] * r.randn(len(a)))
    m = max(1, 2 * n)            # random graph
    a = r.randint(0, n, m); b = r.randint(0, n, m); keep = a != b
    lo, hi = np.minimum(a, b)[keep], np.maximum(a, b)[keep]
    u = np.unique(lo * n + hi)
    return np.stack([u // n, u % n]), np.exp(s["sd"] * r.randn(len(u)))


def matrix(s):
    r = np.random.RandomState(s["seed"])
    n = s["n"]
    E, T = edges(s, r)
    if s.get("drop"):
        T = np.where(r.rand(len(T)) < s["drop"], 0.0, T)
    keep = T > 0
    E, T = E[:, keep], T[keep]
    dg = np.zeros(n)
    np.add.at(dg, E[0], T); np.add.at(dg, E[1], T)
    ref = np.median(dg[dg > 0]) if (dg > 0).any() else 1.0
    acc = np.full(n, s["acc"] * ref)
    if s.get("vol"):
        acc = acc * 10.0 ** r.uniform(-1, 1, n)
    for _ in range(s.get("wells", 0)):
        acc[r.randint(n)] += ref * 10.0 ** r.uniform(-2, 1)
    A = sp.coo_matrix((np.r_[-T, -T, dg + acc] * s["scale"], (np.r_[E[0], E[1], np.arange(n)], np.r_[E[1], E[0], np.arange(n)])), shape=(n, n))
    return A.tocsr()


def torch_matrix(A, layout, dtype, torch):
    t = {"float64": torch.float64, "float32": torch.float32}[dtype]
    if layout == "dense":
        return torch.from_numpy(A.toarray()).to(t)
    if layout in ("coo", "coo_dup"):
        C = A.tocoo()
        idx = np.stack([C.row, C.col]).astype(np.int64); v = C.data
        if layout == "coo_dup":        # uncoalesced: every entry split in two
            idx = np.concatenate([idx, idx], 1); v = np.r_[0.5 * v, 0.5 * v]
            return torch.sparse_coo_tensor(torch.from_numpy(idx), torch.from_numpy(v).to(t), A.shape)
        return torch.sparse_coo_tensor(torch.from_numpy(idx), torch.from_numpy(v).to(t), A.shape).coalesce()
    C = A.tocsr(); C.sort_indices()
    return torch.sparse_csr_tensor(torch.from_numpy(C.indptr.astype(np.int64)), torch.from_numpy(C.indices.astype(np.int64)), torch.from_numpy(C.data).to(t), size=A.shape)


def rhs(s, n, seed):
    r = np.random.RandomState(seed)
    kind = s
    if kind == "random":
        return r.randn(n)
    if kind == "point":
        b = np.zeros(n); b[r.randint(n)] = 1.0; return b
    if kind == "const":
        return np.ones(n)
    if kind == "smooth":
        return np.sin(np.linspace(0, 3, n)) + 2
    return np.zeros(n)
