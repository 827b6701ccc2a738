"""C11: PVT table interpolation and validation."""
import json, os
import numpy as np
import gen
from oil import load, f64, SRC

PROP = "C11"
RULE = ("Random tables (1-1100 nodes, uneven spacing, monotone, plateau and erratic columns, with and without vaporised oil) written to a file and evaluated on arrays of several shapes and precisions "
        "rows in ascending, descending or arbitrary pressure order; at nodes, next to nodes, between and far outside; every value is compared with an independent piecewise-linear interpolant, single-value calls with array calls. "
        "Damaged copies (each column shortened, lengthened, emptied or missing) must be refused. Non-trivial: table with at least 3 nodes in which interior, node and clamped values were compared.")
ASSUMPTIONS = ["no pressure occurs twice in a table"]
PLAN = {"quick": {"n": 4000, "seconds": 40}, "thorough": {"n": None, "seconds": 300}}
REQUIRED = {"values": 500000, "node values": 50000, "clamped values": 50000, "refused tables": 3000, "tables without Rv": 300, "fluid fields": 200, "unordered tables": 300, "long tables": 30}
COLS = ["Bo", "Bw", "Bg", "mu_o_cP", "mu_w_cP", "mu_g_cP", "Rs_m3m3", "Rv_m3m3"]
OUT = dict(zip(COLS, ["Bo", "Bw", "Bg", "mu_o", "mu_w", "mu_g", "Rs", "Rv"]))


def prepare():
    load()
    import simulator.pvt


def case(rng, idx, tier):
    if rng.random() < 0.5:
        t = gen.pvt_table(rng)
    else:
        n = rng.choice([1, 2, 3, 5, 10, 40]) if rng.random() > 0.04 else rng.choice([70, 130, 300, 1100])
        P, p = [], rng.uniform(0.01, 5)
        for _ in range(n):
            P.append(p); p += rng.choice([1e-3, 0.1, 1.0, 10.0]) * rng.uniform(0.2, 2)
        t = {"pressure_MPa": P}
        for c in COLS:
            if c == "Rv_m3m3" and rng.random() < 0.4:
                continue
            v = [10 ** rng.uniform(-4, 2) for _ in P]
            s = rng.random()
            if s < 0.3:
                v.sort(reverse=True)
            elif s < 0.5:
                v = [v[0]] * n
            elif s < 0.6 and n > 2:
                v[n // 2:] = [v[n // 2]] * (n - n // 2)
            t[c] = v
    if rng.random() < 0.1:
        t["units"] = {"pressure": "MPa"}; t["comment"] = "x"
    return {"table": t, "seed": rng.randrange(10 ** 6), "m": rng.choice([1, 3, 24, 120]) if rng.random() > 0.02 else 3000, "dtype": rng.choice(["f64", "f64", "f32"]),
            "shape": rng.choice(["flat", "2d", "3d", "strided"]), "fluid": rng.random() < 0.3,
            "order": rng.choice(["up", "up", "down", "shuffled"])}


def write(t, ctx, name="t.json"):
    path = os.path.join(ctx.scratch, name)
    with open(path, "w") as f:
        json.dump(t, f)
    return path


def run(case, ctx):
    from simulator.pvt import PVTTable
    t = case["table"]
    r = np.random.RandomState(case["seed"])
    disk = t
    n = len(t["pressure_MPa"])
    if case.get("order", "up") != "up" and n > 1:     # the order of the rows of the file means nothing
        o = np.arange(n)[::-1] if case["order"] == "down" else r.permutation(n)
        disk = {k: ([v[i] for i in o] if k == "pressure_MPa" or k in COLS else v) for k, v in t.items()}
        ctx.count("unordered tables")
    tab = PVTTable(write(disk, ctx))
    if n > 64:
        ctx.count("long tables")
    P = np.array(t["pressure_MPa"])
    m = case["m"]
    inside = r.uniform(P[0], P[-1], m)
    near = r.choice(P, m) + r.choice([1e-9, -1e-9, 1e-4, -1e-4], m)
    out = np.concatenate([P[0] - 10 ** r.uniform(-6, 2, m), P[-1] + 10 ** r.uniform(-6, 2, m)])
    x = np.concatenate([P, inside, near, out, [0.0]])
    r.shuffle(x)
    if case["dtype"] == "f32":
        x = x.astype(np.float32)
    if case["shape"] == "2d":
        x = x[:len(x) // 2 * 2].reshape(2, -1)
    elif case["shape"] == "3d":
        x = x[:len(x) // 4 * 4].reshape(2, -1, 2)
    elif case["shape"] == "strided":
        x = np.repeat(x, 2)[::2]
    x0 = x.copy()
    got = tab.eval(x)
    ctx.check((x == x0).all(), "eval changed its argument")
    q = x.astype(np.float64)
    again = tab.eval(x)
    for c in COLS:
        col = t.get(c, [0.0] * len(P))
        v = np.asarray(got[OUT[c]], dtype=np.float64)
        ctx.check(v.shape == x.shape, "%s has shape %s for pressures of shape %s" % (c, v.shape, x.shape))
        want = np.empty_like(q)
        for a, p in np.ndenumerate(q):          # own interpolation
            if p <= P[0]:
                want[a] = col[0]
            elif p >= P[-1]:
                want[a] = col[-1]
            else:
                k = int(np.searchsorted(P, p, side="right")) - 1
                f = (p - P[k]) / (P[k + 1] - P[k])
                want[a] = col[k] + f * (col[k + 1] - col[k])
        scale = np.abs(col).max()
        slack = 1e-9 * np.abs(want) + 1e-12 * scale
        if len(P) > 1:      # conditioning of closely spaced nodes
            slack = slack + 4e-15 * np.abs(P).max() * np.abs(np.diff(col) / np.diff(P)).max()
        e = np.abs(v - want) / (slack + 1e-300)
        ctx.worst(c, e.max() if scale else 0)
        if (np.abs(v - want) > slack).any():
            a = np.unravel_index(int(np.abs(v - want).argmax()), v.shape)
            ctx.fail("%s at %.9g MPa is %.9g, the table interpolates to %.9g" % (c, q[a], v[a], want[a]), column=col, pressure=list(P))
        ctx.check(np.array_equal(v, np.asarray(again[OUT[c]])), "%s differs between two identical calls" % c)
        ctx.count("values", v.size)
    ctx.count("node values", 8 * int(np.isin(q, P).sum())); ctx.count("clamped values", 8 * int(((q < P[0]) | (q > P[-1])).sum()))
    # one pressure at a time, and a mutated result does not reach the table
    for c in COLS:
        o = again[OUT[c]]
        if isinstance(o, np.ndarray) and o.flags.writeable:
            o[...] = -1.0
    for a in list(np.ndindex(*x.shape))[:3]:
        one = tab.eval(x[a].reshape(1))
        for c in COLS:
            ctx.check(np.asarray(one[OUT[c]]).ravel()[0] == np.asarray(got[OUT[c]])[a], "%s at %.9g MPa depends on the other pressures of the call" % (c, q[a]))
    if "Rv_m3m3" not in t:
        ctx.check((np.asarray(got["Rv"]) == 0).all(), "a missing vaporised-oil column does not read as zero"); ctx.count("tables without Rv")
    # damaged copies
    for c in r.choice(COLS, 3, replace=False):
        d = json.loads(json.dumps(t))
        how = r.choice(["short", "long", "empty", "missing", "pressure"])
        if c == "Rv_m3m3" and (how == "missing" or c not in d):
            how = "long"; d.setdefault(c, [0.1] * len(P))
        if how == "short":
            d[c] = d[c][:-1]
        elif how == "long":
            d[c] = d[c] + [d[c][-1]] * int(r.choice([1, 2, len(P)]))
        elif how == "empty":
            d[c] = []
        elif how == "missing":
            d.pop(c)
        else:
            d["pressure_MPa"] = d["pressure_MPa"] + [d["pressure_MPa"][-1] + 1.0]
        path = write(d, ctx, "bad.json")
        try:
            bad = PVTTable(path)
        except Exception as e:
            ctx.count("refused tables")
            continue
        ctx.fail("a table whose %s column is %s was accepted" % (c, how), lengths={k: len(v) for k, v in d.items() if isinstance(v, list)})
    # the fluid reads the same values
    if case["fluid"] and len(P) > 1:
        L = load(); torch = L["torch"]
        res = L["Reservoir"]({"dimensions": [2, 3, 2], "grid_size": [10.0, 10.0, 2.0], "porosity": 0.2, "permeability": 10.0}, L["cpu"])
        fl = L["Fluid"]({"pressure": 20.0, "s_w": 0.3, "pvt_path": write(disk, ctx), "rho_oil": 800.0, "rho_gas": 1.0}, res, L["cpu"])
        pp = torch.from_numpy((r.choice(x.ravel(), 12) * 1e6).reshape(2, 3, 2).astype(np.float32))
        fl.pressure = pp
        p = f64(pp) / 1e6
        for name, c, k in (("mu_o", "mu_o_cP", 1e-3), ("mu_w", "mu_w_cP", 1e-3), ("mu_g", "mu_g_cP", 1e-3)):
            v = f64(getattr(fl, name))
            cands = np.stack([np.interp(p * (1 + e), P, t[c]) for e in (0, 3e-7, -3e-7)]) * k
            lo, hi = cands.min(axis=0), cands.max(axis=0)
            slack = 1e-6 * hi + (hi - lo)
            ctx.check((v >= lo - slack).all() and (v <= hi + slack).all(), "fluid %s differs from its table" % name, got=v, want=cands[0], pressure=p)
        ctx.count("fluid fields")
    if len(P) >= 3:
        ctx.nontrivial(t)
        ctx.sample({"nodes": len(P), "pressures": [float(P[0]), float(P[-1])], "evaluated": int(x.size), "dtype": case["dtype"]})
