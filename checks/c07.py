"""C07: results do not depend on axis orientation, well order or disconnected neighbours."""
import copy
import numpy as np
import gen
from oil import load, build, state, transform_case, apply_transform, case_fields, eff_dims
from ref import Model
from sat import explicit, mode_options

PROP = "C07"
RULE = ("Random reservoirs with wells run a few steps in two descriptions of the same problem: mirrored in x and/or y, x and y exchanged (with spacings and "
        "directional permeabilities), wells listed in another order, or one part of a grid cut off by impermeable cells against that part alone. Fields, reported "
        "well rates and both balances must agree after transforming back. Non-trivial: the fields are not symmetric themselves and moved.")
ASSUMPTIONS = ["steps in which a pressure difference that selects an upstream cell is within rounding of zero, or a saturation window is hit, are not compared further"]
PLAN = {"quick": {"n": 3000, "seconds": 60}, "thorough": {"n": None, "seconds": 600}}
REQUIRED = {"steps compared": 500, "mirror": 100, "swap": 100, "order": 50, "parts": 50, "rates compared": 50}


def prepare():
    load()


def case(rng, idx, tier):
    kind = ["mirror", "swap", "order", "parts", "mirror", "swap"][idx % 6]
    c = gen.base(rng, maxn=120 if tier == "quick" else 500)
    ini = c["init"]
    if ini["dP"] == 0:
        ini["dP"] = rng.choice([0.05, 0.5])
    if c["dims"][2] > 1 and "hydro" not in ini:
        ini["hydro"] = 800.0
    if kind == "mirror":
        c["tr"] = rng.choice([["mx"], ["my"], ["mx", "my"]])
        ax = 0 if "mx" in c["tr"] else 1
        c["dims"][ax] = max(c["dims"][ax], 2)
    elif kind == "swap":
        c["tr"] = rng.choice([["swap"], ["mx", "swap"]])
    elif kind == "parts":
        ax = rng.choice([0, 1])
        c["dims"][ax] = rng.choice([3, 5, 7, 9])
        if c["dims"][0] * c["dims"][1] * c["dims"][2] > 300:
            c["dims"][2] = 1
        c["walls"] = [[ax, rng.randrange(1, c["dims"][ax] - 1)]]
        c.setdefault("het", {"seed": rng.randrange(10 ** 6), "k": 0.5})
    c["kind"] = kind
    gen.add_wells(rng, c, nmax=5, surface=bool(c.get("pvt")), limits=bool(c.get("pvt")), bhp_min=True)
    if kind == "order" and len(c["wells"]) < 2:
        c["wells"].append(gen.well(rng, c, 9))
    if kind == "order":
        c["perm_seed"] = rng.randrange(10 ** 6)
        if rng.random() < 0.5:
            for w in c["wells"][1:3]:
                w["coordinates"] = list(c["wells"][0]["coordinates"])
    if kind == "parts":
        ax, p = c["walls"][0]
        for w in c["wells"]:
            if w["coordinates"][ax] == p:
                w["coordinates"][ax] = p - 1
    c["dt"] = [c["dt"][0] * 0.3] * rng.choice([1, 2, 3, 5])
    if rng.random() < 0.3:
        c["sim"].update(pressure_solver="amg", amg={"tol": 1e-12, "max_cycles": 100})
    return c


def ambiguous(M, case, st):
    """A face whose old pressure difference has no clear sign while the two cells differ."""
    for ax in range(3):
        if M.PV.shape[ax] < 2:
            continue
        d = np.abs(M.lo(st["P"], ax) - M.hi(st["P"], ax))
        if ((d < 60) & (M.T[ax] > 0)).any():
            return True
    return False


def sub(case, F, ax, a, b):
    sl = [slice(None)] * 3; sl[ax] = slice(a, b)
    f = {k: np.ascontiguousarray(v[tuple(sl)]) for k, v in F.items()}
    c = copy.deepcopy(case)
    c["dims"] = list(case["dims"]); c["dims"][ax] = b - a
    ws = []
    for w in case["wells"]:
        if a <= w["coordinates"][ax] < b:
            w = copy.deepcopy(w); w["coordinates"][ax] -= a
            ws.append(w)
    c["wells"] = ws
    return c, f


def run(case, ctx):
    kind = case["kind"]
    M = Model(case)
    A = build(case, ctx)
    names = [w["name"] for w in case["wells"]]
    back = []
    if kind in ("mirror", "swap"):
        c2 = transform_case(case, case["tr"])
        inv = list(case["tr"])
        # inverse: undo swap first, then mirrors in the original axes
        def undo(a, tr=case["tr"]):
            if "swap" in tr:
                a = np.transpose(a, (1, 0, 2))
            if "mx" in tr:
                a = a[::-1]
            if "my" in tr:
                a = a[:, ::-1]
            return a
        sims = [(build(c2, ctx), undo, names)]
    elif kind == "order":
        c2 = copy.deepcopy(case)
        np.random.RandomState(case["perm_seed"]).shuffle(c2["wells"])
        sims = [(build(c2, ctx), lambda a: a, [w["name"] for w in c2["wells"]])]
    else:
        F = case_fields(case)
        ax, p = case["walls"][0]
        sims = []
        for a, b in ((0, p), (p + 1, case["dims"][ax])):
            if b > a:
                c2, f = sub(case, F, ax, a, b)
                c2["walls"] = []
                sl = [slice(None)] * 3; sl[ax] = slice(a, b)
                sims.append((build(c2, ctx, fields=f), None, [w["name"] for w in c2["wells"]], tuple(sl)))
    ctx.count(kind)
    start = state(A)
    rel = 0.0       # how much the mobilities of the descriptions already differ, after the differences accepted in earlier steps
    for n, d in enumerate(case["dt"]):
        dt = d * 86400.0
        st = state(A)
        if ambiguous(M, case, st):
            ctx.count("ambiguous upstream"); return
        oks = [A.run_step(dt)] + [s[0].run_step(dt) for s in sims]
        if not all(oks):
            if kind != "parts":
                ctx.check(len(set(oks)) == 1, "step %d succeeds in one description and fails in the other" % n)
            ctx.count("failed steps"); return
        new = state(A)
        opts = mode_options(M, case, st)
        if len(opts) > 1:
            ctx.count("ambiguous bhp switch"); return
        r = explicit(M, case, st, new, dt, opts[0])
        if not r["clean"].all():
            if kind == "parts":
                ctx.count("window hit"); return
            # a window is hit: results must still correspond, up to rounding that the windows may amplify
        dPmax = np.abs(new["P"] - st["P"]).max()
        tolP = (4e-4 + 2 * rel) * dPmax + 30.0
        # saturations follow pressure errors through the fluxes
        for s in sims:
            n2 = state(s[0])
            for key in ("P", "sw", "sg", "so"):
                a = new[key] if len(s) == 3 else new[key][s[3]]
                b = s[1](n2[key]) if s[1] else n2[key]
                ctx.check(a.shape == b.shape, "shapes differ")
                dev = np.abs(a - b)
                if key == "P":
                    t = np.full(a.shape, tolP * (n + 1))
                else:
                    ds = max(np.abs(new["sw"] - st["sw"]).max(), np.abs(new["sg"] - st["sg"]).max())
                    flux = r["sw_part_w"] + r["sw_part_g"]
                    t = (n + 1) * (1e-5 + 3e-4 * ds + (3e-4 + 2 * rel) * flux.max() + noise_sat(M, case, r, dt))
                    t = np.full(a.shape, t)
                if key != "P" and t.max() > 2e-2:
                    ctx.count("too stiff to compare"); return
                ctx.worst(kind + " " + ("P" if key == "P" else "S"), (dev / t).max())
                if (dev > t).any():
                    c = tuple(int(x) for x in np.unravel_index((dev / t).argmax(), dev.shape))
                    ctx.fail("step %d: %s: %s of cell %s is %.9g in one description and %.9g in the other" % (n, describe(case), key, list(c), a[c], b[c]))
        if r["loose"].all():
            rates(case, ctx, A, sims, names, M, n, rel)
        rel = 0.0
        m, _ = M.mob(new["sw"], new["sg"], new["P"])
        for s in sims:
            n2 = state(s[0])
            b = {key: s[1](n2[key]) if s[1] else n2[key] for key in ("P", "sw", "sg")}
            if len(s) == 4:
                full = {key: np.array(new[key]) for key in b}
                for key in b:
                    full[key][s[3]] = b[key]
                b = full
            m2, _ = M.mob(b["sw"], b["sg"], b["P"])
            rel = max(rel, float((np.abs(m["t"] - m2["t"]) / np.minimum(m["t"], m2["t"])).max()))
        ctx.count("steps compared")
        if dPmax > 1e3:
            ctx.nontrivial(kind, case["dims"], case["perm"], n)
            ctx.sample({"kind": describe(case), "dims": case["dims"], "wells": len(names), "dPmax": dPmax})


def noise_sat(M, case, r, dt):
    """What pressure rounding (4 Pa) may change a saturation by."""
    t = np.zeros_like(M.PV)
    for p in "wg":
        for ax in range(3):
            if M.PV.shape[ax] > 1:
                e = M.T[ax] * np.maximum(M.lo(r["m"][p], ax), M.hi(r["m"][p], ax)) * 8.0
                M.add_lo(t, ax, e); M.add_hi(t, ax, e)
    for w in case["wells"]:
        if w["control"]["type"] == "bhp" or w.get("bhp_min") is not None:
            c = tuple(w["coordinates"])
            t[c] += M.wi(w) * r["m"]["t"][c] * 8.0
    return float((t * dt / M.PV).max())


def describe(case):
    return {"mirror": "mirrored %s" % case.get("tr"), "swap": "axes exchanged %s" % case.get("tr"), "order": "wells listed in another order",
            "parts": "disconnected part alone"}[case["kind"]]


def rates(case, ctx, A, sims, names, M, n, rel):
    wa = {w.name: w for w in A.well_manager.get_wells()}
    for s in sims:
        for w in s[0].well_manager.get_wells():
            a = wa[w.name]
            ra, rb = getattr(a, "last_surface_rates", None) or {}, getattr(w, "last_surface_rates", None) or {}
            ctx.check(set(ra) == set(rb), "step %d: %s reports %s in one description and %s in the other" % (n, w.name, sorted(ra), sorted(rb)))
            big = max([abs(v) for v in ra.values()] + [1e-9])
            qa, qb = a.last_q_total, w.last_q_total
            ctx.check((qa is None) == (qb is None), "step %d: total rate of %s reported in one description only" % (n, w.name))
            if qa is not None:
                dev = abs(qa - qb) / ((0.003 + 2 * rel) * max(abs(qa), abs(qb)) + 1e-7)
                ctx.worst("rate", dev)
                ctx.check(dev <= 1, "step %d: %s: total rate of %s is %.6g and %.6g" % (n, describe(case), w.name, qa, qb))
                ctx.count("rates compared")
