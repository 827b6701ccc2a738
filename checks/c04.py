"""C04: reservoir-rate wells add / take exactly their configured volume and phase in their own cell."""
import numpy as np
import gen
from oil import load, build, state
from ref import Model
from sat import compare

PROP = "C04"
RULE = ("Two kinds of cases with reservoir-rate wells (several per cell, rate scale, PVT on/off, no-flow or flowing rock, several steps). Isolated cells "
        "(zero permeability): every cell's water and gas change must be the wells' volume times step over pore volume, exactly when it fits the windows, "
        "never more and never of the other sign when it does not, and nothing elsewhere. Flowing rock: every cell equals fluxes plus wells, and "
        "the volumes summed over the grid equal the wells' volumes. Non-trivial: a well moved a saturation by more than 100 tolerances.")
ASSUMPTIONS = ["how much an availability choke takes away is only bounded (C13, C14 decide reported rates)"]
PLAN = {"quick": {"n": 6000, "seconds": 60}, "thorough": {"n": None, "seconds": 600}}
REQUIRED = {"isolated steps": 200, "exact wells": 300, "choked wells": 30, "shared cells": 30, "global balances": 100, "gas injectors": 50, "producers": 200}


def prepare():
    load()


def case(rng, idx, tier):
    iso = idx % 2 == 0
    c = gen.base(rng, maxn=150 if tier == "quick" else 600, pc=not iso)
    gen.add_wells(rng, c, nmax=5, kinds=("inj", "prod"), frac=rng.choice([None, None, 0.02, 0.3]))
    c["dt"] = [c["dt"][0]] * rng.choice([1, 2, 4])
    if rng.random() < 0.4:
        s = c["sim"]["global_rate_scale"] = rng.choice([0.1, 0.5, 2.0, 3.0])
    c["iso"] = iso
    if iso:
        c["het"] = {"seed": 1, "zero": 1.1, "phi": rng.random() < 0.5}
        c["fluid"]["c_rock"] = 0.01
    elif rng.random() < 0.5:
        c["dt"] = [x * 0.1 for x in c["dt"]]
        for w in c["wells"]:
            w["control"]["value"] = gen.rnd(w["control"]["value"] * 10)
    if iso and rng.random() < 0.1:    # an injector into a cell whose water is below critical
        c["init"]["sw"] = gen.rnd(0.4 * c["fluid"]["relative_permeability"]["sw_cr"]); c["init"]["dsw"] = 0.0
        c["wells"] = [w for w in c["wells"] if w["type"] == "injector"]
        for w in c["wells"]:
            w["control"]["value"] = gen.rnd(w["control"]["value"] * rng.choice([1, 10, 100]))
    if rng.random() < 0.12:          # a trace of gas ahead of a front
        c["init"]["sg"] = 10 ** rng.uniform(-25, -6); c["init"]["dsg"] = 0.0
        c["fluid"]["relative_permeability"]["sg_cr"] = 0.0
    if rng.random() < 0.2:
        c["sim"]["max_substeps"] = rng.choice([1, 3, 50])
    gen.stretch(rng, c)
    return c


def run(case, ctx):
    sim = build(case, ctx)
    M = Model(case)
    for n, d in enumerate(case["dt"]):
        st = state(sim); dt = d * 86400.0
        if not sim.run_step(dt):
            ctx.count("failed steps"); return
        new = state(sim)
        (isolated if case.get("iso") else flowing)(case, ctx, M, st, new, dt, n)


def isolated(case, ctx, M, st, new, dt, n):
    ctx.count("isolated steps")
    m, me = M.mob(st["sw"], st["sg"], new["P"])
    cells = {}
    for w in case["wells"]:
        cells.setdefault(tuple(w["coordinates"]), []).append(w)
    d = {"w": new["sw"] - st["sw"], "g": new["sg"] - st["sg"]}
    rest = np.ones(M.PV.shape, bool)
    for c in cells:
        rest[c] = False
    for p in "wg":
        if rest.any():
            ctx.worst("other cells", np.abs(d[p][rest]).max() / 1.5e-7)
            ctx.check(np.abs(d[p][rest]).max() <= 1.5e-7, "step %d: a cell without wells or neighbours changed by %.3g" % (n, np.abs(d[p][rest]).max()))
    for c, ws in cells.items():
        Sw, Sg, PV = float(st["sw"][c]), float(st["sg"][c]), float(M.PV[c])
        room = max(0.0, 1 - M.sor - Sw - Sg)
        pos, neg, tot, tol = {"w": 0.0, "g": 0.0}, {"w": 0.0, "g": 0.0}, {"w": 0.0, "g": 0.0}, {"w": 2.6e-6, "g": 2.6e-6}
        free = True
        for w in ws:
            q = w["control"]["value"] * M.scale / 86400.0 * dt / PV
            if w["type"] == "injector":
                p = "g" if w.get("injected_phase", "water") == "gas" else "w"
                pos[p] += q; tol[p] += 3e-6 * q
                free &= q <= room * (1 - 1e-4) - 1e-6
                ctx.count("gas injectors" if p == "g" else "water injectors")
            else:
                ctx.count("producers")
                mt = float(m["t"][c]) + 1e-10
                for p, S, cr in (("w", Sw, M.swc), ("g", Sg, M.sgc)):
                    f = float(m[p][c]) / mt
                    fe = (float(me[p][c]) + f * float(me["t"][c])) / mt
                    neg[p] -= q * f; tol[p] += q * (fe + 3e-6 * f)
                    if float(m[p][c]) * float(M.mu(p, np.array([new["P"][c]]))[0]) > 1e-46:
                        free &= q * (f + fe) <= max(0.0, S - cr) * 0.999
        for p in "wg":
            tot[p] = pos[p] + neg[p]
        wmin, gmin, omin = min(Sw, M.swc), min(Sg, M.sgc), min(1 - Sw - Sg, M.sor)
        e = tol["w"] + tol["g"]
        fits = free and (Sw + tot["w"] > wmin + e or tot["w"] >= 0) and (Sg + tot["g"] > gmin + e or tot["g"] >= 0) and \
            (1 - Sw - Sg - tot["w"] - tot["g"] > omin + e or tot["w"] + tot["g"] <= 0)
        if len(ws) > 1:
            ctx.count("shared cells")
        if len(ws) == 1 and ws[0]["type"] == "injector":     # a lone injector fills what room there is
            p = "g" if ws[0].get("injected_phase", "water") == "gas" else "w"
            want = min(pos[p], room); got = float(d[p][c])
            ctx.worst("lone injectors", abs(got - want) / tol[p])
            ctx.check(abs(got - want) <= tol[p], "step %d: cell %s: an injector of %.7g cell volumes changed saturation by %.7g; there is room for %.7g" % (n, list(c), pos[p], got, room), wells=ws)
            ctx.count("lone injectors")
        for p, name in (("w", "water"), ("g", "gas")):
            got = float(d[p][c])
            if fits:
                dev = abs(got - tot[p]) / tol[p]
                ctx.worst("exact", dev)
                ctx.check(dev <= 1, "step %d: cell %s: wells should change %s saturation by %.7g, it changed by %.7g" % (n, list(c), name, tot[p], got), wells=ws)
            else:
                lo, hi = neg[p] - tol[p], pos[p] + tol[p]
                if not (lo <= got <= hi):
                    # the rise of one phase can only be displaced by the other where both compete for the same room
                    other = "g" if p == "w" else "w"
                    squeezed = p == "w" and got < lo and pos[other] > 0
                    ctx.check(squeezed and got >= wmin - Sw - 2e-6, "step %d: cell %s: choked wells changed %s saturation by %.7g, outside %.7g .. %.7g they may add" % (n, list(c), name, got, lo, hi), wells=ws)
                    ctx.count("displaced by the other phase")
        if fits:
            ctx.count("exact wells", len(ws))
            if max(abs(tot["w"]) / tol["w"], abs(tot["g"]) / tol["g"]) > 50:
                ctx.nontrivial("iso", case["perm"], n, c)
                ctx.sample({"cell": list(c), "wells": ws, "expected": tot, "got": {p: float(d[p][c]) for p in "wg"}})
        else:
            ctx.count("choked wells", len(ws))


def flowing(case, ctx, M, st, new, dt, n):
    ctx.count("flowing steps")
    worst, rw, rg, r = compare(M, case, st, new, dt)
    cells = sorted({tuple(w["coordinates"]) for w in case["wells"]})
    ctx.worst("cells", worst)
    if worst > 1:
        rr = np.where(r["loose"], np.maximum(rw, rg), 0)
        c = tuple(int(x) for x in np.unravel_index(rr.argmax(), rr.shape))
        ctx.fail("step %d: cell %s%s: water changed by %.6g, gas by %.6g; fluxes plus wells give %.6g, %.6g (%.3g x tolerance)" %
                 (n, list(c), " (with a well)" if c in cells else "", new["sw"][c] - st["sw"][c], new["sg"][c] - st["sg"][c], r["dw"][c], r["dg"][c], worst))
    for a in r["acts"]:
        want = None
    if r["loose"].all() and (r["tw"] + r["tg"]).max() < 1e-3:
        base = 1.3e-7 * (r["N"] + 3)
        for p, key in (("w", "sw"), ("g", "sg")):
            got = ((new[key] - st[key]) * M.PV).sum()
            want = float((r["q"][p] * dt).sum())
            tol = (M.PV * (base + 6e-7 * r["sw_part_" + p] + 2 * r["cut"][p])).sum() + 2 * float((r["qe"][p] * dt).sum()) + 1e-6 * abs(want)
            dev = abs(got - want) / tol
            ctx.worst("global", dev)
            ctx.check(dev <= 1, "step %d: wells add %.6g m3 of %s to the grid, the grid gained %.6g m3" % (n, want, key, got))
            if abs(want) > 50 * tol:
                ctx.nontrivial("flow", case["perm"], n, key)
        ctx.count("global balances")
    # configured volume: reference rates that are not choked equal the configured ones
    for w, a in zip(case["wells"], r["acts"]):
        q = w["control"]["value"] * M.scale / 86400.0
        ctx.check(abs(a["q"]) <= q * (1 + 1e-5), "harness: reference rate above the configured one")
