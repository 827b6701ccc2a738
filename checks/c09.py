"""C09: relative permeability curves."""
import numpy as np
from oil import load, f64
from ref import Model
import curves

PROP = "C09"
RULE = ("Random parameter sets (Corey and Stone II, exponents 1-6, end points, critical saturations, omitted options) evaluated on arrays of 1-2000 cells in both precisions, "
        "dense around every corner of the curves; each value is compared with an independent evaluation of the configured law, then bounds, monotonicity on a sorted ladder, end points, "
        "the two-phase limit and cell independence are monitored. Non-trivial: parameter set in which all three curves took interior values.")
ASSUMPTIONS = ["exponents at least 1, sw_cr + so_r below 0.9"]
PLAN = {"quick": {"n": 8000, "seconds": 40}, "thorough": {"n": None, "seconds": 420}}
REQUIRED = {"values": 500000, "stone2 with gas": 800, "ladders": 2000, "endpoints": 2000, "permutations": 1000}


def prepare():
    load()


def case(rng, idx, tier):
    return curves.case(rng)


def run(case, ctx):
    torch = load()["torch"]
    M = Model(case, fields=dict(kx=np.ones(case["dims"]), ky=np.ones(case["dims"]), kz=np.ones(case["dims"]), phi=np.ones(case["dims"])))
    fl = curves.fluid(case, ctx)
    sw, sg = curves.samples(case, M)
    if case["shape"] == "field":
        sw, sg = sw.reshape(case["dims"]), sg.reshape(case["dims"])
    tw, tg = torch.from_numpy(sw.copy()), torch.from_numpy(sg.copy())
    w, g = f64(tw), f64(tg)
    kro, krw, krg = fl.get_rel_perms(tw, tg)
    got = dict(o=f64(kro), w=f64(krw), g=f64(krg))
    ctx.check((f64(tw) == w).all() and (f64(tg) == g).all(), "evaluating relative permeabilities changed its arguments")
    d = 4e-7 if case["dtype"] == "f32" else 1e-7
    want, err = M.kr_iv(w, g, d=d)
    end = dict(o=M.ko_w if M.stone else 1.0, w=M.krw_end, g=M.krg_end)
    rp = case["fluid"]["relative_permeability"]
    for p in "owg":
        v = got[p]
        ctx.check(v.shape == w.shape, "relative permeability of %s has shape %s for saturations %s" % (p, v.shape, w.shape))
        ctx.check(np.isfinite(v).all(), "relative permeability of %s is not finite" % p)
        ctx.check((v >= 0).all() and (v <= end[p] * (1 + 1e-6)).all(), "relative permeability of %s outside [0, %g]: [%g, %g]" % (p, end[p], v.min(), v.max()), params=rp)
        r = np.abs(v - want[p]) / (err[p] + 1e-9)
        ctx.worst("kr " + p, r.max())
        if r.max() > 1:
            a = np.unravel_index(int(r.argmax()), r.shape)
            ctx.fail("relative permeability of %s at sw=%.9g sg=%.9g is %.9g, the configured law gives %.9g" % (p, w[a], g[a], v[a], want[p][a]), params=rp)
        ctx.count("values", v.size)
    # the single-phase functions agree with the joint one; the stored gas saturation is the default
    for name, f, args, p in (("calc_water_kr", fl.calc_water_kr, (tw,), "w"), ("calc_oil_kr", fl.calc_oil_kr, (tw, tg), "o"), ("calc_gas_kr", fl.calc_gas_kr, (tg,), "g")):
        v = f64(f(*args))
        ctx.check(np.allclose(v, got[p], rtol=3e-6, atol=1e-6), "%s disagrees with get_rel_perms" % name)
    if case["shape"] == "field":
        fl.s_g = torch.from_numpy(sg.copy())
        a, b, c = fl.get_rel_perms(tw)
        for p, v in zip("owg", (a, b, c)):
            ctx.check(np.allclose(f64(v), got[p], rtol=3e-6, atol=1e-6), "relative permeability of %s with the stored gas saturation differs" % p)
        ctx.count("stored gas")
    # a cell's values do not depend on its neighbours in the array
    if w.size > 1:
        perm = np.random.RandomState(case["seed"] + 1).permutation(w.size)
        a, b, c = fl.get_rel_perms(torch.from_numpy(sw.ravel()[perm].copy()), torch.from_numpy(sg.ravel()[perm].copy()))
        for p, v in zip("owg", (a, b, c)):
            ctx.check(np.allclose(f64(v), got[p].ravel()[perm], rtol=3e-6, atol=1e-6), "relative permeability of %s depends on other cells" % p)
        ctx.count("permutations")
    # ladders
    dt = np.float32 if case["dtype"] == "f32" else np.float64
    s = np.linspace(0, 1, 400).astype(dt)
    ts = torch.from_numpy(s)
    for fixed in (0.0, 0.1, 0.3):
        o = torch.full_like(ts, fixed)
        kw = f64(fl.get_rel_perms(ts, o)[1]); ko = f64(fl.get_rel_perms(ts, o)[0]); kg = f64(fl.get_rel_perms(o, ts)[2]); ko2 = f64(fl.get_rel_perms(o, ts)[0])
        for name, v, sgn in (("water in water saturation", kw, 1), ("oil in water saturation", ko, -1), ("gas in gas saturation", kg, 1), ("oil in gas saturation", ko2, -1)):
            drop = -(np.diff(v) * sgn)
            ctx.check(drop.max() <= 1e-6, "%s: relative permeability is not monotone (%.3g the wrong way)" % (name, drop.max()), params=rp)
    ctx.count("ladders")
    # end points
    E = lambda x: torch.tensor([x], dtype=ts.dtype)
    one = lambda t: float(f64(t)[0])
    o, a, _ = fl.get_rel_perms(E(M.swc), E(0.0))
    ctx.check(one(a) <= 1e-7 ** M.nw * 4 + 1e-12 if case["dtype"] == "f32" else one(a) <= 1e-12, "water moves at its critical saturation: %g" % one(a))
    ctx.check(abs(one(o) - end["o"]) <= 1e-5 * max(1, M.no, M.now), "oil end point is %g, configured %g" % (one(o), end["o"]), params=rp)
    o, a, _ = fl.get_rel_perms(E(1 - M.sor), E(0.0))
    ctx.check(abs(one(a) - end["w"]) <= 1e-5 * max(1, M.nw), "water end point is %g, configured %g" % (one(a), end["w"]))
    ctx.check(one(o) <= 1e-6, "oil moves at residual saturation: %g" % one(o), params=rp)
    ctx.check(abs(one(fl.get_rel_perms(E(0.0), E(1 - M.swc - M.sor))[2]) - end["g"]) <= 1e-5 * max(1, M.ng), "gas end point differs from %g" % end["g"])
    ctx.check(one(fl.get_rel_perms(E(0.3), E(0.0))[2]) == 0.0, "gas moves without gas")
    below = E(max(M.swc - 0.03, 0.0))
    if M.swc > 0.03:
        ctx.check(one(fl.get_rel_perms(below, E(0.0))[1]) == 0.0, "water moves below its critical saturation")
    ctx.count("endpoints")
    # two-phase limit of Stone II
    if M.stone:
        two = f64(fl.calc_oil_kr(ts, torch.zeros_like(ts)))
        kr2 = M.ko_w * (1 - M.swn(f64(ts))) ** M.now
        ctx.check(np.abs(two - kr2).max() <= 1e-5 * max(1, M.now), "Stone II without gas differs from the two-phase curve by %.3g" % np.abs(two - kr2).max(), params=rp)
        ctx.count("stone2 with gas")
    if all(((got[p] > 1e-4) & (got[p] < 0.99 * end[p])).any() for p in "owg"):
        ctx.nontrivial(sorted(rp.items()), case["dtype"])
        ctx.sample({"params": rp, "cells": w.size, "dtype": case["dtype"]})
