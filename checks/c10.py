"""C10: capillary pressure curves, and every analytic derivative against the slope of its curve."""
import numpy as np
from oil import load, f64
from ref import Model
import curves

PROP = "C10"
RULE = ("Random parameter sets evaluated on arrays of 1-2000 cells in both precisions, dense around the corners: both capillary curves against the configured power law, "
        "every derivative against a Richardson-extrapolated slope of an independent curve, away from its corners; zero beyond the corners. Non-trivial: a parameter set with a non-zero slope in each curve.")
ASSUMPTIONS = ["exponents of the relative permeabilities at least 1, sw_cr + so_r below 0.9", "derivatives are not judged within 2e-6 of a corner of the curve"]
PLAN = {"quick": {"n": 8000, "seconds": 40}, "thorough": {"n": None, "seconds": 420}}
REQUIRED = {"derivatives": 500000, "capillary values": 200000, "clamped": 20000, "zero scale": 300, "own slopes": 200000}


def prepare():
    load()


def case(rng, idx, tier):
    c = curves.case(rng)
    if rng.random() < 0.2:      # scales far from the usual ones
        c["fluid"]["pc_scale"] = rng.choice([1.0, 0.01, 1e7])
        if c["fluid"].get("capillary_pressure_og"):
            c["fluid"]["capillary_pressure_og"]["pc_scale"] = rng.choice([1.0, 0.01, 1e7])
    return c


def slope(f, s, h):
    """4th-order difference of the reference curve"""
    return (8 * (f(s + h) - f(s - h)) - (f(s + 2 * h) - f(s - 2 * h))) / (12 * h)


def run(case, ctx):
    torch = load()["torch"]
    M = Model(case, fields=dict(kx=np.ones(case["dims"]), ky=np.ones(case["dims"]), kz=np.ones(case["dims"]), phi=np.ones(case["dims"])))
    fl = curves.fluid(case, ctx)
    sw, sg = curves.samples(case, M)
    if case["shape"] == "field":
        sw, sg = sw.reshape(case["dims"]), sg.reshape(case["dims"])
        fl.s_g = torch.from_numpy(sg.copy())
        gas = f64(fl.s_g)
    else:
        fl.s_g = torch.zeros_like(torch.from_numpy(sw)) ; gas = np.zeros_like(f64(sw))
    tw, tg = torch.from_numpy(sw.copy()), torch.from_numpy(sg.copy())
    w, g = f64(tw), f64(tg)
    f32 = case["dtype"] == "f32"
    d = 4e-7 if f32 else 1e-9
    den = 1 - M.swc - M.sor
    # -------- curves
    for name, fun, s, lo, sc, ex in (("water-oil", fl.get_capillary_pressure, w, M.swc, M.pcs, M.pce), ("gas-oil", fl.get_capillary_pressure_og, g, 0.0, M.pgs, M.pge)):
        t = tw if s is w else tg
        v = f64(fun(t))
        ctx.check(v.shape == s.shape and np.isfinite(v).all(), "%s capillary pressure is not finite" % name)
        if sc == 0:
            ctx.check((v == 0).all(), "%s capillary pressure is %g with scale zero" % (name, np.abs(v).max())); ctx.count("zero scale")
            continue
        x = lambda q: 1 - np.clip((q - lo) / den, 0, 1) + 1e-6
        want = sc * x(s) ** (-ex)
        dx = d / den * 1.5
        tol = np.maximum(np.abs(sc * np.maximum(x(s) - dx, 1e-7 * 5) ** (-ex) - want), np.abs(sc * (x(s) + dx) ** (-ex) - want)) + 3e-6 * want
        r = np.abs(v - want) / tol
        ctx.worst(name, r.max())
        a = np.unravel_index(int(r.argmax()), r.shape)
        ctx.check(r.max() <= 1 and (v > 0).all(), "%s capillary pressure at %.9g is %.9g, the power law gives %.9g" % (name, s[a], v[a], want[a]), fluid=case["fluid"])
        ctx.count("capillary values", v.size)
        lad = torch.linspace(0, 1, 300, dtype=t.dtype)
        u = f64(fun(lad))
        ctx.check((np.diff(u) >= -1e-5 * u[1:]).all(), "%s capillary pressure is not monotone" % name)
    ctx.check(np.array_equal(f64(fl.calc_capillary_pressure(tw)), f64(fl.get_capillary_pressure(tw))), "calc_capillary_pressure differs from get_capillary_pressure")
    ctx.check(np.array_equal(f64(fl.calc_dpc_dsw(tw)), f64(fl.get_capillary_pressure_derivative(tw))), "calc_dpc_dsw differs from get_capillary_pressure_derivative")
    # -------- derivatives
    krw = lambda s: M.kr(s, gas)["w"]
    kro = lambda s: M.kr(s, gas)["o"]
    krg = lambda s: M.kr(np.zeros_like(s), s)["g"]
    # smooth range of a saturation: (lo, hi), steps chosen inside it
    W, O = (M.swc, 1 - M.sor), (0.0, den)
    pcw = lambda s: M.pcs * (1 - (s - M.swc) / den + 1e-6) ** (-M.pce)
    pcg = lambda s: M.pgs * (1 - s / den + 1e-6) ** (-M.pge)
    dro, drw = fl.get_rel_perms_derivatives(tw)
    items = [("water (get_rel_perms_derivatives)", drw, w, W, lambda s: M.krw_end * ((s - M.swc) / den) ** M.nw, None),
             ("oil (get_rel_perms_derivatives)", dro, w, W, None, "oil"),
             ("water (calc_dkrw_dsw)", fl.calc_dkrw_dsw(tw), w, W, lambda s: M.krw_end * ((s - M.swc) / den) ** M.nw, None),
             ("oil (calc_dkro_dsw)", fl.calc_dkro_dsw(tw), w, W, None, "oil"),
             ("gas (calc_dkrg_dsg)", fl.calc_dkrg_dsg(tg), g, O, lambda s: M.krg_end * (s / den) ** M.ng, None)]
    if M.pcs:
        items.append(("water-oil capillary pressure", fl.get_capillary_pressure_derivative(tw), w, W, pcw, "pc"))
    else:
        ctx.check((f64(fl.get_capillary_pressure_derivative(tw)) == 0).all(), "capillary slope without capillary pressure")
    if M.pgs:
        items.append(("gas-oil capillary pressure", fl.get_capillary_pressure_og_derivative(tg), g, O, pcg, "pc"))
    else:
        ctx.check((f64(fl.get_capillary_pressure_og_derivative(tg)) == 0).all(), "capillary slope without capillary pressure")
    hit = True
    for name, t, s, (a, b), f, kind in items:
        v = f64(t)
        ctx.check(v.shape == s.shape and np.isfinite(v).all(), "slope of %s is not finite" % name)
        out = (s < a - 2e-6) | (s > b + 2e-6)
        if "gas" in name:
            out = s > b + 2e-6          # below zero: no such saturation
        ctx.check((v[out] == 0).all(), "slope of %s is %g where its curve is clamped" % (name, np.abs(v[out]).max(initial=0)), fluid=case["fluid"])
        ctx.count("clamped", int(out.sum()))
        ins = (s > a + 2e-6) & (s < b - 2e-6)
        room = np.minimum(s - a, b - s)
        if kind == "oil":
            if M.stone:
                sgn = np.clip((gas - M.sgc) / (1 - M.sgc - M.sor), 0, 1)
                raw = lambda q: M.ko_w * (1 - (q - M.swc) / den) ** M.now + M.ko_g * (1 - sgn) ** M.nog - M.ko_g
                val = raw(np.where(ins, s, 0.5 * (a + b)))
                cl = ins & (val < -2e-6)
                ctx.check((v[cl] == 0).all(), "slope of %s is %g where the Stone II value is clamped" % (name, np.abs(v[cl]).max(initial=0)))
                ins &= val > 2e-6
                f = raw
            else:
                f = lambda q: (1 - (q - M.swc) / den) ** M.no
        if not ins.any():
            hit = False; continue
        q = np.where(ins, s, 0.5 * (a + b)); rm = np.where(ins, room, 0.25 * (b - a))
        h = 1e-2 * rm
        want = slope(f, q, h)
        # float32 evaluates the curve at a slightly different saturation
        tol = 2e-4 * np.abs(want) + 1e-9
        for e in (d, -d):
            tol = np.maximum(tol, 2 * np.abs(slope(f, q + np.where(np.abs(e) < 0.3 * rm, e, 0), 0.5 * h) - want) + 2e-4 * np.abs(want) + 1e-9)
        if f32:
            tol = tol * (1 + 0) + np.abs(want) * np.minimum(8e-7 / np.maximum(rm, 1e-9), 1.0) * 4
        r = np.where(ins, np.abs(v - want) / tol, 0)
        ctx.worst(name, r.max())
        if r.max() > 1:
            k = np.unravel_index(int(r.argmax()), r.shape)
            ctx.fail("slope of %s at saturation %.9g is %.9g, its curve has %.9g" % (name, s[k], v[k], want[k]), fluid=case["fluid"])
        ctx.count("derivatives", int(ins.sum()))
        hit &= bool((np.abs(want[ins]) > 1e-6).any())
    # -------- and against the library's own curves
    if not f32:
        own = [(dro, lambda q: fl.calc_oil_kr(q), tw, W), (drw, fl.calc_water_kr, tw, W), (fl.calc_dkrg_dsg(tg), fl.calc_gas_kr, tg, O)]
        for n, (t, f, s, (a, b)) in enumerate(own):
            sv = f64(s); h = 1e-4
            ins = (sv > a + 1e-3) & (sv < b - 1e-3)
            if n == 0 and M.stone:
                ins &= f64(f(s)) > 1e-3
            num = (f64(f(s + h)) - f64(f(s - h))) / (2 * h)
            bad = np.where(ins, np.abs(num - f64(t)) / (1e-3 + 2e-3 * np.abs(num)), 0)
            ctx.worst("own slope %d" % n, bad.max(initial=0))
            k = np.unravel_index(int(bad.argmax()), bad.shape)
            ctx.check(bad.max(initial=0) <= 1, "derivative %.8g differs from the slope %.8g of the library's own curve" % (f64(t)[k], num[k]), saturation=sv[k], curve=["oil", "water", "gas"][n])
            ctx.count("own slopes", int(ins.sum()))
    if hit:
        ctx.nontrivial(sorted(case["fluid"]["relative_permeability"].items()), M.pcs, M.pgs)
        ctx.sample({"fluid": case["fluid"], "cells": w.size, "dtype": case["dtype"]})
