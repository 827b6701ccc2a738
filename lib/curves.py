"""Saturation samples and parameter sets for the constitutive curves (C09, C10)."""
import numpy as np
import gen
from oil import load


def params(rng):
    swc, sor = rng.choice([0.0, 0.05, 0.2, 0.35, gen.rnd(rng.uniform(0, 0.45), 3)]), rng.choice([0.0, 0.05, 0.2, 0.3, gen.rnd(rng.uniform(0, 0.45), 3)])
    rp = {"sw_cr": swc, "so_r": sor, "sg_cr": rng.choice([0.0, 0.0, 0.05, gen.rnd(rng.uniform(0, 0.1), 3)]),
          "nw": rng.choice([1, 2, 3, 4, gen.rnd(rng.uniform(1, 6), 3)]), "no": rng.choice([1, 2, 3, gen.rnd(rng.uniform(1, 6), 3)]),
          "ng": rng.choice([1, 2, 3, gen.rnd(rng.uniform(1, 6), 3)]), "model": rng.choice(["corey", "stone2"])}
    if rng.random() < 0.15:
        for k in ("sw_cr", "so_r", "nw", "no", "ng", "sg_cr"):
            if rng.random() < 0.5:
                rp.pop(k)
    if rng.random() < 0.6:
        rp["krw_end"] = gen.rnd(rng.uniform(0.05, 1.0)); rp["krg_end"] = gen.rnd(rng.uniform(0.05, 1.0))
    if rng.random() < 0.7:
        rp["ko_end_w"] = gen.rnd(rng.uniform(0.2, 1.0)); rp["ko_end_g"] = rp["ko_end_w"] if rng.random() < 0.4 else gen.rnd(rng.uniform(0.2, 1.0))
    if rng.random() < 0.6:
        rp["now"] = rng.choice([1.0, 2.0, 3.5, gen.rnd(rng.uniform(1, 6), 3)]); rp["nog"] = rng.choice([1.0, 2.0, 3.5, gen.rnd(rng.uniform(1, 6), 3)])
    return rp


def case(rng):
    c = {"dims": [rng.choice([1, 2, 3, 5, 8]), rng.choice([1, 2, 4, 7]), rng.choice([1, 2, 3, 6])], "gs": [10.0, 10.0, 5.0],
         "fluid": {"relative_permeability": params(rng)}, "wells": [], "sim": {}, "init": {"P": 20.0, "sw": 0.3, "sg": 0.1},
         "seed": rng.randrange(10 ** 6), "dtype": rng.choice(["f32", "f64"]), "shape": rng.choice(["field", "flat", "flat"])}
    f = c["fluid"]
    if rng.random() < 0.85:
        d = {"pc_scale": gen.logu(rng, 1, 1e6), "pc_exponent": rng.choice([0.3, 0.5, 1.0, 1.5, 2.0, gen.rnd(rng.uniform(0.2, 2.5), 3)])}
        if rng.random() < 0.2:
            d.pop("pc_exponent")
        if rng.random() < 0.5:
            f["capillary_pressure"] = d
        else:
            f.update(d)
    if rng.random() < 0.85:
        f["capillary_pressure_og"] = {"pc_scale": gen.logu(rng, 1, 1e6), "pc_exponent": rng.choice([0.3, 0.5, 1.0, 1.5, gen.rnd(rng.uniform(0.2, 2.5), 3)])}
    return c


def samples(case, M):
    """pairs (sw, sg): uniform, at and next to every corner of the curves, slightly outside [0, 1]"""
    r = np.random.RandomState(case["seed"])
    n = int(np.prod(case["dims"]))
    m = n if case["shape"] == "field" else r.choice([1, 7, 64, 300, 2000])
    marks = np.array([0.0, 1.0, M.swc, 1 - M.sor, M.sgc, 1 - M.swc - M.sor, 1 - M.sgc - M.sor, M.sor])
    eps = np.array([0, 0, 1e-7, -1e-7, 1e-6, -1e-6, 1e-4, -1e-4, 0.01, -0.01])
    sw = r.uniform(0, 1, m); sg = r.uniform(0, 1, m) * (1 - sw)
    a = r.rand(m) < 0.35
    sw = np.where(a, r.choice(marks, m) + r.choice(eps, m), sw)
    b = r.rand(m) < 0.35
    sg = np.where(b, r.choice(marks, m) + r.choice(eps, m), sg)
    sg = np.where(r.rand(m) < 0.2, 0.0, sg)
    if case["dtype"] == "f32":
        sw, sg = sw.astype(np.float32), sg.astype(np.float32)
    return sw, sg


def fluid(case, ctx):
    from oil import reservoir_cfg, fluid_cfg
    L = load()
    res = L["Reservoir"](reservoir_cfg(case), L["cpu"])
    return L["Fluid"](fluid_cfg(case, ctx.scratch), res, L["cpu"])
