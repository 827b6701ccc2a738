"""C12: densities, viscosities, compressibility."""
import numpy as np
import gen
from oil import load, f64, build, case_fields, eff_dims, reservoir_cfg, fluid_cfg
from ref import Model

PROP = "C12"
RULE = ("Random fluids with and without tables, on 1-200 cell grids with pressures inside and outside the table and any saturations: both density routes, viscosities and total compressibility "
        "against the configured law evaluated in double precision, also for a pressure argument that is not the stored one and after the stored pressure was replaced. "
        "Non-trivial: a table fluid with vaporised oil whose pressures spanned at least 3 table segments, or a compressible fluid without a table.")
ASSUMPTIONS = ["compressibility from a table may use any slope within 0.12 MPa of the pressure"]
PLAN = {"quick": {"n": 5000, "seconds": 40}, "thorough": {"n": None, "seconds": 300}}
REQUIRED = {"densities": 300000, "compressibilities with table": 50000, "compressibilities without table": 50000, "tables without Rv": 200}


def prepare():
    load()


def case(rng, idx, tier):
    c = gen.base(rng, maxn=200, pc=False, het=False)
    if rng.random() < 0.3:
        for k in ("c_oil", "c_water", "c_gas", "c_rock", "rho_oil", "rho_water", "rho_gas", "mu_oil", "mu_water", "mu_gas"):
            if rng.random() < 0.4:
                c["fluid"].pop(k, None)
    c["Pr"] = [rng.choice([0.05, 5.0, 18.0]), rng.choice([25.0, 60.0, 95.0])]
    c["seed"] = rng.randrange(10 ** 6)
    c["route"] = rng.choice(["pvt_path", "pvt.path"])
    return c


def run(case, ctx):
    L = load(); torch = L["torch"]
    res = L["Reservoir"](reservoir_cfg(case), L["cpu"])
    cfg = fluid_cfg(case, ctx.scratch)
    if case["route"] == "pvt.path" and "pvt_path" in cfg:
        cfg["pvt"] = {"path": cfg.pop("pvt_path")}
    fl = L["Fluid"](cfg, res, L["cpu"])
    M = Model(case)
    r = np.random.RandomState(case["seed"])
    sh = tuple(case["dims"])
    fld = lambda: torch.from_numpy((r.uniform(case["Pr"][0], case["Pr"][1], sh) * 1e6).astype(np.float32))
    if not M.pvt:
        ctx.check(abs(float(np.mean(f64(fl.mu_o))) - M.mu0["o"]) <= 1e-6 * M.mu0["o"] and abs(float(np.mean(f64(fl.mu_w))) - M.mu0["w"]) <= 1e-6 * M.mu0["w"]
                  and abs(float(np.mean(f64(fl.mu_g))) - M.mu0["g"]) <= 1e-6 * M.mu0["g"], "constant viscosities differ from the configuration")
    for rnd_ in range(3):
        stored = fld()
        if rnd_ == 2 and M.pvt:     # exactly at and next to the nodes
            node = np.array(M.pvt["pressure_MPa"])
            stored = torch.from_numpy((r.choice(node, sh) * 1e6 + r.choice([0.0, 10.0, -10.0, 150000.0], sh)).astype(np.float32))
        fl.pressure = stored
        other = fld()
        Ps, Po = f64(stored), f64(other)
        for ph, prop, fun in (("w", "rho_w", fl.calc_water_density), ("o", "rho_o", fl.calc_oil_density), ("g", "rho_g", fl.calc_gas_density)):
            for how, v, P in (("property", getattr(fl, prop), Ps), ("function", fun(stored), Ps), ("function, other pressure", fun(other), Po)):
                v = f64(v)
                ctx.check(v.shape == sh, "density of %s (%s) has shape %s" % (ph, how, v.shape))
                c = np.stack([M.rho(ph, P * (1 + e)) for e in (0, 3e-7, -3e-7)])
                lo, hi = c.min(axis=0), c.max(axis=0)
                tol = 1e-6 * hi + (hi - lo)
                w = np.maximum(lo - v, v - hi) / tol
                ctx.worst("density", w.max())
                if w.max() > 1:
                    a = np.unravel_index(int(w.argmax()), w.shape)
                    ctx.fail("density of %s (%s) at %.6g MPa is %.8g, the fluid definition gives %.8g" % (ph, how, P[a] / 1e6, v[a], c[0][a]), fluid=case["fluid"])
                ctx.count("densities", v.size)
        for ph, prop in (("w", "mu_w"), ("o", "mu_o"), ("g", "mu_g")):
            v = np.broadcast_to(f64(getattr(fl, prop)), sh)
            c = np.stack([M.mu(ph, Ps * (1 + e)) for e in (0, 3e-7, -3e-7)])
            w = np.maximum(c.min(axis=0) - v, v - c.max(axis=0)) / (1e-6 * c[0] + np.ptp(c, axis=0))
            ctx.worst("viscosity", w.max())
            ctx.check(w.max() <= 1, "viscosity of %s is %.6g..%.6g Pa s, expected %.6g..%.6g" % (ph, v.min(), v.max(), c[0].min(), c[0].max()))
            ctx.count("viscosities", v.size)
        sw = torch.from_numpy(r.uniform(0, 1, sh).astype(np.float32)); sg = torch.from_numpy((r.uniform(0, 1, sh) * (1 - f64(sw))).astype(np.float32))
        ct = np.broadcast_to(f64(fl.calc_total_compressibility(other, sw, sg)), sh)
        lo, hi = M.ct_iv(Po, f64(sw), f64(sg))
        tol = 1e-6 * np.abs(hi) + 1e-16
        w = np.maximum(lo - ct, ct - hi) / tol
        ctx.worst("compressibility", w.max())
        if w.max() > 1:
            a = np.unravel_index(int(w.argmax()), w.shape)
            ctx.fail("total compressibility at %.6g MPa, sw=%.4g, sg=%.4g is %.7g 1/Pa, definition gives [%.7g, %.7g]" % (Po[a] / 1e6, f64(sw)[a], f64(sg)[a], ct[a], lo[a], hi[a]), fluid=case["fluid"])
        ctx.count("compressibilities with table" if M.pvt else "compressibilities without table", ct.size)
    if M.pvt and "Rv_m3m3" not in M.pvt:
        ctx.count("tables without Rv")
    if (M.pvt and "Rv_m3m3" in M.pvt and len(M.pvt["pressure_MPa"]) > 4) or not M.pvt:
        ctx.nontrivial(case["fluid"], case.get("pvt"), case["Pr"])
        ctx.sample({"fluid": case["fluid"], "table nodes": len(M.pvt["pressure_MPa"]) if M.pvt else 0, "pressures MPa": case["Pr"]})
