"""C25: configuration formats, defaults, units, rejections."""
import copy, json, os
import numpy as np
import gen, trace
from oil import load, f64, MD

PROP = "C25"
RULE = ("Random configurations written in several spellings (nested or separate well fields, both capillary formats, both table references, options omitted or written out at their default, whole numbers with or without a decimal point) must run bit-identically; every unit conversion is "
        "compared with one done here; single-cell injections and productions measure what the rate unit means; every kind of malformed entry is offered next to its valid sibling. Non-trivial: a comparison of two different texts that ran "
        "with flow, a conversion or a rejection, distinct by case.")
ASSUMPTIONS = ["the defaults are those the constructors document in their comments and the shipped configurations rely on"]
PLAN = {"quick": {"n": 6000, "seconds": 45}, "thorough": {"n": None, "seconds": 500}}
REQUIRED = {"spellings compared": 200, "defaults omitted": 800, "conversions": 2000, "rejections": 500, "valid siblings": 500, "single-cell rates": 60, "default table: fluid": 150, "default table: sim": 60, "default table: amg": 20, "followed exponents": 5, "default table: newton": 20, "newton options": 10, "whole numbers": 100, "whole number: s_g": 5, "default grid": 20}

# documented defaults (comments of the constructors, docs, shipped configurations)
RES = {"dimensions": [10, 10, 1], "grid_size": [10.0, 10.0, 10.0], "porosity": 0.2, "permeability": 100.0, "k_vertical_fraction": 0.1}
FLUID = {"pressure": 20.0, "s_w": 0.2, "s_g": 0.0, "mu_oil": 1.0, "mu_water": 0.5, "mu_gas": 0.02, "rho_oil": 850.0, "rho_water": 1000.0, "rho_gas": 1.0, "c_oil": 1e-5, "c_water": 1e-5, "c_gas": 1e-3, "c_rock": 1e-5}
RELPERM = {"model": "corey", "nw": 2, "no": 2, "ng": 2, "ko_end_w": 1.0, "ko_end_g": 1.0, "krw_end": 1.0, "krg_end": 1.0, "sw_cr": 0.2, "so_r": 0.2, "sg_cr": 0.0}
CAP = {"pc_scale": 0.0, "pc_exponent": 1.5, "pc_threshold": 0.01}
CAPG = {"pc_scale": 0.0, "pc_exponent": 1.5}
WELL = {"injected_phase": "water", "rate_type": "reservoir", "surface_phase": None, "limits": None, "bhp_min": None}
SIM = {"solver_type": "impes", "pressure_solver": "cg", "cg_tolerance": 1e-6, "cg_max_iter": 500, "max_time_step_attempts": 5, "dt_reduction_factor": 2.0, "max_saturation_change": 0.05, "max_substeps": 20,
       "dt_increase_factor": 1.25, "global_rate_scale": 1.0}
AMG = {"max_cycles": 20, "theta": 0.25, "max_levels": 10, "coarsest_size": 200, "device": "auto"}
NEWTON = {"max_time_step_attempts": 5, "dt_reduction_factor": 2.0, "dt_increase_factor": 1.5, "newton_max_iter": 20, "newton_tolerance": 1e-3, "damping_factor": 0.7, "jacobian_regularization": 1e-7, "use_cuda": False}
# options whose default is another option
FOLLOW = {"now": ("no", 2), "nog": ("ng", 2)}


def prepare():
    load()


def case(rng, idx, tier):
    kind = rng.choice(["spell", "spell", "units", "reject", "reject", "cell"])
    if kind == "spell" and rng.random() < 0.1:
        c = gen.base(rng, maxn=4, het=False, pvt=False, gas=False)
        gen.add_wells(rng, c, nmax=2)
        c["kind"] = kind
        c["dt"] = c["dt"][:1]
        c["sim"] = {"solver_type": "fully_implicit", "max_time_step_attempts": rng.choice([1, 2])}
        for k, v in (("newton_max_iter", [1, 3]), ("newton_tolerance", [1e-2, 1.0, 1e12]), ("damping_factor", [0.2, 1.0]), ("dt_reduction_factor", [3.0])):
            if rng.random() < 0.3:
                c["sim"][k] = rng.choice(v)
        c["seed"] = rng.randrange(10 ** 6)
        return c
    if kind == "cell":
        q = gen.logu(rng, 0.01, 1.0)
        return {"kind": kind, "prod": False, "gs": [gen.rnd(rng.uniform(20, 60), 3) for _ in range(3)], "poro": gen.rnd(rng.uniform(0.1, 0.3), 3), "dt": gen.rnd(rng.uniform(0.1, 2), 3), "q": q, "phase": rng.choice(["water", "gas", None]), 
                "dims": rng.choice([[1, 1, 1], [1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 1, 2]]), "nested": rng.random() < 0.5, "c": rng.choice([1e-5, 1e-3])}
    if kind == "units":
        c = gen.base(rng, maxn=200, het=False, pvt=False)
        c["kind"] = kind
        if rng.random() < 0.15:
            c["kvf"] = rng.choice([0.0, 0, 2.0])
        return c
    c = gen.base(rng, maxn=36, het=False, pvt=rng.random() < 0.4)
    if rng.random() < 0.06:
        c["dims"] = list(RES["dimensions"])
    gen.add_wells(rng, c, nmax=3, surface=True, limits=True, bhp_min=True)
    if not c["wells"] or kind == "reject":
        c["wells"].append(gen.well(rng, c, 8))
    c["kind"] = kind
    c["dt"] = c["dt"][:1]
    c["sim"] = {}
    if rng.random() < 0.3:      # numbers as people write them
        c["gs"] = [max(1.0, round(v) * 1.0) for v in c["gs"]]
        c["perm"] = max(1.0, round(c["perm"]) * 1.0); c["init"]["P"] = round(c["init"]["P"]) * 1.0
        for k in ("mu_oil", "rho_oil", "rho_water", "rho_gas"):
            c["fluid"][k] = max(1.0, round(c["fluid"][k]) * 1.0)
        for w in c["wells"]:
            w["control"]["value"] = max(1.0, round(w["control"]["value"]) * 1.0)
        if rng.random() < 0.2:
            c["init"].update(sw=rng.choice([0.0, 1.0]), sg=0.0)
    if rng.random() < 0.3:
        c["sim"]["pressure_solver"] = "amg"
    if rng.random() < 0.3:
        c["sim"]["max_saturation_change"] = 0.2
    # take options out so that defaults act
    for k in list(c["fluid"]):
        if k != "relative_permeability" and rng.random() < 0.25:
            del c["fluid"][k]
    rp = c["fluid"]["relative_permeability"]
    for t in [rp] + [c["fluid"][k] for k in ("capillary_pressure", "capillary_pressure_og") if k in c["fluid"]]:
        for k in list(t):
            if rng.random() < 0.25:
                del t[k]
    if rng.random() < 0.1:
        del c["fluid"]["relative_permeability"]
    c["seed"] = rng.randrange(10 ** 6)
    return c


def model(L, cfg):
    res = L["Reservoir"](cfg["reservoir"], L["cpu"])
    wm = L["WellManager"](cfg["wells"], res)
    fl = L["Fluid"](cfg["fluid"], res, L["cpu"])
    return L["Simulator"](res, fl, wm, cfg["sim"], L["cpu"])


def look(L, cfg, dt):
    sim = model(L, cfg)
    o = trace.observe(sim, True)
    fl = sim.fluid
    for k in ("rho_w", "rho_o", "rho_g", "mu_w", "mu_o", "mu_g"):
        o[k] = trace.num(getattr(fl, k))
    for k in ("permeability_y", "permeability_z", "grid_size", "dimensions"):
        o[k] = trace.num(getattr(sim.reservoir, k))
    grid = np.linspace(0.0, 1.0, 41, dtype=np.float32)
    t = lambda a: L["torch"].from_numpy(np.ascontiguousarray(a))
    o["curves"] = trace.num([f64(x).tolist() for x in fl.get_rel_perms(t(grid), t(0.5 * (1 - grid)))] + [f64(fl.get_capillary_pressure(t(grid))).tolist(), f64(fl.get_capillary_pressure_og(t(grid))).tolist()])
    for i, w in enumerate(sim.well_manager.get_wells()):
        for k in ("name", "type", "i", "j", "k", "radius", "control_type", "injected_phase", "rate_type", "surface_phase", "limits", "bhp_min"):
            o["well %d %s" % (i, k)] = trace.num(getattr(w, k))
    try:
        r = bool(sim.run_step(dt * 86400))
    except Exception as e:
        r = "raised %s" % type(e).__name__
    o["grid_size"] = trace.num(f64(sim.reservoir.grid_size))
    return [values(o), values(trace.observe(sim, r))]


def values(x):
    """2 and 2.0 are the same number"""
    if isinstance(x, dict):
        return {k: v if k == "returned" else values(v) for k, v in x.items()}
    if isinstance(x, list):
        return [values(v) for v in x]
    return float(x).hex() if isinstance(x, int) and not isinstance(x, bool) else x


def configs(case, ctx):
    cfg = trace.configs(case, ctx.scratch)
    return {k: cfg[k] for k in ("reservoir", "wells", "fluid", "sim")}


def respell(rng, cfg, ctx):
    """the same configuration in other words"""
    c = copy.deepcopy(cfg)
    done = []
    for w in c["wells"]:
        if "coordinates" in w and rng.random() < 0.6:
            w["i"], w["j"], w["k"] = w.pop("coordinates"); done.append("ijk")
        if "control" in w and rng.random() < 0.6:
            ctl = w.pop("control")
            w["control_type"], w["control_value"] = ctl["type"], ctl["value"]; done.append("control fields")
        for k, v in WELL.items():
            if k not in w and rng.random() < 0.3:
                w[k] = v; ctx.count("defaults omitted"); done.append(k)
    f = c["fluid"]
    flat = {k: f[k] for k in CAP if k in f}
    if "capillary_pressure" not in f and rng.random() < 0.6:
        for k in flat:
            del f[k]
        f["capillary_pressure"] = flat; done.append("nested capillary pressure")
    if f.get("pvt_path") and rng.random() < 0.6:
        f["pvt"] = {"path": f.pop("pvt_path")}; done.append("pvt.path")
    given = cfg["fluid"]
    for k, v in FLUID.items():
        if k not in given and rng.random() < 0.6:
            f[k] = v; ctx.count("defaults omitted"); ctx.count("default table: fluid"); done.append(k)
    rp = f.setdefault("relative_permeability", {})
    for k, v in RELPERM.items():
        if k not in rp and rng.random() < 0.5:
            rp[k] = v; ctx.count("defaults omitted"); done.append(k)
    for k, (of, v) in FOLLOW.items():
        if k not in rp and rng.random() < 0.5:
            rp[k] = float(rp.get(of, v)); ctx.count("defaults omitted"); done.append(k)
            if rp.get("model") == "stone2" and rp[k] != 2:
                ctx.count("followed exponents")
    for name, table in (("capillary_pressure", CAP), ("capillary_pressure_og", CAPG)):
        if rng.random() < 0.5:
            t = f.setdefault(name, {}) if (name in f or name == "capillary_pressure_og" or not flat) else f
            for k, v in table.items():
                if k not in t:
                    t[k] = v; ctx.count("defaults omitted"); done.append(name + "." + k)
    for k, v in RES.items():
        if k not in c["reservoir"]:
            c["reservoir"][k] = v; ctx.count("defaults omitted"); done.append(k)
    for k, v in (NEWTON if c["sim"].get("solver_type") == "fully_implicit" else SIM).items():
        if k not in c["sim"] and rng.random() < 0.5:
            c["sim"][k] = v; ctx.count("defaults omitted"); ctx.count("default table: " + ("newton" if k in NEWTON and k not in SIM else "sim")); done.append(k)
    if c["sim"].get("pressure_solver") == "amg":
        t = c["sim"].setdefault("amg", {})
        for k, v in dict(AMG, tol=c["sim"].get("cg_tolerance", 1e-6)).items():
            if k not in t and rng.random() < 0.5:
                t[k] = v; ctx.count("defaults omitted"); ctx.count("default table: amg"); done.append("amg." + k)
    if rng.random() < 0.5:
        whole(c, rng, ctx, done)
    items = list(c["fluid"].items()); rng.shuffle(items); c["fluid"] = dict(items)
    return c, done


def whole(t, rng, ctx, done):
    """whole numbers written without a decimal point"""
    for k in (list(t) if isinstance(t, dict) else range(len(t))):
        v = t[k]
        if isinstance(v, (dict, list)):
            whole(v, rng, ctx, done)
        elif isinstance(v, float) and v == int(v) and rng.random() < 0.7:
            t[k] = int(v)
            ctx.count("whole numbers"); done.append("%s: %d" % (k, v))
            if k == "s_g":
                ctx.count("whole number: s_g")


def run(case, ctx):
    import random
    L = load()
    {"spell": spell, "units": units, "reject": reject, "cell": cell}[case["kind"]](case, ctx, L, random.Random(case.get("seed", 0)))


def spell(case, ctx, L, rng):
    cfg = configs(case, ctx)
    sw0 = cfg["fluid"]["s_w"]
    if rng.random() < 0.2:      # smaller grids from the default reservoir
        cfg["reservoir"] = {k: v for k, v in cfg["reservoir"].items() if rng.random() < 0.5 or k == "dimensions"}
    for k in ("pressure", "s_w", "s_g"):
        if rng.random() < 0.25:
            cfg["fluid"].pop(k, None)
    if cfg["fluid"].get("s_g", 0) + cfg["fluid"].get("s_w", 0.2) > 1:
        cfg["fluid"]["s_w"] = sw0; cfg["fluid"]["s_g"] = 0.0
    if cfg["reservoir"]["dimensions"] == RES["dimensions"] and rng.random() < 0.7:
        del cfg["reservoir"]["dimensions"]; ctx.count("default grid")
    ref = look(L, copy.deepcopy(cfg), case["dt"][0])
    newton_options(case, ctx, L, cfg, ref)
    for _ in range(3):
        other, done = respell(rng, cfg, ctx)
        got = look(L, other, case["dt"][0])
        for x in (ref, got):        # an absent table of limits may be given as None
            for o in x:
                for k in list(o):
                    if k.endswith(" limits"):
                        o[k] = o[k] or {}
        d = trace.difference(ref, got)
        ctx.check(d is None, "the same configuration in other words (%s) gives another %s %s" % (", ".join(done), d and d[1], "when built" if d and d[0] == 0 else "after a step"), given=cfg, other=other)
        ctx.count("spellings compared")
        if ref[0]["pressure"] != ref[1]["pressure"]:
            ctx.nontrivial(json.dumps(other, sort_keys=True))
    ctx.sample({"respelled": done})


def newton_options(case, ctx, L, cfg, ref):
    """the Newton tolerance and iteration limit act on the fully implicit step"""
    s = cfg["sim"]
    if s.get("solver_type") != "fully_implicit":
        return
    torch = L["torch"]
    solve, calls = torch.linalg.solve, [0]

    def counted(*a, **k):
        calls[0] += 1
        return solve(*a, **k)
    torch.linalg.solve = counted
    try:
        out = look(L, copy.deepcopy(cfg), case["dt"][0])
        limit = s.get("newton_max_iter", 20) * s["max_time_step_attempts"]
        ctx.check(calls[0] <= limit, "%d Newton iterations in %d attempts of at most %d" % (calls[0], s["max_time_step_attempts"], s.get("newton_max_iter", 20)), sim=s)
        if calls[0] == limit:
            ctx.count("newton limit reached")
        c = copy.deepcopy(cfg); c["sim"]["newton_tolerance"] = 1e30
        calls[0] = 0
        out = look(L, c, case["dt"][0])
        ctx.check(out[1]["returned"] is True, "a step was not accepted though any residual is within the configured tolerance", sim=c["sim"])
        ctx.check(calls[0] <= 1, "%d Newton iterations though any residual is within the configured tolerance" % calls[0], sim=c["sim"])
        ctx.count("newton options")
    finally:
        torch.linalg.solve = solve


def units(case, ctx, L, rng):
    cfg = configs(case, ctx)
    sim = model(L, copy.deepcopy(cfg))
    r, f = cfg["reservoir"], cfg["fluid"]
    R, F = sim.reservoir, sim.fluid
    g = lambda d, k, t: d.get(k, t[k])
    kh = r["permeability"] * 9.869233e-16
    cell = r["grid_size"][0] * r["grid_size"][1] * r["grid_size"][2]
    want = [("permeability_x in m2", R.permeability_x, kh), ("permeability_y in m2", R.permeability_y, kh), ("permeability_z in m2", R.permeability_z, kh * r.get("k_vertical_fraction", 0.1)),
            ("porosity", R.porosity, r["porosity"]), ("pore volume in m3", R.porous_volume, cell * r["porosity"]), ("cell volume in m3", R.cell_volume, cell),
            ("pressure in Pa", F.pressure, f["pressure"] * 1e6), ("water saturation", F.s_w, f["s_w"]), ("gas saturation", F.s_g, f["s_g"]), ("oil saturation", F.s_o, 1 - f["s_w"] - f["s_g"]),
            ("oil viscosity in Pa s", F.mu_o, g(f, "mu_oil", FLUID) * 1e-3), ("water viscosity in Pa s", F.mu_w, g(f, "mu_water", FLUID) * 1e-3), ("gas viscosity in Pa s", F.mu_g, g(f, "mu_gas", FLUID) * 1e-3)]
    for name, ph in (("oil", "c_oil"), ("water", "c_water"), ("gas", "c_gas"), ("rock", "c_rock")):
        want.append(("%s compressibility in 1/Pa" % name, getattr(F, name + "_compressibility"), g(f, ph, FLUID) * 1e-6))
    for what, got, w in want:
        a = f64(got)
        dev = np.abs(a - w).max() / (3e-7 * max(abs(w), 1e-3 if "saturation" in what else 0) + 1e-300)
        ctx.check(dev <= 1, "%s is %.9g where the configuration says %.9g" % (what, float(a.ravel()[np.abs(a - w).argmax()]), w))
        ctx.check(a.ndim == 0 or what == "cell volume in m3" or list(a.shape) == r["dimensions"], "%s has shape %s on a grid of %s" % (what, a.shape, r["dimensions"]))
        ctx.count("conversions")
    ctx.nontrivial(case["perm"], case["gs"])


def cell(case, ctx, L, rng):
    """a closed box takes up what the configured rate says: rate x days"""
    ph = case["phase"]
    if case["dims"] == [1, 1, 1] and case["poro"] > 0.2:
        case["prod"] = True
    n = int(np.prod(case["dims"]))
    pv = float(np.prod(case["gs"])) * case["poro"]
    q = gen.rnd(case["q"] * 0.02 * pv / case["dt"])
    sg = 0.2 if ph == "gas" else 0.0
    w = {"name": "W", "type": "producer" if case["prod"] else "injector", "radius": 0.1}
    if case["nested"]:
        w.update(coordinates=[0, 0, 0], control={"type": "rate", "value": q})
    else:
        w.update(i=0, j=0, k=0, control_type="rate", control_value=q)
    if ph and not case["prod"]:
        w["injected_phase"] = ph
    cfg = {"reservoir": {"dimensions": case["dims"], "grid_size": case["gs"], "porosity": case["poro"], "permeability": 300.0, "k_vertical_fraction": 1.0}, "wells": [w],
           "fluid": {"s_w": 0.9 if case["prod"] else 0.4, "s_g": 0.0 if case["prod"] else sg, "c_water": case["c"], "c_oil": case["c"], "relative_permeability": {"sw_cr": 0.1, "so_r": 0.1}},
           "sim": {"cg_tolerance": 1e-10}}
    sim = model(L, cfg)
    s0 = {k: f64(getattr(sim.fluid, k)) for k in ("s_w", "s_g", "s_o")}
    ok = sim.run_step(case["dt"] * 86400)
    if not ok:
        ctx.count("single cell failed"); return
    # saturations: a step conserves pore volume, so the moved volume shows in them
    got = {k: float((f64(getattr(sim.fluid, k)) - s0[k]).sum()) * pv for k in s0}
    vol = q * case["dt"]
    key = "s_g" if ph == "gas" and not case["prod"] else "s_w"
    want = -vol if case["prod"] else vol
    tol = 3e-7 * pv * n + 1e-5 * vol
    ctx.check(abs(got[key] - want) <= tol, "a %s at %.6g m3/day for %.6g days changed %s by %.9g m3 (expected %.9g)" % (w["type"], q, case["dt"], key, got[key], want), all=got)
    ctx.count("single-cell rates"); ctx.nontrivial(q, case["dt"])


def reject(case, ctx, L, rng):
    cfg = configs(case, ctx)
    look(L, copy.deepcopy(cfg), case["dt"][0])
    ctx.count("valid siblings")
    d = cfg["reservoir"]["dimensions"]
    bad = []

    def well(what, change):
        c = copy.deepcopy(cfg)
        w = c["wells"][rng.randrange(len(c["wells"]))]
        if rng.random() < 0.5 and "coordinates" in w:
            w["i"], w["j"], w["k"] = w.pop("coordinates")
        if rng.random() < 0.5 and "control" in w:
            ctl = w.pop("control"); w["control_type"], w["control_value"] = ctl["type"], ctl["value"]
        change(w); bad.append((what, c))

    def drop(*keys):
        def f(w):
            for k in keys:
                w.pop(k, None)
        return f

    def partial(keys, one):
        def f(w):
            if "coordinates" in w and one in "ijk":
                w["i"], w["j"], w["k"] = w.pop("coordinates")
            if "control" in w and one.startswith("control"):
                ctl = w.pop("control"); w["control_type"], w["control_value"] = ctl["type"], ctl["value"]
            w.pop(one)
        return f

    def place(axis, v):
        def f(w):
            xyz = list(w.pop("coordinates", None) or (w.pop("i"), w.pop("j"), w.pop("k")))
            xyz[axis] = v
            if rng.random() < 0.5:
                w["coordinates"] = xyz
            else:
                w["i"], w["j"], w["k"] = xyz
        return f

    def control(key, v):
        def f(w):
            if "control" in w:
                if v is None:
                    del w["control"][key]
                else:
                    w["control"][key] = v
            elif v is None:
                del w["control_" + key]
            else:
                w["control_" + key] = v
        return f
    well("no place", drop("coordinates", "i", "j", "k"))
    for k in "ijk":
        well("no " + k, partial(None, k))
    well("no control", drop("control", "control_type", "control_value"))
    well("no control_type", partial(None, "control_type")); well("no control_value", partial(None, "control_value"))
    well("control without value", control("value", None)); well("control without type", control("type", None))
    well("unknown control", control("type", rng.choice(["RATE", "orat", "", "thp"])))
    well("unknown type", lambda w: w.update(type=rng.choice(["inj", "producers", "Injector", ""])))
    for k in ("name", "type", "radius"):
        well("no " + k, drop(k))
    ax = rng.randrange(3)
    well("beyond the grid", place(ax, d[ax] + rng.choice([0, 0, 1, 7]))); well("below the grid", place(ax, -rng.choice([1, 1, 2, 9])))

    def two(w):
        xyz = list(w.pop("coordinates", None) or (w.pop("i"), w.pop("j"), w.pop("k")))
        w["coordinates"] = rng.choice([xyz[:2], xyz + [0]])
    well("two or four coordinates", two)
    s = gen.rnd(rng.uniform(0.05, 0.95), 3)
    for what, a, b in (("saturations above one", s, gen.rnd(1 - s + rng.choice([1e-4, 0.01, 0.3]))), ("negative water saturation", -rng.choice([0.01, 0.3]), 0.0), ("negative gas saturation", 0.5, -rng.choice([0.01, 0.2])), ("water saturation above one", 1.01, 0.0)):
        c = copy.deepcopy(cfg); c["fluid"]["s_w"] = a; c["fluid"]["s_g"] = b; bad.append((what, c))
    c = copy.deepcopy(cfg); c["sim"]["solver_type"] = rng.choice(["IMPES", "explicit", "fully-implicit", ""]); bad.append(("unknown solver type", c))
    rng.shuffle(bad)
    for what, c in bad[:8]:
        try:
            sim = model(L, c)
            if what == "unknown solver type":
                before = {k: f64(getattr(sim.fluid, k)) for k in ("pressure", "s_w", "s_g")}
                sim.run_step(case["dt"][0] * 86400)
        except Exception as e:
            ctx.count("rejections"); ctx.count("rejected: " + what)
            ctx.nontrivial(what, json.dumps(c, sort_keys=True))
            continue
        ctx.fail("a configuration with %s was accepted" % what, wells=c["wells"], fluid=c["fluid"], sim=c["sim"], dims=d)
    # saturations that add up to exactly one are possible
    c = copy.deepcopy(cfg); c["fluid"]["s_w"] = s = round(s, 3); c["fluid"]["s_g"] = round(1 - s, 3)
    model(L, c); ctx.count("valid siblings")
