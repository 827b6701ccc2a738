"""Observed trace of a simulator driven by a case: exact digests of everything a user can read after each step."""
import copy, json, hashlib
import numpy as np
from oil import load, case_fields, reservoir_cfg, fluid_cfg, eff_dims


def configs(case, scratch):
    cfg = {"reservoir": reservoir_cfg(case), "wells": copy.deepcopy(case.get("wells", [])), "fluid": fluid_cfg(copy.deepcopy(case), scratch), "sim": copy.deepcopy(case.get("sim", {}))}
    for part, key in case.get("omit", []):       # left to their defaults
        cfg[part].pop(key, None)
    return cfg


def make(case, cfg):
    """a simulator from the configuration dictionaries themselves (not copies)"""
    L = load(); torch = L["torch"]
    F = case_fields(case)
    res = L["Reservoir"](cfg["reservoir"], L["cpu"])
    T = lambda a: torch.from_numpy(np.array(a, dtype=np.float32, copy=True))
    if case.get("het") or case.get("walls"):
        res.permeability_x, res.permeability_y, res.permeability_z = T(F["kx"]), T(F["ky"]), T(F["kz"])
        res.porosity = T(F["phi"]); res.porous_volume = res.cell_volume * res.porosity
    wm = L["WellManager"](cfg["wells"], res)
    fl = L["Fluid"](cfg["fluid"], res, L["cpu"])
    if not case.get("from_config"):
        fl.pressure, fl.s_w, fl.s_g = T(F["P"]), T(F["sw"]), T(F["sg"])
        fl.s_o = 1.0 - fl.s_w - fl.s_g
        fl.prev_pressure, fl.prev_sw, fl.prev_sg = fl.pressure.clone(), fl.s_w.clone(), fl.s_g.clone()
    return L["Simulator"](res, fl, wm, cfg["sim"], L["cpu"])


def num(x):
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    if isinstance(x, dict):
        return {str(k): num(v) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))}
    if isinstance(x, (list, tuple)):
        return [num(v) for v in x]
    if isinstance(x, np.ndarray):
        return [str(x.dtype), list(x.shape), hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest()]
    if isinstance(x, (float, np.floating)):
        return float(x).hex()
    if isinstance(x, (int, bool, str)) or x is None:
        return x
    return repr(x)


def observe(sim, ret):
    f = sim.fluid
    d = {"returned": ret if isinstance(ret, str) else bool(ret)}
    for k in ("pressure", "s_w", "s_g", "s_o"):
        d[k] = num(getattr(f, k))
    d["mass_balance"] = num(sim.mass_balance)
    d["component_balance"] = num(getattr(sim, "component_balance", None))
    for n, w in enumerate(sim.well_manager.get_wells()):
        for k in ("control_value", "well_index", "last_q_total", "last_surface_rates", "cell_index_flat"):
            d["well %d %s" % (n, k)] = num(getattr(w, k, None))
    for k in ("permeability_x", "porosity", "porous_volume"):
        d[k] = num(getattr(sim.reservoir, k))
    return d


def advance(sim, case, n):
    """step n of the case's schedule; returns the observation"""
    for i, w in enumerate(sim.well_manager.get_wells()):
        s = case.get("scales")
        if s and w.control_type == "rate":
            w.control_value *= s[(n + i) % len(s)]
    try:
        r = sim.run_step(case["dt"][n] * 86400.0)
    except Exception as e:
        r = "raised %s" % type(e).__name__
    return observe(sim, r)


def trace(case, cfg):
    sim = make(case, cfg)
    return [observe(sim, True)] + [advance(sim, case, n) for n in range(len(case["dt"]))]


def difference(a, b):
    """first differing (step, quantity), or None"""
    for n, (x, y) in enumerate(zip(a, b)):
        for k in x:
            if x[k] != y.get(k):
                return n, k
    return None if len(a) == len(b) else (min(len(a), len(b)), "length")


if __name__ == "__main__":
    import sys, tempfile, shutil, contextlib, io
    scratch = tempfile.mkdtemp(prefix="verif-trace-")
    try:
        import os
        os.chdir(scratch)
        cases = json.load(sys.stdin)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            out = [trace(c, configs(c, scratch)) for c in cases]
        print(json.dumps(out))
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
