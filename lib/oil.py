"""Imports the code under test and builds its objects from a JSON case; the reference model is built from the same case
only (never from the objects under test)."""
import os, sys, json, math
import numpy as np
from core import SRC, quiet, Skip

MD = 9.869233e-16
_loaded = {}


def load():
    if _loaded:
        return _loaded
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import torch
    torch.set_num_threads(1)
    from simulator.reservoir import Reservoir
    from simulator.fluid import Fluid
    from simulator.well import WellManager
    from simulator.simulation import Simulator
    assert os.path.abspath(sys.modules["simulator.simulation"].__file__).startswith(SRC)
    _loaded.update(torch=torch, Reservoir=Reservoir, Fluid=Fluid, WellManager=WellManager, Simulator=Simulator,
                   cpu=torch.device("cpu"))
    return _loaded


def f32(a):
    return np.asarray(a, dtype=np.float32)


def f64(t):
    """torch tensor or number -> float64 array"""
    if hasattr(t, "detach"):
        t = t.detach().cpu().numpy()
    return np.array(t, dtype=np.float64)


# ------------------------------------------------------------------ fields of a case
def case_fields(case):
    """Static and initial fields, as float32 arrays (exactly what both sides use)."""
    nx, ny, nz = case["dims"]
    sh = (nx, ny, nz)
    het = case.get("het")
    kh = case.get("perm", 100.0) * MD
    kv = case.get("perm", 100.0) * case.get("kvf", 0.1) * MD
    kx = np.full(sh, kh); ky = np.full(sh, kh); kz = np.full(sh, kv)
    phi = np.full(sh, case.get("poro", 0.2))
    if het:
        r = np.random.RandomState(het["seed"])
        sd = het.get("k", 0.0)
        if sd:
            m = np.exp(sd * r.randn(*sh))
            if het.get("layers"):
                m = np.broadcast_to(np.exp(sd * r.randn(nz)), sh).copy()
            kx = kx * m; ky = ky * m; kz = kz * m
        if het.get("aniso"):
            kx = kx * np.exp(0.7 * r.randn(*sh)); ky = ky * np.exp(0.7 * r.randn(*sh)); kz = kz * np.exp(0.7 * r.randn(*sh))
        if het.get("zero"):
            z = r.rand(*sh) < het["zero"]
            kx[z] = 0; ky[z] = 0; kz[z] = 0
        if het.get("phi"):
            phi = phi * np.clip(1 + 0.4 * r.randn(*sh), 0.2, 2.0)
    for wall in case.get("walls", []):   # [axis, index]: no flow between index and index+1 is emulated by zero perm cells
        sl = [slice(None)] * 3
        sl[wall[0]] = wall[1]
        kx[tuple(sl)] = 0; ky[tuple(sl)] = 0; kz[tuple(sl)] = 0
    # floor perms that would leave float32's accurate range
    for k in (kx, ky, kz):
        k[(k > 0) & (k < 1e-18)] = 1e-18
    out = dict(kx=f32(kx), ky=f32(ky), kz=f32(kz), phi=f32(phi))
    ini = case.get("init", {})
    r = np.random.RandomState(ini.get("seed", 0))
    P = np.full(sh, ini.get("P", 20.0) * 1e6)
    if ini.get("dP"):
        P = P + ini["dP"] * 1e6 * r.uniform(-1, 1, sh)
    if ini.get("hydro"):
        P = P + ini["hydro"] * 9.81 * case["gs"][2] * np.arange(nz)[None, None, :]
    sw = np.full(sh, ini.get("sw", 0.3)); sg = np.full(sh, ini.get("sg", 0.0))
    if ini.get("dsw"):
        sw = sw + ini["dsw"] * r.uniform(0, 1, sh)
    if ini.get("dsg"):
        sg = sg + ini["dsg"] * r.uniform(0, 1, sh)
    if ini.get("mask"):         # some cells at exact endpoints
        m = r.rand(*sh)
        sw = np.where(m < ini["mask"], ini.get("sw_end", sw), sw)
    cap = ini.get("cap", 1.0)
    tot = sw + sg
    over = tot > cap
    sw = np.where(over, sw * cap / np.maximum(tot, 1e-9), sw); sg = np.where(over, sg * cap / np.maximum(tot, 1e-9), sg)
    if "P_arr" in ini:
        P = np.array(ini["P_arr"], dtype=np.float64).reshape(sh)
    if "sw_arr" in ini:
        sw = np.array(ini["sw_arr"], dtype=np.float64).reshape(sh)
    if "sg_arr" in ini:
        sg = np.array(ini["sg_arr"], dtype=np.float64).reshape(sh)
    out.update(P=f32(P), sw=f32(sw), sg=f32(sg))
    tr = case.get("transform")
    if tr:
        for kname in list(out):
            out[kname] = apply_transform(out[kname], tr)
        if "swap" in tr:
            out["kx"], out["ky"] = out["ky"], out["kx"]
    return out


def apply_transform(a, tr):
    """mirror x / mirror y / exchange x and y of a cell field"""
    if "mx" in tr:
        a = a[::-1, :, :]
    if "my" in tr:
        a = a[:, ::-1, :]
    if "swap" in tr:
        a = np.transpose(a, (1, 0, 2))
    return np.ascontiguousarray(a)


def transform_case(case, tr):
    """The same physical problem described in mirrored / exchanged axes."""
    c = dict(case)
    nx, ny, nz = case["dims"]
    c["transform"] = list(tr)
    c["base_dims"] = [nx, ny, nz]; c["base_gs"] = list(case["gs"])
    ws = []
    for w in case["wells"]:
        i, j, k = w["coordinates"]
        if "mx" in tr:
            i = nx - 1 - i
        if "my" in tr:
            j = ny - 1 - j
        if "swap" in tr:
            i, j = j, i
        ws.append(dict(w, coordinates=[i, j, k]))
    c["wells"] = ws
    return c


def eff_dims(case):
    if "transform" in case and "swap" in case["transform"]:
        a, b, c = case["dims"]; x, y, z = case["gs"]
        return [b, a, c], [y, x, z]
    return list(case["dims"]), list(case["gs"])


def pvt_path(spec, scratch):
    name = os.path.join(scratch, "pvt-%s.json" % abs(hash(json.dumps(spec, sort_keys=True))))
    if not os.path.exists(name):
        with open(name, "w") as f:
            json.dump(spec, f)
    return name


def reservoir_cfg(case):
    dims, gs = eff_dims(case)
    cfg = {"dimensions": dims, "grid_size": gs, "porosity": case.get("poro", 0.2), "permeability": case.get("perm", 100.0)}
    if "kvf" in case:
        cfg["k_vertical_fraction"] = case["kvf"]
    return cfg


def fluid_cfg(case, scratch):
    cfg = dict(case.get("fluid", {}))
    ini = case.get("init", {})
    cfg.setdefault("pressure", ini.get("P", 20.0)); cfg.setdefault("s_w", ini.get("sw", 0.3)); cfg.setdefault("s_g", ini.get("sg", 0.0))
    if cfg["s_w"] + cfg["s_g"] > 1:      # the fields are assigned afterwards
        cfg["s_g"] = max(0.0, 0.999 - cfg["s_w"])
    if case.get("pvt"):
        cfg["pvt_path"] = pvt_path(case["pvt"], scratch)
    return cfg


def build(case, ctx, fields=None):
    """-> Simulator under test with the case's fields."""
    L = load()
    torch = L["torch"]
    F = fields if fields is not None else case_fields(case)
    dims, gs = eff_dims(case)
    res = L["Reservoir"](reservoir_cfg(case), L["cpu"])
    T = lambda a: torch.from_numpy(np.array(a, dtype=np.float32, copy=True))
    if case.get("het") or case.get("walls"):
        res.permeability_x, res.permeability_y, res.permeability_z = T(F["kx"]), T(F["ky"]), T(F["kz"])
        res.porosity = T(F["phi"])
        res.porous_volume = res.cell_volume * res.porosity
    wm = L["WellManager"]([json.loads(json.dumps(w)) for w in case.get("wells", [])], res)
    fl = L["Fluid"](fluid_cfg(case, ctx.scratch), res, L["cpu"])
    fl.pressure, fl.s_w, fl.s_g = T(F["P"]), T(F["sw"]), T(F["sg"])
    fl.s_o = 1.0 - fl.s_w - fl.s_g
    fl.prev_pressure, fl.prev_sw, fl.prev_sg = fl.pressure.clone(), fl.s_w.clone(), fl.s_g.clone()
    sim = L["Simulator"](res, fl, wm, json.loads(json.dumps(case.get("sim", {}))), L["cpu"])
    return sim


def state(sim):
    """Observed fields (copies, float64 holding float32 values)."""
    f = sim.fluid
    return dict(P=f64(f.pressure), sw=f64(f.s_w), sg=f64(f.s_g), so=f64(f.s_o))
