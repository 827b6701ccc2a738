"""Random cases: diverse grids, rocks, fluids, PVT tables, wells.  Everything is JSON."""
import math
from oil import MD


def rnd(x, n=6):
    return float("%.*g" % (n, x))


def logu(rng, a, b):
    return rnd(math.exp(rng.uniform(math.log(a), math.log(b))))


def pvt_table(rng, rv=None, lo=None, hi=None):
    """Random black-oil table; volume factors strictly decreasing with pressure."""
    n = rng.choice([2, 3, 4, 5, 8, 12, 20])
    if lo is None and hi is None and rng.random() < 0.1:      # pressures leave the table
        lo = rng.choice([8.0, 15.0, 22.0, 36.0]); hi = lo + rng.uniform(3, 15)
    lo = rng.choice([0.1, 1.0, 5.0]) if lo is None else lo
    hi = rng.uniform(45, 80) if hi is None else hi
    P = sorted([lo, hi] + [rng.uniform(lo, hi) for _ in range(n - 2)])
    P = [rnd(p) for p in P]
    for a in range(1, n):       # strictly increasing, not closer than 0.5 MPa
        if P[a] - P[a - 1] < 0.5:
            P[a] = rnd(P[a - 1] + 0.5 + rng.random())
    bo0, bw0 = rng.uniform(1.1, 1.7), rng.uniform(1.0, 1.08)
    co, cw = logu(rng, 3e-4, 3e-3), logu(rng, 2e-4, 6e-4)
    bg0 = rng.uniform(0.003, 0.02)
    Bo = [rnd(bo0 * math.exp(-co * (p - P[0]))) for p in P]
    Bw = [rnd(bw0 * math.exp(-cw * (p - P[0]))) for p in P]
    kg = logu(rng, 5e-3, 5e-2)
    Bg = [rnd(bg0 * math.exp(-kg * (p - P[0]))) for p in P]
    rs0, rs1 = rng.uniform(0, 60), rng.uniform(60, 200)
    pb = rng.uniform(P[0], P[-1])
    t = {"pressure_MPa": P, "Bo": Bo, "Bw": Bw, "Bg": Bg,
         "mu_o_cP": [rnd(rng.uniform(0.6, 3.0)) for _ in P], "mu_w_cP": [rnd(rng.uniform(0.3, 0.9)) for _ in P],
         "mu_g_cP": [rnd(rng.uniform(0.012, 0.05)) for _ in P],
         "Rs_m3m3": [rnd(rs0 + (rs1 - rs0) * min(1.0, (p - P[0]) / max(pb - P[0], 0.1))) for p in P]}
    if rv is None:
        rv = rng.random() < 0.6
    if rv:
        r1 = rng.choice([0.0005, 0.005, 0.03])
        t["Rv_m3m3"] = [rnd(r1 * rng.uniform(0.2, 1.0)) for _ in P]
    return t


def relperm(rng, gas=True):
    rp = {"model": rng.choice(["corey", "corey", "stone2"]) if gas else "corey",
          "nw": rng.choice([1, 2, 2, 3, 4, 1.5]), "no": rng.choice([1, 2, 2, 3, 2.5]), "ng": rng.choice([1, 2, 2, 3, 1.7]),
          "sw_cr": rng.choice([0.0, 0.1, 0.2, 0.25]), "so_r": rng.choice([0.0, 0.1, 0.2, 0.3]), "sg_cr": rng.choice([0.0, 0.0, 0.02, 0.05])}
    if rng.random() < 0.5:
        rp["krw_end"] = rnd(rng.uniform(0.2, 1.0)); rp["krg_end"] = rnd(rng.uniform(0.3, 1.0))
    if rp["model"] == "stone2":
        if rng.random() < 0.6:
            rp["ko_end_w"] = rnd(rng.uniform(0.6, 1.0)); rp["ko_end_g"] = rnd(rng.uniform(0.6, 1.0))
        if rng.random() < 0.5:
            rp["now"] = rng.choice([1.5, 2.0, 3.0]); rp["nog"] = rng.choice([1.5, 2.0, 3.0])
    return rp


def fluid(rng, gas=True, pc=True, dens=True):
    f = {"mu_oil": logu(rng, 0.4, 8), "mu_water": logu(rng, 0.3, 1.2), "mu_gas": logu(rng, 0.015, 0.08),
         "c_oil": logu(rng, 1e-5, 3e-3), "c_water": logu(rng, 1e-5, 1e-3), "c_gas": logu(rng, 1e-4, 3e-2), "c_rock": logu(rng, 1e-6, 5e-4),
         "relative_permeability": relperm(rng, gas)}
    if dens:
        f.update(rho_oil=rnd(rng.uniform(700, 950), 4), rho_water=rnd(rng.uniform(980, 1150), 4), rho_gas=rng.choice([0.8, 1.0, 1.0, 30.0, 120.0]))
    if pc and rng.random() < 0.4:
        f["pc_scale"] = logu(rng, 30 if rng.random() < 0.2 else 200, 3e4); f["pc_exponent"] = rng.choice([0.3, 0.5, 1.0, 1.5])
    if pc and gas and rng.random() < 0.4:
        f["capillary_pressure_og"] = {"pc_scale": logu(rng, 30 if rng.random() < 0.2 else 200, 3e4), "pc_exponent": rng.choice([0.3, 0.5, 1.0, 1.5])}
    return f


def dims(rng, maxn=220, allow1=True):
    r = rng.random()
    if maxn >= 100 and r < 0.02:        # more than a thousand cells
        d = rng.choice([[33, 33, 1], [41, 5, 7], [6, 37, 5], [11, 10, 12], [2, 20, 31], [1, 33, 40], [70, 16, 1], [17, 8, 9]])
        rng.shuffle(d)
        return d
    if maxn >= 40 and r < 0.06:         # a long row or a tall column
        d = [rng.randint(20, 65), rng.choice([1, 1, 2]), rng.choice([1, 1, 2])]
        rng.shuffle(d)
        if d[0] * d[1] * d[2] <= 1.5 * maxn:
            return d
    while True:
        d = [rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 12]) for _ in range(3)]
        if rng.random() < 0.25:
            d[rng.randrange(3)] = 1
        n = d[0] * d[1] * d[2]
        if 2 <= n <= maxn:
            return d


def spacing(rng):
    return [rnd(rng.choice([5.0, 10.0, 20.0, 50.0, 100.0]) * rng.uniform(0.7, 1.4), 4), rnd(rng.choice([5.0, 10.0, 20.0, 50.0, 100.0]) * rng.uniform(0.7, 1.4), 4),
            rnd(rng.choice([1.0, 3.0, 8.0, 20.0] * 5 + [0.15]) * rng.uniform(0.7, 1.4), 4)]


def base(rng, maxn=220, gas=None, pvt=None, pc=True, het=True):
    gas = (rng.random() < 0.7) if gas is None else gas
    c = {"dims": dims(rng, maxn), "gs": spacing(rng), "poro": rnd(rng.uniform(0.08, 0.35) if rng.random() < 0.93 else rng.choice([0.02, 0.5, 0.9]), 3), "perm": logu(rng, 1, 2000), "fluid": fluid(rng, gas, pc)}
    if rng.random() < 0.7:
        c["kvf"] = rng.choice([1.0, 0.5, 0.1, 0.05] * 8 + [0.0])
    if het and rng.random() < 0.65:
        c["het"] = {"seed": rng.randrange(10 ** 6), "k": rng.choice([0.0, 0.5, 1.0, 2.0]), "aniso": rng.random() < 0.5, "phi": rng.random() < 0.5}
        if rng.random() < 0.15:
            c["het"]["zero"] = 0.15
    use_pvt = (rng.random() < 0.45) if pvt is None else pvt
    if use_pvt:
        c["pvt"] = pvt_table(rng)
    rp = c["fluid"]["relative_permeability"]
    lo, hi = rp["sw_cr"], 1 - rp["so_r"]
    sw = lo + rng.uniform(0.0, 0.5) * (hi - lo)
    ini = {"seed": rng.randrange(10 ** 6), "P": rnd(rng.uniform(12, 35), 4), "sw": rnd(sw), "cap": rnd(hi)}
    if rng.random() < 0.06:         # shallow or very deep
        ini["P"] = rnd(rng.choice([rng.uniform(6, 12), rng.uniform(35, 95)]), 4)
    ini["dP"] = rng.choice([0.0, 0.05, 0.5, 3.0])
    ini["dsw"] = rnd(rng.choice([0.0, 0.5, 1.0]) * (hi - sw))
    if gas:
        ini["sg"] = rnd(rng.choice([0.0, 0.05, 0.1, 0.2]))
        ini["dsg"] = rng.choice([0.0, 0.1, 0.3])
        if rng.random() < 0.3:
            ini["sg"] = rnd(max(ini["sg"], rp["sg_cr"]))
    if rng.random() < 0.3:
        ini["hydro"] = rng.choice([700.0, 850.0, 1000.0])
    c["init"] = ini
    c["wells"] = []
    c["sim"] = {"cg_tolerance": 1e-10, "cg_max_iter": 4000, "solver_type": "impes"}
    c["dt"] = [logu(rng, 0.02, 5)]
    return c


def pv_cell(c):
    return c["gs"][0] * c["gs"][1] * c["gs"][2] * c["poro"]


def well(rng, c, n, kinds=("inj", "prod", "bhp_inj", "bhp_prod"), surface=False, limits=False, bhp_min=False, frac=None):
    """A well whose rate moves a few per cent of the cell's pore volume per step."""
    d = c["dims"]
    kind = rng.choice(list(kinds))
    xyz = [rng.randrange(v) for v in d]
    frac = frac if frac is not None else rng.choice([0.003, 0.01, 0.03, 0.08])
    q = rnd(frac * rng.uniform(0.5, 1.5) * pv_cell(c) / c["dt"][0])
    rmax = 0.13 * math.hypot(c["gs"][0], c["gs"][1])
    w = {"name": "W%d" % n, "coordinates": xyz, "radius": rnd(min(rng.choice([0.05, 0.1, 0.25]), rmax), 3)}
    P0 = c["init"]["P"]
    if kind in ("inj", "prod"):
        w["control"] = {"type": "rate", "value": q}
    else:
        w["control"] = {"type": "bhp", "value": rnd(P0 + (1 if "inj" in kind else -1) * rng.choice([0.1, 1.0, 4.0]) * rng.uniform(0.5, 1), 5)}
    if "inj" in kind:
        w["type"] = "injector"
        if rng.random() < 0.5:
            w["injected_phase"] = rng.choice(["water", "gas"])
        if surface and kind == "inj" and rng.random() < 0.6:
            w["rate_type"] = "surface"
            if w.get("injected_phase") == "gas" and c.get("pvt"):
                w["control"]["value"] = rnd(q / c["pvt"]["Bg"][len(c["pvt"]["Bg"]) // 2])
    else:
        w["type"] = "producer"
        if kind == "prod":
            if surface and rng.random() < 0.7:
                w["rate_type"] = "surface"
                sp = rng.choice(["oil", "water", "gas", "liquid", None])
                if sp:
                    w["surface_phase"] = sp
                if sp == "gas":
                    w["control"]["value"] = rnd(q * rng.choice([20, 60]))
            if limits and rng.random() < 0.7:
                lim = {}
                for key in ("wopr", "wlpr", "wgpr", "liqr"):
                    if rng.random() < 0.5:
                        lim[key] = rnd(q * rng.choice([0.1, 0.4, 1.0, 3.0]) * (60 if key == "wgpr" else 1) * rng.uniform(0.5, 1.5))
                if lim:
                    w["limits"] = lim
            if bhp_min and rng.random() < 0.7:
                w["bhp_min"] = rnd(P0 - rng.choice([0.05, 0.5, 2.0, 8.0]) * rng.uniform(0.3, 1.5), 5)
    return w


def add_wells(rng, c, nmax=4, **kw):
    n = rng.randint(1, nmax) if rng.random() > 0.04 else rng.randint(6, 14)
    c["wells"] = [well(rng, c, a, **kw) for a in range(n)]
    if n > 1 and rng.random() < 0.25:     # two wells in one cell
        c["wells"][1]["coordinates"] = list(c["wells"][0]["coordinates"])
    return c


def stretch(rng, c, p=0.04):
    """now and then a long history on a small grid"""
    if c["dims"][0] * c["dims"][1] * c["dims"][2] <= 40 and rng.random() < p:
        n = rng.choice([15, 25, 40])
        c["dt"] = (c["dt"] * n)[:n]
    return c
