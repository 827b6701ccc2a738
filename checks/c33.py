"""C33: whole runs against closed-form solutions."""
import numpy as np
import gen
from oil import load, build, state, case_fields

PROP = "C33"
RULE = ("Four kinds of whole runs, none of whose references uses the discretisation of the code: (darcy) a heterogeneous row along a random axis between two pressure-controlled wells, stepped to steady state: the series-resistance solution at every cell; "
        "(relax) a closed uniform block of one mobile phase with a product of cosines as initial pressure: every cell decays with the eigenvalue of the diffusion operator, "
        "and with the continuous rate where steps and cells are small; (front) a row displaced by water injection until past mid-way: the Buckley-Leverett profile from the convex-hull construction; (tank) a closed block with an injector and a producer: the mean pressure follows the net volume over "
        "pore volume times compressibility. Non-trivial: a run with flow, distinct by case.")
ASSUMPTIONS = ["no table (constant total compressibility), rates small enough that no saturation window is reached in the tank and front runs"]
PLAN = {"quick": {"n": 900, "seconds": 60}, "thorough": {"n": None, "seconds": 600}}
REQUIRED = {"darcy: runs": 60, "darcy: upright": 12, "relax: runs": 150, "relax: continuous": 15, "front: runs": 25, "tank: runs": 150, "cells compared": 12000}
G = 9.81


# slow downward displacement (pressure rises along the flow): the pressure equation takes the mobility of the wrong cell (known finding)
DIRECTED = [{"dims": [1, 1, 40], "gs": [5.0, 27.0, 15.0], "poro": 0.25, "perm": 150.0, "fluid": {"mu_oil": 0.52, "mu_water": 0.3, "c_oil": 1e-6, "c_water": 1e-6, "c_gas": 1e-6, "c_rock": 1e-6,
             "relative_permeability": {"model": "corey", "nw": 2, "no": 2, "ng": 1, "sw_cr": 0.25, "so_r": 0.0, "krw_end": 0.2}, "rho_oil": 900.0, "rho_water": 900.0, "rho_gas": 1.0}, "kvf": 1.0,
             "init": {"P": 32.0, "seed": 0, "sw": 0.25}, "wells": [], "sim": {"cg_tolerance": 1e-10, "cg_max_iter": 4000, "solver_type": "impes"}, "dt": [1.0],
             "kind": "front", "axis": 2, "flip": False, "slow": True, "reach": 0.54, "rate": 0.022}]


def prepare():
    load()


def case(rng, idx, tier):
    kind = ["darcy", "relax", "tank", "front", "relax", "tank"][idx % 6]
    c = gen.base(rng, maxn=60, pvt=False, pc=False, gas=False, het=False)
    c["kind"] = kind
    c["poro"] = gen.rnd(rng.uniform(0.08, 0.35), 3)
    c["kvf"] = rng.choice([1.0, 0.5, 0.1])
    c["init"] = {"P": gen.rnd(rng.uniform(15, 35), 4), "seed": 0}
    f, rp = c["fluid"], c["fluid"]["relative_permeability"]
    c["axis"] = rng.randrange(3)
    if kind == "darcy":
        n = rng.randint(3, 20)
        c["dims"] = [1, 1, 1]; c["dims"][c["axis"]] = n
        c["het"] = {"seed": rng.randrange(10 ** 6), "k": rng.choice([0.0, 0.5, 1.0]), "aniso": rng.random() < 0.5}
        f["c_water"] = f["c_oil"] = 0.0
        c["phase"] = rng.choice("wwo")
        c["init"]["sw"] = 1 - rp["so_r"] if c["phase"] == "w" else rp["sw_cr"] * rng.choice([1.0, 0.5])
        c["drop"] = gen.rnd(rng.choice([1, -1]) * rng.uniform(1, 6), 4)
        c["radius"] = [rng.choice([0.05, 0.1, 0.25]), rng.choice([0.05, 0.1, 0.25])]
        c["dt"] = [gen.rnd(gen.logu(rng, 10, 1e4))] * 60
    elif kind == "relax":
        while c["dims"][2] > 1 or c["dims"][0] * c["dims"][1] < 3:
            c["dims"] = gen.dims(rng, 300); c["dims"][2] = 1
            if rng.random() < 0.4:
                c["dims"] = [1, 1, 1]; c["dims"][rng.randrange(2)] = rng.randint(16, 40)
        c["init"]["sw"] = gen.rnd(rp["sw_cr"] * rng.choice([1.0, 0.5]))
        c["modes"] = [rng.randint(0, min(3, d - 1)) for d in c["dims"]]
        if sum(c["modes"]) == 0:
            a = int(np.argmax(c["dims"])); c["modes"][a] = 1
        c["amp"] = gen.rnd(rng.uniform(0.5, 4), 3)
        c["fine"] = rng.random() < 0.4
        c["steps"] = rng.choice([1, 2, 5, 20]) if not c["fine"] else rng.choice([30, 60])
        c["decay"] = rng.uniform(0.2, 2.0)          # expected decay of the logarithm over the run
    elif kind == "tank":
        c["het"] = {"seed": rng.randrange(10 ** 6), "k": rng.choice([0.0, 1.0]), "aniso": rng.random() < 0.5, "phi": rng.random() < 0.5}
        c["init"]["sw"] = gen.rnd(rp["sw_cr"] + rng.uniform(0.3, 0.6) * (1 - rp["so_r"] - rp["sw_cr"]))
        c["part"] = [gen.rnd(rng.uniform(0.02, 0.2), 3), gen.rnd(rng.uniform(0, 0.1), 3)]
        c["rise"] = rng.uniform(0.3, 3.0)
        c["steps"] = rng.choice([1, 3, 8])
        c["at"] = [[rng.randrange(d) for d in c["dims"]] for _ in range(2)]
    else:
        c["dims"] = [1, 1, 1]; c["dims"][c["axis"]] = rng.choice([30, 40, 50])
        c["flip"] = rng.random() < 0.5
        f["rho_oil"] = f["rho_water"] = 900.0
        c["perm"] = gen.logu(rng, 100, 2000)
        c["kvf"] = 1.0
        for k in ("c_oil", "c_water", "c_gas", "c_rock"):
            f[k] = 1e-6
        for k in ("no", "now"):     # a front that moves as a piston fills cells to the end of their window, where the injector is throttled
            if rp.get(k, 2) < 1.5:
                rp[k] = 2
        c["reach"] = gen.rnd(rng.uniform(0.4, 0.75), 3)
        c["init"]["sw"] = rp["sw_cr"]
        c["rate"] = gen.rnd(rng.uniform(0.02, 0.06), 3)     # pore volumes of a cell per step, before the fractional-flow slope
    return c


def run(case, ctx):
    {"darcy": darcy, "relax": relax, "tank": tank, "front": front}[case["kind"]](case, ctx)


def kro(case, sw, sor, swc):
    rp = case["fluid"]["relative_permeability"]
    x = np.clip((1 - sw - sor) / (1 - swc - sor), 0, 1)
    if rp["model"] == "stone2":
        return rp.get("ko_end_w", 1.0) * x ** rp.get("now", rp["no"])
    return x ** rp["no"]


def krw(case, sw, sor, swc):
    rp = case["fluid"]["relative_permeability"]
    return rp.get("krw_end", 1.0) * np.clip((sw - swc) / (1 - swc - sor), 0, 1) ** rp["nw"]


def constants(case):
    rp, f = case["fluid"]["relative_permeability"], case["fluid"]
    return rp["sw_cr"], rp["so_r"], f["mu_water"] * 1e-3, f["mu_oil"] * 1e-3


def ct(case):
    """the constant total compressibility used without a table, 1/Pa"""
    f = case["fluid"]
    return sum(f[k] for k in ("c_oil", "c_water", "c_gas", "c_rock")) / 3 * 1e-6


def stepped(sim, dt, ctx):
    ok = sim.run_step(dt)
    if not ok:
        ctx.count("failed steps")
    return ok


def darcy(case, ctx):
    ax, gs = case["axis"], case["gs"]
    n = case["dims"][ax]
    swc, sor, muw, muo = constants(case)
    F = case_fields(case)
    P0 = case["init"]["P"]
    pw = [P0 + case["drop"] / 2, P0 - case["drop"] / 2]
    ends = [[0, 0, 0], [0, 0, 0]]; ends[1][ax] = n - 1
    rmax = 0.1 * np.hypot(gs[0], gs[1])
    head = case["fluid"]["rho_water" if case["phase"] == "w" else "rho_oil"] * G * (n - 1) * gs[2] / 1e6 if ax == 2 else 0.0
    down = pw[0] - pw[1] + head > 0                     # flow from the first cell to the last
    case = dict(case, wells=[{"name": "AB"[e], "type": "injector" if down == (e == 0) and case["phase"] == "w" else "producer", "coordinates": ends[e], "radius": min(case["radius"][e], rmax), "control": {"type": "bhp", "value": pw[e]}} for e in (0, 1)])
    sim = build(case, ctx)
    last = None
    for m, d in enumerate(case["dt"]):
        if not stepped(sim, d * 86400.0, ctx):
            return
        P = state(sim)["P"].ravel()
        if last is not None and np.abs(P - last).max() <= 4:
            break
        last = P
    else:
        ctx.count("darcy: not steady yet"); return
    k = F["k" + "xyz"[ax]].astype(float).ravel()
    sw = state(sim)["sw"].ravel()
    each = krw(case, sw, sor, swc) / muw + kro(case, sw, sor, swc) / muo       # a cell that drained on the way there carries a little less
    if ax == 2 and np.ptp(each) > 1e-3 * each.max():
        ctx.count("darcy: upright with two phases"); return
    lam = each[:-1] if down else each[1:]
    kx, ky = F["kx"].astype(float).ravel(), F["ky"].astype(float).ravel()
    L = gs[ax]; A = np.prod(gs) / L
    half = 0.5 * L / (k * A)                            # resistance of half a cell
    face = lam / (half[:-1] + half[1:])
    wr = [np.log(0.14 * np.hypot(gs[0], gs[1]) / w["radius"]) / (2 * np.pi * np.sqrt(kx[i] * ky[i]) * gs[2] * each[i]) for w, i in zip(case["wells"], (0, n - 1))]
    R = np.concatenate([[0], np.cumsum(1 / face)])
    rho = case["fluid"]["rho_water" if case["phase"] == "w" else "rho_oil"]
    z = np.arange(n) * L if ax == 2 else np.zeros(n)
    Q = ((pw[0] - pw[1]) * 1e6 + rho * G * z[-1]) / (wr[0] + R[-1] + wr[1])
    want = pw[0] * 1e6 - Q * (wr[0] + R) + rho * G * z
    # what single-precision coefficients and pressures may add to the balance of each cell, through the resistances
    diag = np.zeros(n)
    diag[:-1] += face; diag[1:] += face; diag[0] += 1 / wr[0]; diag[-1] += 1 / wr[1]
    left, right = wr[0] + R, wr[1] + R[-1] - R
    green = np.minimum.outer(left, left) * np.minimum.outer(right, right) / (left[0] + right[0])
    tol = 40.0 + 2e-5 * abs(case["drop"]) * 1e6 + green @ (diag * 2.5e-7 * np.abs(want))
    tol = tol + np.ptp(each) / each.max() * np.ptp(want - rho * G * z)     # still draining
    if tol.max() > 0.03e6 * abs(case["drop"]):
        ctx.count("darcy: contrast too large for single precision"); return
    dev = np.abs(P - want)
    ctx.worst("darcy", (dev / tol).max())
    i = int((dev / tol).argmax())
    ctx.check(dev[i] <= tol[i], "steady flow along axis %d: pressure of cell %d is %.9g Pa, Darcy's law in series gives %.9g" % (ax, i, P[i], want[i]), wells=case["wells"], steps=m + 1)
    ctx.count("darcy: runs"); ctx.count("cells compared", n)
    if ax == 2:
        ctx.count("darcy: upright")
    ctx.nontrivial("darcy", case["perm"], n, case["drop"])
    ctx.sample({"kind": "darcy", "cells": n, "axis": ax, "rate m3/d": Q * 86400, "steps": m + 1})


def relax(case, ctx):
    swc, sor, muw, muo = constants(case)
    lam = float(kro(case, np.float32(case["init"]["sw"]).astype(float), sor, swc)) / muo
    kx = case["perm"] * 9.869233e-16
    D = kx * lam / (case["poro"] * ct(case))            # hydraulic diffusivity
    kap = sum(D * (2 - 2 * np.cos(np.pi * m / n)) / h ** 2 for m, n, h in zip(case["modes"], case["dims"], case["gs"]))
    cont = sum(D * (np.pi * m / (n * h)) ** 2 for m, n, h in zip(case["modes"], case["dims"], case["gs"]))
    dt = case["decay"] / kap / case["steps"]
    if not 1e-3 < dt < 1e9:
        ctx.count("relax: too fast or slow"); return
    sim = build(case, ctx)
    shape = np.ones(case["dims"])
    for a, (m, n) in enumerate(zip(case["modes"], case["dims"])):
        s = [1, 1, 1]; s[a] = n
        shape = shape * np.cos(np.pi * m * (np.arange(n) + 0.5) / n).reshape(s)
    import torch
    P0 = case["init"]["P"] * 1e6
    start = (P0 + case["amp"] * 1e6 * shape).astype(np.float32)
    sim.fluid.pressure = torch.from_numpy(start.copy()); sim.fluid.prev_pressure = sim.fluid.pressure.clone()
    st = state(sim)
    for m in range(case["steps"]):
        if not stepped(sim, dt, ctx):
            return
    new = state(sim)
    f = (1 + dt * kap) ** -case["steps"]
    want = P0 + f * case["amp"] * 1e6 * shape
    tol = 4.0 * case["steps"] + 20 + 1e-4 * case["amp"] * 1e6 * min(1.0, case["decay"])
    dev = np.abs(new["P"] - want)
    ctx.worst("relax", dev.max() / tol)
    c = tuple(int(x) for x in np.unravel_index(dev.argmax(), dev.shape))
    ctx.check(dev.max() <= tol, "closed block of one phase: after %d steps of %.4g s pressure of cell %s is %.9g Pa; its cosine decays to %.9g" % (case["steps"], dt, list(c), new["P"][c], want[c]), decay=f)
    ctx.check((new["sw"] == st["sw"]).all(), "immobile water moved while pressure relaxed")
    ctx.count("relax: runs"); ctx.count("cells compared", dev.size)
    ctx.nontrivial("relax", case["perm"], case["amp"], case["modes"])
    e = np.exp(-cont * dt * case["steps"])
    small = abs(f - e)                                  # what steps and cells of this size make of it
    if small < 0.02 * e:
        got = float(((new["P"] - P0) * shape).sum() / (shape ** 2).sum() / (case["amp"] * 1e6))
        ctx.check(abs(got - e) <= 0.025 * e + tol / (case["amp"] * 1e6), "pressure relaxes to %.5g of its amplitude, the diffusion equation gives %.5g" % (got, e), diffusivity=D)
        ctx.count("relax: continuous")


def tank(case, ctx):
    F = case_fields(case)
    V = float(np.prod(case["gs"])); PV = F["phi"].astype(float) * V
    T = gen_time(case, PV)
    # volumes that raise the mean pressure by the wanted amount, kept within what the wells' cells can take
    want = case["rise"] * 1e6 * ct(case) * PV.sum()
    room = [0.15 * float(PV[tuple(a)]) for a in case["at"]]
    vin = min(want, case["part"][0] * room[0] / 0.2)
    vout = min(case["part"][1] * room[1] / 0.2, 0.9 * vin)
    if case["at"][0] == case["at"][1]:
        vout = 0.0
    vin, vout = (float(gen.rnd(v / T * 86400.0, 6)) for v in (vin, vout))      # m3 per day
    wells = [{"name": "IN", "type": "injector", "coordinates": case["at"][0], "radius": 0.05, "control": {"type": "rate", "value": vin}}]
    if vout > 0:
        wells.append({"name": "OUT", "type": "producer", "coordinates": case["at"][1], "radius": 0.05, "control": {"type": "rate", "value": vout}})
    case = dict(case, wells=wells)
    sim = build(case, ctx)
    st = state(sim)
    for m in range(case["steps"]):
        if not stepped(sim, T / case["steps"], ctx):
            return
    new = state(sim)
    got = float((PV * (new["P"] - st["P"])).sum() / PV.sum())
    exp = (vin - vout) / 86400.0 * T / (PV.sum() * ct(case))
    tol = 3.0 * case["steps"] + 2e-4 * exp + 10
    if not new["P"].min() > 1e5:
        ctx.count("tank: emptied"); return
    ctx.worst("tank", abs(got - exp) / tol)
    ctx.check(abs(got - exp) <= tol, "closed block: the mean pressure rose by %.8g Pa; net volume over pore volume and compressibility is %.8g" % (got, exp), wells=wells, seconds=T, steps=case["steps"])
    ctx.count("tank: runs"); ctx.count("cells compared", PV.size)
    if exp > 1e3:
        ctx.nontrivial("tank", case["perm"], vin, case["steps"])


def gen_time(case, PV):
    return 86400.0 * float(gen.rnd(10 ** (case["rise"] - 1), 4))


def front(case, ctx):
    swc, sor, muw, muo = constants(case)
    ax = case["axis"]; n = case["dims"][ax]
    s = np.linspace(swc, 1 - sor, 4001)
    lw, lo = krw(case, s, sor, swc) / muw, kro(case, s, sor, swc) / muo
    f = lw / (lw + lo)
    hull = [0]                                          # upper concave envelope of the fractional flow
    for i in range(1, len(s)):
        while len(hull) > 1 and (f[hull[-1]] - f[hull[-2]]) * (s[i] - s[hull[-2]]) <= (f[i] - f[hull[-2]]) * (s[hull[-1]] - s[hull[-2]]):
            hull.pop()
        hull.append(i)
    hs, hf = s[hull], f[hull]
    speed = np.diff(hf) / np.diff(hs)                   # decreasing: speed of each value of saturation, in pore volumes
    mid = 0.5 * (hs[1:] + hs[:-1])
    PV = float(np.prod(case["gs"])) * case["poro"]
    fmax = float(np.abs(np.diff(f) / np.diff(s)).max())
    lmin = float((lw + lo).min())
    pvi = case["reach"] / speed.max()
    step = case["rate"] / max(1.0, fmax / 4)            # cell pore volumes per step; stable up to 1 / fmax
    while not case.get("slow") and 1 - np.interp(1 - sor - 1.1 * step, s, f) > 0.005:      # the injector never puts in more than the room its cell has at the start of a step
        step /= 1.5
    m = int(np.ceil(pvi * n / step))
    if m > (700 if case.get("slow") else 350):
        ctx.count("front: too slow"); return
    # pressures: a gradient the model can hold
    k = case["perm"] * 9.869233e-16
    L = case["gs"][ax]; A = float(np.prod(case["gs"])) / L
    drop = 3e6
    if ax == 2 and not case["flip"] and not case.get("slow"):
        drop = max(drop, 2 * 900.0 * G * n * L * float((lw + lo).max()) / lmin)         # pressure falls downward too (see the known finding)
    if drop > 3e7:
        ctx.count("front: too tall"); return
    q = drop * k * A * lmin / (n * L)
    dt = step * PV / q
    a, b = [0, 0, 0], [0, 0, 0]
    (a if case["flip"] else b)[ax] = n - 1
    case = dict(case, wells=[{"name": "IN", "type": "injector", "coordinates": a, "radius": 0.05, "control": {"type": "rate", "value": q * 86400.0}},
                             {"name": "OUT", "type": "producer", "coordinates": b, "radius": 0.05, "control": {"type": "bhp", "value": case["init"]["P"]}}])
    sim = build(case, ctx)
    for i in range(m):
        if not stepped(sim, dt, ctx):
            return
    new = state(sim)
    got = new["sw"].ravel()
    if case["flip"]:
        got = got[::-1]
    # cell averages of the exact profile: integral of s over x from the positions of each value
    vol = pvi_done = m * step / n                       # pore volumes of the row injected
    x = np.concatenate([[0], vol * speed[::-1], [vol * speed[0], 1.0]])      # positions ascending, from the well
    val = np.concatenate([[1 - sor], mid[::-1], [swc, swc]])
    fine = (np.arange(n * 50) + 0.5) / (n * 50)
    exact = np.interp(fine, x, val).reshape(n, 50).mean(1)
    err = np.abs(got - exact).sum()                     # in pore volumes of a cell
    tol = 1.5 + 0.04 * n * vol
    ctx.worst("front", err / tol)
    ctx.worst("front: rise", np.diff(got).max() / 0.04)
    total = (got.mean() - swc) / vol
    ctx.worst("front: volume", abs(total - 1) / 0.03)
    if case.get("slow") and abs(total - 1) > 0.03:
        ctx.known("downward-flow-upstream-by-pressure", "%.3g of the water injected at the top of a row is in it" % total); return
    ctx.check(abs(total - 1) <= 0.03, "displacement: %.5g of the injected water is in the row" % total, steps=m)
    ctx.check(err <= tol, "displacement: the water profile is %.3g cell volumes (%.3g allowed) off the Buckley-Leverett solution (front at %.3f of the row)" % (err, tol, vol * speed.max()), profile=got.tolist(), exact=exact.tolist())
    ctx.check((np.diff(got) <= 0.04).all(), "displacement: water saturation is not falling away from the injector", profile=got.tolist())
    ctx.count("front: runs"); ctx.count("cells compared", n)
    ctx.nontrivial("front", case["perm"], case["reach"], n)
    ctx.sample({"kind": "front", "cells": n, "steps": m, "error": err})
