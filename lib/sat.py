"""Reference explicit saturation change of one IMPES step at the observed new pressure, with error bounds."""
import itertools
import numpy as np
from wells import actual_rates, switch_state


def mode_options(M, case, st):
    mm = M.mob(st["sw"], st["sg"], st["P"])
    modes = [switch_state(M, w, st, mm) for w in case.get("wells", [])]
    return list(itertools.product(*[(["rate", "bhp"] if md == "either" else [md]) for md in modes]))


def explicit(M, case, st, new, dt, modes):
    """-> dict: dw, dg (explicit change of water / gas saturation), ew, eg (error bounds), acts (wells), src (well part)"""
    Pn = new["P"]
    fx, m, me = M.fluxes(st, Pn)
    acts = actual_rates(M, case, st, new, dt, modes)
    q = {p: np.zeros_like(Pn) for p in "wg"}
    qe = {p: np.zeros_like(Pn) for p in "wg"}
    for w, a in zip(case.get("wells", []), acts):
        c = a["cell"]
        if w["type"] == "injector":
            p = "g" if w.get("injected_phase", "water") == "gas" else "w"
            q[p][c] += a["q"]; qe[p][c] += a["q_err"]
            a["phase"] = p
        else:
            for p in "wg":
                q[p][c] += a["q"] * a["f"][p]
                qe[p][c] += a["q_err"] * a["f"][p] + abs(a["q"]) * a["fe"][p] + 3e-6 * abs(a["q"]) * a["f"][p]
    k = dt / M.PV
    out = dict(acts=acts, fx=fx, m=m, me=me, q=q, qe=qe)
    for p, S in (("w", st["sw"]), ("g", st["sg"])):
        div, err, _ = fx[p]
        out["d" + p] = k * (q[p] - div)
        absum = np.zeros_like(Pn)
        for ax, fl, e in fx[p][2]:
            M.add_lo(absum, ax, np.abs(fl)); M.add_hi(absum, ax, np.abs(fl))
        out["e" + p] = k * (err + qe[p] + 3e-7 * (absum + np.abs(q[p])))
        out["sw_part_" + p] = k * absum
    sw, sg = st["sw"], st["sg"]
    # windows the update must respect
    wmin, gmin = np.minimum(sw, M.swc), np.minimum(sg, M.sgc)
    omin = np.minimum(1 - sw - sg, M.sor)
    out["floors"] = (wmin, gmin, omin)
    # number of sub-steps, for the rounding bound only
    with np.errstate(divide="ignore", invalid="ignore"):
        rat = 0.0
        for d, up, dn in ((out["dw"], 1 - M.sor - sg - sw, sw - M.swc), (out["dg"], 1 - M.sor - sg - sw, sg - M.sgc)):
            # the window as single precision may see it
            r = np.where(d > 0, d / np.maximum(up - 2.5e-7, 1e-12), -d / np.maximum(dn - 2.5e-7, 1e-12))
            rat = max(rat, float(np.nanmax(r)), float(np.abs(d).max() / M.sim.get("max_saturation_change", 0.05)))
    N = min(M.sim.get("max_substeps", 20), max(1, int(min(rat, 1e6)) + 2))
    out["N"] = N
    base = 1.3e-7 * (N + 3)
    out["tw"], out["tg"] = out["ew"] + base, out["eg"] + base
    ew_, eg_ = sw + out["dw"], sg + out["dg"]
    mw, mg = out["tw"], out["tg"]
    inside = (ew_ - wmin > mw) & (eg_ - gmin > mg) & (1 - ew_ - eg_ - omin > mw + mg)
    # a phase that does not move at all stays inside whatever its window
    still_w = (np.abs(out["dw"]) + out["ew"] < 1e-12); still_g = (np.abs(out["dg"]) + out["eg"] < 1e-12)
    inside |= still_w & (eg_ - gmin > mg) & (1 - ew_ - eg_ - omin > mw + mg)
    inside |= still_g & (ew_ - wmin > mw) & (1 - ew_ - eg_ - omin > mw + mg)
    inside |= still_g & still_w
    out["clean"] = inside
    # how much of a phase may be cut at a window that the change reaches within its error
    full = (1 - ew_ - eg_ - omin <= mw + mg) & ~(still_w & still_g)
    out["cut"] = {"w": (mw + mg) * (full | ((ew_ - wmin <= mw) & ~still_w)), "g": (mw + mg) * (full | ((eg_ - gmin <= mg) & ~still_g))}
    # cells that may touch a window only by rounding
    out["loose"] = (ew_ - wmin > -mw) & (eg_ - gmin > -mg) & (1 - ew_ - eg_ - omin > -(mw + mg))
    # cells that certainly overshoot
    out["over"] = ~out["loose"]
    return out


def compare(M, case, st, new, dt, obs=None):
    """Best variant of ambiguous well modes: -> (worst ratio over loose cells, per-phase ratio arrays, reference)"""
    best = None
    for modes in mode_options(M, case, st):
        r = explicit(M, case, st, new, dt, modes)
        rw = np.abs(new["sw"] - st["sw"] - r["dw"]) / r["tw"]
        rg = np.abs(new["sg"] - st["sg"] - r["dg"]) / r["tg"]
        # at a window a rounding-sized cut of one phase may also show in the other
        edge = r["loose"] & ~r["clean"]
        both = r["tw"] + r["tg"]
        rw = np.where(edge, np.abs(new["sw"] - st["sw"] - r["dw"]) / (2 * both), rw)
        rg = np.where(edge, np.abs(new["sg"] - st["sg"] - r["dg"]) / (2 * both), rg)
        sel = r["loose"]
        worst = max(rw[sel].max(initial=0), rg[sel].max(initial=0))
        score = worst
        if obs:             # reported total rates also tell the mode
            for a, o in zip(r["acts"], obs):
                if o is not None:
                    score = max(score, abs(o - a["q"]) / (a["q_err"] + 2e-5 * abs(a["q"]) + 1e-15))
        if best is None or score < best[4]:
            best = (float(worst), rw, rg, r, score)
    return best[:4]
