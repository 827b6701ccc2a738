"""Monitors of what wells report after a step, shared by C13-C16."""
import numpy as np
from sat import compare
from wells import DAY, LIMITS, conv_rel


def target(w, M):
    return w["control"]["value"] * M.scale


def key_of(w):
    sp = (w.get("surface_phase") or "liquid").lower()
    return sp if sp in ("oil", "water", "gas") else "liquid"


def sane(a):
    """the conversion factors of this cell are far from the guards against division by zero"""
    s = a.get("surf_per_res")
    return s is not None and not a.get("tiny")


def unchoked(a, margin=0.01):
    return a.get("alpha", 0) >= 1 + margin


def observe(sim):
    """reported total and phase rates of every well"""
    out = []
    for w in sim.well_manager.get_wells():
        out.append(dict(q=w.last_q_total, surf=dict(getattr(w, "last_surface_rates", None) or {}), name=w.name))
    return out


def reported_consistent(ctx, M, n, w, a, o):
    """reported phase rates = reported total rate x the fluid state of the cell"""
    ctx.check(o["q"] is not None and o["surf"], "step %d: producer %s reports no rates" % (n, w["name"]))
    q = float(o["q"])
    surf = {k: float(v) for k, v in o["surf"].items()}
    for k in ("oil", "water", "gas", "liquid"):
        ctx.check(k in surf and np.isfinite(surf[k]), "step %d: producer %s reports no %s rate" % (n, w["name"], k))
        s = a["surf_per_res"]
        want = abs(q) * s[k] * DAY
        rel = conv_rel(k, s, a["b"], a["fe"]) + 1e-5
        if s[k] < 1e-25:
            continue
        dev = abs(surf[k] - want) / (rel * want + 1e-9 * abs(q) * DAY + 1e-15)
        ctx.worst("reported phase rates", dev)
        ctx.check(dev <= 1, "step %d: producer %s reports %.8g m3/d of %s with a total of %.8g m3/s; the cell's state makes that %.8g" % (n, w["name"], surf[k], k, q, want), well=w)
    ctx.check(abs(surf["liquid"] - surf["oil"] - surf["water"]) <= 1e-5 * surf["liquid"] + 1e-12, "step %d: liquid is not oil plus water" % n)
    ctx.count("reports")
    return q, surf


def rate_matches(ctx, n, w, a, o):
    """reported total rate = the reference's rate"""
    q = float(o["q"])
    tol = a["q_err"] + 2e-5 * abs(a["q"]) + 1e-15
    dev = abs(q - a["q"]) / tol
    ctx.worst("reported total rate (%s)" % a["mode"], dev)
    ctx.check(dev <= 1, "step %d: well %s reports %.8g m3/s, expected %.8g" % (n, w["name"], q, a["q"]), well=w, choked=a["choked"], limited=a["limited"], mode=a["mode"])


def cells_follow(ctx, M, case, st, new, dt, n, only_wells=True, obs=None):
    """every cell's saturation change equals fluxes plus well terms of the reference; -> reference (with the matching well modes)"""
    worst, rw, rg, r = compare(M, case, st, new, dt, obs and [None if o["q"] is None else float(o["q"]) for o in obs])
    rr = np.where(r["loose"], np.maximum(rw, rg), 0)
    if only_wells:
        mask = np.zeros(rr.shape, bool)
        for w in case["wells"]:
            mask[tuple(w["coordinates"])] = True
        rr = np.where(mask, rr, 0)
    ctx.worst("well cells", rr.max())
    if rr.max() > 1:
        c = tuple(int(x) for x in np.unravel_index(rr.argmax(), rr.shape))
        ctx.fail("step %d: cell %s: water changed by %.6g, gas by %.6g; fluxes plus wells give %.6g, %.6g" %
                 (n, list(c), new["sw"][c] - st["sw"][c], new["sg"][c] - st["sg"][c], r["dw"][c], r["dg"][c]), wells=[w for w in case["wells"] if tuple(w["coordinates"]) == c])
    ctx.count("cells followed", int(r["loose"].sum()))
    return r
