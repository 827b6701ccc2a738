"""Reference well terms: what each well should take from / put into its cell, from the case and the observed fields."""
import numpy as np

DAY = 86400.0


def _p(a, c):
    return float(a[c])


def fractions(m, c):
    t = float(m["t"][c])
    return {p: float(m[p][c]) / (t + 1e-10) for p in "owg"}


def conv(M, Pn, c):
    """Bo, Bw, Bg, Rs, Rv at the new cell pressure"""
    P = np.array([Pn[c]])
    return dict(Bo=float(M.B("o", P)[0]), Bw=float(M.B("w", P)[0]), Bg=float(M.B("g", P)[0]),
                Rs=float(M.tab("Rs_m3m3", P)[0]), Rv=float(M.tab("Rv_m3m3", P)[0]))


def surf_per_res(f, b):
    """surface volumes of oil, water, gas, liquid per reservoir volume produced"""
    o = f["o"] / b["Bo"] + f["g"] * b["Rv"] / b["Bg"]
    w = f["w"] / b["Bw"]
    g = f["g"] / b["Bg"] + f["o"] * b["Rs"] / b["Bo"]
    return dict(oil=o, water=w, gas=g, liquid=o + w)


LIMITS = (("wopr", "oil"), ("wlpr", "water"), ("wgpr", "gas"), ("liqr", "liquid"))


def limit(r, w, q, s, b, fe):
    lim = w.get("limits") or {}
    for key, ph in LIMITS:
        if key in lim and not lim[key] and s[ph] > 0 and conv_rel(ph, s, b, fe) >= 0.5:
            r["fuzzy"] = True; r["slack"] = abs(q)       # whether the forbidden phase flows at all is within rounding
    cand = [(lim[key] / DAY / s[ph], key) for key, ph in LIMITS if key in lim and s[ph] > 0]
    if cand:
        mq, key = min(cand)
        if abs(q) > mq:
            q = -mq; r["limited"] = key
    return q


def unit_rates(b):
    return {"oil": {"o": 1 / b["Bo"], "g": b["Rv"] / b["Bg"]}, "water": {"w": 1 / b["Bw"]}, "gas": {"g": 1 / b["Bg"], "o": b["Rs"] / b["Bo"]},
            "liquid": {"o": 1 / b["Bo"], "g": b["Rv"] / b["Bg"], "w": 1 / b["Bw"]}}


def conv_rel(key, s, b, fe):
    """relative error of a surface-per-reservoir factor from the errors of the phase fractions"""
    return sum(u * fe[p] for p, u in unit_rates(b)[key].items()) / max(s[key], 1e-300) + 3e-6


def lim_rel(r, s, b, fe):
    return conv_rel(dict(LIMITS)[r["limited"]], s, b, fe)


def switch_state(M, w, st, m=None):
    """Does a rate producer with bhp_min fall back to its minimum pressure?  -> 'rate' | 'bhp' | 'either' (within rounding)"""
    if w["control"]["type"] != "rate" or w["type"] != "producer" or w.get("bhp_min") is None:
        return w["control"]["type"]
    if m is None:
        m, me = M.mob(st["sw"], st["sg"], st["P"])
    else:
        m, me = m
    c = tuple(w["coordinates"])
    q = w["control"]["value"] * M.scale / DAY
    J = M.wi(w) * m["t"][c]
    Je = M.wi(w) * me["t"][c] + 3e-6 * J
    req = st["P"][c] - q / max(J, 1e-30)
    err = 3e-7 * abs(st["P"][c]) + q * Je / max(J, 1e-30) / max(J - Je, 1e-30) + 1e-6 * abs(q / max(J, 1e-30)) + 1.0
    d = req - w["bhp_min"] * 1e6
    if abs(d) <= err:
        return "either"
    return "bhp" if d < 0 else "rate"


def pressure_wells(M, case, st, new, dt):
    """Variants of the well terms of the pressure balance: first the rates wells really flow, then the raw configured rates
    (known finding C05).  Each: wells, q_abs, q_err."""
    out = []
    mm = M.mob(st["sw"], st["sg"], st["P"])
    modes = [switch_state(M, w, st, mm) for w in case.get("wells", [])]
    import itertools
    opts = [(["rate", "bhp"] if md == "either" else [md]) for md in modes]
    for combo in itertools.product(*opts):
        for ref in ("actual", "raw"):
            ws, q_abs, q_err, differs = [], 0.0, 0.0, False
            act = actual_rates(M, case, st, new, dt, combo) if ref == "actual" else None
            for a, (w, md) in enumerate(zip(case.get("wells", []), combo)):
                c = tuple(w["coordinates"])
                if md == "rate":
                    sgn = 1 if w["type"] == "injector" else -1
                    raw = sgn * w["control"]["value"] * M.scale / DAY
                    q = act[a]["q"] if ref == "actual" else raw
                    q_err += act[a]["q_err"] if ref == "actual" else 0.0
                    ws.append(dict(cell=c, kind="rate", q=q)); q_abs += abs(q)
                else:
                    p = (w["bhp_min"] if w["control"]["type"] == "rate" else w["control"]["value"]) * 1e6
                    J = M.wi(w) * mm[0]["t"][c]
                    Je = M.wi(w) * mm[1]["t"][c]
                    ws.append(dict(cell=c, kind="bhp", wi=M.wi(w), p=p))
                    q_abs += abs(J * (p - new["P"][c])) * 3
                    up = float(np.spacing(np.float32(abs(new["P"][c]))))
                    q_err += Je * abs(p - new["P"][c]) + J * up + 2.5e-7 * J * (abs(p) + abs(st["P"][c]))
            out.append(dict(wells=ws, q_abs=q_abs, q_err=q_err, known=("raw-rate-in-pressure-equation" if ref == "raw" else None)))
    # actual first, then raw
    out.sort(key=lambda v: v["known"] is not None)
    return out


def actual_rates(M, case, st, new, dt, modes):
    """What every well flows in the step (m3/s at reservoir conditions, + in, - out), with phase split and surface rates.
    Mobilities at the old saturations and new-pressure viscosities; volume factors at the new pressure."""
    Pn, sw, sg = new["P"], st["sw"], st["sg"]
    m, me = M.mob(sw, sg, Pn)
    res = []
    swc, sor, sgc = M.swc, M.sor, M.sgc
    for w, md in zip(case.get("wells", []), modes):
        c = tuple(w["coordinates"])
        PV = float(M.PV[c])
        Sw, Sg = float(sw[c]), float(sg[c])
        f = fractions(m, c)
        mt, mte = float(m["t"][c]), float(me["t"][c])
        fe = {p: (float(me[p][c]) + f[p] * mte) / (mt + 1e-10) for p in "owg"}
        r = dict(cell=c, mode=md, f=f, fe=fe, choked=False, limited=None, surf=None, type=w["type"])
        b = conv(M, Pn, c) if M.pvt else None
        r["b"] = b
        if md == "bhp":
            p = (w["bhp_min"] if w["control"]["type"] == "rate" else w["control"]["value"]) * 1e6
            q = M.wi(w) * mt * (p - float(Pn[c]))            # + into the cell
            up = float(np.spacing(np.float32(abs(Pn[c]))))
            r["q"] = q
            r["q_err"] = M.wi(w) * (mte * abs(p - Pn[c]) + mt * up * 1.1 + 3e-6 * mt * abs(p - Pn[c]))
            if w["type"] == "producer" and M.pvt:
                s = surf_per_res(f, b)
                if w["control"]["type"] == "rate" and q < 0:
                    q = limit(r, w, q, s, b, fe)
                    r["q"] = q
                    if r["limited"]:
                        r["q_err"] = abs(q) * lim_rel(r, s, b, fe)
                r["surf_per_res"] = s
                r["surf"] = {k: abs(q) * v * DAY for k, v in s.items()}
        else:
            q = w["control"]["value"] * M.scale / DAY
            rel = 3e-6
            if w["type"] == "injector":
                ph = w.get("injected_phase", "water")
                if w.get("rate_type", "reservoir") == "surface" and M.pvt:
                    q *= b["Bg"] if ph == "gas" else b["Bw"]
                room = max(0.0, 1.0 - sor - Sw - Sg)
                if q > 0:
                    al = room * PV / dt / q
                    if al < 1:
                        q *= max(0.0, al); r["choked"] = True
                r["room"] = room
                r["q"] = q; r["q_err"] = rel * abs(q) + (3e-7 * PV / dt if r["choked"] else 0)
            else:
                q = -q
                if M.pvt:
                    s = surf_per_res(f, b)
                    if w.get("rate_type", "reservoir") == "surface":
                        sp = (w.get("surface_phase") or "liquid").lower()
                        key = sp if sp in ("oil", "water", "gas") else "liquid"
                        den = s[key]
                        r["tiny"] = den < 1e-6
                        rel += conv_rel(key, s, b, fe)
                        q = q / max(den, 1e-12) if key != "water" else q * b["Bw"] / max(f["w"], 1e-8)
                    # availability of water and gas in the cell
                    al = np.inf
                    for p, S, crit in (("w", Sw, swc), ("g", Sg, sgc)):
                        take = -q * f[p] * dt / PV
                        kr = float(m[p][c] * M.mu(p, np.array([Pn[c]]))[0])
                        if take > 0 and kr > 1.3e-38:        # below: float32 underflow, the phase has no mobility
                            al = min(al, max(0.0, S - crit) / take)
                        elif take > 0 and kr > 1e-46 and max(0.0, S - crit) < take:
                            r["fuzzy"] = True                # denormal: either is right
                    r["alpha"] = al
                    if al < 1:
                        # uncertain when the phase window is rounding-sized
                        q *= al; r["choked"] = True
                    r["target_surf"] = {k: abs(q) * v * DAY for k, v in s.items()}
                    q = limit(r, w, q, s, b, fe)
                    r["surf_per_res"] = s
                    r["surf"] = {k: abs(q) * v * DAY for k, v in s.items()}
                r["q"] = q
                r["q_err"] = rel * abs(q)
                if r["limited"] and not r["choked"]:
                    r["q_err"] = abs(q) * (rel + lim_rel(r, s, b, fe))
                elif r["choked"] or r["limited"]:
                    r["q_err"] += abs(q) * (sum(fe.values()) / max(min([f[p] for p in "wg" if f[p] > 1e-12] or [1.0]), 1e-12) + 3e-6) + 5e-7 * PV / dt
        if r.get("fuzzy"):
            r["q_err"] += abs(r["q"]) + r.get("slack", 0.0); r["tiny"] = True
        res.append(r)
    return res
