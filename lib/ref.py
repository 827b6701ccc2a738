"""Independent float64 reference of the discrete model the simulator documents.  Built from the case only."""
import numpy as np
from oil import case_fields, eff_dims, f64, MD

G = 9.81
EPS = 6.0e-8            # float32 unit roundoff


class Model:
    def __init__(self, case, fields=None):
        self.case = case
        F = fields if fields is not None else case_fields(case)
        self.dims, self.gs = eff_dims(case)
        self.kx, self.ky, self.kz = f64(F["kx"]), f64(F["ky"]), f64(F["kz"])
        dx, dy, dz = self.gs
        self.PV = dx * dy * dz * f64(F["phi"])
        ax = [(self.kx, dy * dz / dx), (self.ky, dx * dz / dy), (self.kz, dx * dy / dz)]
        self.T = []
        for a, (k, geo) in enumerate(ax):
            lo, hi = self.lo(k, a), self.hi(k, a)
            s = lo + hi
            self.T.append(np.where(s > 0, 2 * lo * hi / np.where(s > 0, s, 1), 0.0) * geo)
        fl = case.get("fluid", {})
        self.fl = fl
        rp = fl.get("relative_permeability", {})
        self.stone = rp.get("model", "corey") == "stone2"
        self.nw, self.no, self.ng = rp.get("nw", 2), rp.get("no", 2), rp.get("ng", 2)
        self.ko_w, self.ko_g = rp.get("ko_end_w", 1.0), rp.get("ko_end_g", 1.0)
        self.now, self.nog = rp.get("now", float(self.no)), rp.get("nog", float(self.ng))
        self.krw_end, self.krg_end = rp.get("krw_end", 1.0), rp.get("krg_end", 1.0)
        self.swc, self.sor, self.sgc = rp.get("sw_cr", 0.2), rp.get("so_r", 0.2), rp.get("sg_cr", 0.0)
        self.pvt = case.get("pvt")
        cp = fl.get("capillary_pressure", fl)
        self.pcs, self.pce = cp.get("pc_scale", 0.0), cp.get("pc_exponent", 1.5)
        cg = fl.get("capillary_pressure_og", {})
        self.pgs, self.pge = cg.get("pc_scale", 0.0), cg.get("pc_exponent", 1.5)
        self.crock = fl.get("c_rock", 1e-5) / 1e6
        self.comp = dict(o=fl.get("c_oil", 1e-5) / 1e6, w=fl.get("c_water", 1e-5) / 1e6, g=fl.get("c_gas", 1e-3) / 1e6)
        self.rho0 = dict(o=fl.get("rho_oil", 850.0), w=fl.get("rho_water", 1000.0), g=fl.get("rho_gas", 1.0))
        self.mu0 = dict(o=fl.get("mu_oil", 1.0) * 1e-3, w=fl.get("mu_water", 0.5) * 1e-3, g=fl.get("mu_gas", 0.02) * 1e-3)
        self.sim = case.get("sim", {})
        self.scale = float(self.sim.get("global_rate_scale", 1.0))

    # ---- grid helpers
    @staticmethod
    def lo(a, ax):
        return np.take(a, range(0, a.shape[ax] - 1), axis=ax)

    @staticmethod
    def hi(a, ax):
        return np.take(a, range(1, a.shape[ax]), axis=ax)

    @staticmethod
    def add_lo(out, ax, v):
        sl = [slice(None)] * 3; sl[ax] = slice(0, out.shape[ax] - 1)
        out[tuple(sl)] += v

    @staticmethod
    def add_hi(out, ax, v):
        sl = [slice(None)] * 3; sl[ax] = slice(1, out.shape[ax])
        out[tuple(sl)] += v

    # ---- fluid
    def tab(self, key, P):
        t = self.pvt
        col = t.get(key)
        if col is None:
            col = [0.0] * len(t["pressure_MPa"])
        return np.interp(np.asarray(P, dtype=np.float64) / 1e6, t["pressure_MPa"], col)

    def B(self, ph, P):
        return self.tab({"o": "Bo", "w": "Bw", "g": "Bg"}[ph], P)

    def mu(self, ph, P):
        if self.pvt:
            return self.tab("mu_%s_cP" % ph, P) * 1e-3
        return np.full(np.shape(P), self.mu0[ph])

    def rho(self, ph, P):
        if not self.pvt:
            return self.rho0[ph] * (1 + self.comp[ph] * (np.asarray(P) - 1e5))
        if ph == "w":
            return self.rho0["w"] / self.B("w", P)
        if ph == "o":
            return (self.rho0["o"] + self.tab("Rs_m3m3", P) * self.rho0["g"]) / self.B("o", P)
        return (self.rho0["g"] + self.tab("Rv_m3m3", P) * self.rho0["o"]) / self.B("g", P)

    def swn(self, sw):
        return np.clip((sw - self.swc) / (1 - self.swc - self.sor), 0, 1)

    def kr(self, sw, sg):
        den = 1 - self.swc - self.sor
        swn = self.swn(sw)
        krw = self.krw_end * swn ** self.nw
        krg = self.krg_end * np.clip(sg / den, 0, 1) ** self.ng
        if self.stone:
            sgn = np.clip((sg - self.sgc) / (1 - self.sgc - self.sor), 0, 1)
            kro = np.maximum(self.ko_w * (1 - swn) ** self.now + self.ko_g * (1 - sgn) ** self.nog - self.ko_g, 0)
        else:
            kro = (1 - swn) ** self.no
        return dict(o=kro, w=krw, g=krg)

    def kr_iv(self, sw, sg, d=4e-7):
        """kr and a bound of its float32 evaluation error (saturation argument uncertain by d)."""
        base = self.kr(sw, sg)
        err = {p: 2e-6 * base[p] + 1e-30 for p in base}
        for a, b in ((d, d), (-d, d), (d, -d), (-d, -d)):
            v = self.kr(sw + a, sg + b)
            for p in base:
                err[p] = np.maximum(err[p], np.abs(v[p] - base[p]) + 2e-6 * base[p])
        if self.stone:      # sum of O(1) terms
            err["o"] = err["o"] + 3e-7 * (self.ko_w + self.ko_g)
        return base, err

    def mob(self, sw, sg, P):
        kr, e = self.kr_iv(sw, sg)
        m, me = {}, {}
        for p in "owg":
            mu = self.mu(p, P)
            m[p] = kr[p] / mu
            me[p] = e[p] / mu + (3e-6 * m[p] if self.pvt else 0)
        m["t"] = m["o"] + m["w"] + m["g"]
        me["t"] = me["o"] + me["w"] + me["g"]
        return m, me

    def pc(self, sw):
        if not self.pcs:
            return np.zeros_like(sw), np.zeros_like(sw)
        f = lambda s: self.pcs * (1 - self.swn(s) + 1e-6) ** (-self.pce)
        b = f(sw)
        # float32: 1 - s_norm + 1e-6 is off by a few ulps of 1 and of s_norm
        x = 1 - self.swn(sw) + 1e-6
        e = np.abs(self.pcs * np.maximum(x - 4e-7, 1e-7) ** (-self.pce) - b) + 2e-6 * b
        return b, e

    def pcog(self, sg):
        if not self.pgs:
            return np.zeros_like(sg), np.zeros_like(sg)
        den = 1 - self.swc - self.sor
        x = 1 - np.clip(sg / den, 0, 1) + 1e-6
        b = self.pgs * x ** (-self.pge)
        e = np.abs(self.pgs * np.maximum(x - 4e-7, 1e-7) ** (-self.pge) - b) + 2e-6 * b
        return b, e

    def ct_iv(self, P, sw, sg):
        """interval of total compressibility: hull of the table's relative slopes within +-0.12 MPa, plus float32 noise of a
        0.1 MPa central difference"""
        if not self.pvt:
            c = (self.comp["o"] + self.comp["w"] + self.comp["g"] + self.crock) / 3
            v = np.full(np.shape(P), c)
            return v * (1 - 1e-6), v * (1 + 1e-6)
        lo = np.full(np.shape(P), self.crock); hi = lo.copy()
        so = 1 - sw - sg
        for ph, s in (("o", so), ("w", sw), ("g", sg)):
            a, b = self.c_iv(ph, P)
            lo = lo + np.minimum(s * a, s * b); hi = hi + np.maximum(s * a, s * b)
        return lo - 1e-6 * abs(lo), hi + 1e-6 * abs(hi)

    def c_iv(self, ph, P):
        Bm = self.B(ph, P)
        sl = []
        for a, b in ((-0.12e6, 0), (0, 0.12e6), (-0.1e6, 0.1e6), (-0.01e6, 0.01e6), (-0.12e6, -0.1e6), (0.1e6, 0.12e6), (-0.05e6, 0.05e6)):
            sl.append(-(self.B(ph, P + b) - self.B(ph, P + a)) / (b - a) / Bm)
        sl = np.array(sl)
        # float32 noise of the difference quotient: 2 roundings of B plus rounding of the pressures (ulp of P in MPa)
        slope_max = np.abs(sl).max(axis=0)
        pm = np.abs(P) / 1e6
        noise = (4 * EPS) / 0.2e6 + slope_max * (6 * EPS * pm / 0.2 + 3e-6)
        return sl.min(axis=0) - noise, sl.max(axis=0) + noise

    # ---- wells
    def wi(self, w):
        i, j, k = w["coordinates"]
        dx, dy, dz = self.gs
        kh = np.sqrt(self.kx[i, j, k] * self.ky[i, j, k])
        ro = 0.14 * np.sqrt(dx * dx + dy * dy)
        return 2 * np.pi * kh * dz / np.log(ro / w["radius"])

    # ---- pressure balance
    def pressure_balance(self, st, Pn, dt, wells):
        """Residual of the implicit volume balance per cell at the observed new pressure, with an error bound.
        wells: list of dict(cell, kind='rate', q=m3/s) or dict(cell, kind='bhp', J=WI*mob_t, p=Pa).
        -> (res_lo, res_hi, tol, diag, scale): the balance holds when [res_lo-tol, res_hi+tol] contains 0"""
        P, sw, sg = st["P"], st["sw"], st["sg"]
        m, me = self.mob(sw, sg, P)
        lo_c, hi_c = self.ct_iv(P, sw, sg)
        dP = Pn - P
        a1, a2 = self.PV * lo_c / dt * dP, self.PV * hi_c / dt * dP
        rlo, rhi = np.minimum(a1, a2), np.maximum(a1, a2)
        res = np.zeros_like(P); tol = np.zeros_like(P); scale = np.maximum(np.abs(a1), np.abs(a2)); self.f32_scale = 0.0
        up_p = np.spacing(np.maximum(np.abs(Pn), 1.0).astype(np.float32)).astype(np.float64)   # stored precision
        diag = self.PV * hi_c / dt
        tol += diag * up_p * 0.51
        grav = self.dims[2] > 1 and self.gs[2] > 0
        pc, pce = self.pc(sw)
        for ax in range(3):
            if P.shape[ax] < 2:
                continue
            T = self.T[ax]
            up = self.lo(P, ax) > self.hi(P, ax)
            pick = lambda a: np.where(up, self.lo(a, ax), self.hi(a, ax))
            mt, mte = pick(m["t"]), pick(me["t"])
            d = self.lo(Pn, ax) - self.hi(Pn, ax)
            fl = T * mt * d
            e = T * (mte * np.abs(d) + 2e-6 * mt * np.abs(d) + mt * 0.51 * (self.lo(up_p, ax) + self.hi(up_p, ax)))
            sc = np.abs(fl); sc0 = sc.sum()
            if ax == 2 and grav:
                gdz = G * self.gs[2]
                for p in "owg":
                    r = pick(self.rho(p, P))
                    fl = fl + T * pick(m[p]) * r * gdz
                    e = e + T * gdz * r * (pick(me[p]) + 5e-6 * pick(m[p]))
                    sc = sc + T * pick(m[p]) * r * gdz
            if self.pcs:
                dpc = self.hi(pc, ax) - self.lo(pc, ax)
                # the capillary term enters with the oil mobility and drives flow from lo to hi by pc_hi - pc_lo
                fl = fl + T * pick(m["o"]) * dpc
                e = e + T * (pick(me["o"]) + 3e-6 * pick(m["o"])) * np.abs(dpc) + T * pick(m["o"]) * (self.lo(pce, ax) + self.hi(pce, ax))
                sc = sc + T * pick(m["o"]) * np.abs(dpc)
            self.f32_scale += 2 * (sc.sum() - sc0)
            self.add_lo(res, ax, fl); self.add_hi(res, ax, -fl)
            self.add_lo(tol, ax, e); self.add_hi(tol, ax, e)
            self.add_lo(scale, ax, sc); self.add_hi(scale, ax, sc)
            self.add_lo(diag, ax, T * mt); self.add_hi(diag, ax, T * mt)
        for w in wells:
            c = tuple(w["cell"])
            if w["kind"] == "rate":
                res[c] -= w["q"]; tol[c] += 1e-6 * abs(w["q"]); scale[c] += abs(w["q"])
            else:
                J = w["wi"] * m["t"][c]; Je = w["wi"] * me["t"][c]
                q = J * (w["p"] - Pn[c])
                res[c] -= q
                tol[c] += Je * abs(w["p"] - Pn[c]) + 3e-6 * abs(q) + J * up_p[c] + 1.2e-7 * J * (abs(w["p"]) + abs(P[c]))
                scale[c] += abs(q)
                diag[c] += J
        # right-hand side terms that the code accumulates in float32
        tol += 4e-7 * scale
        return res + rlo, res + rhi, tol, diag, scale

    # ---- saturation update
    def fluxes(self, st, Pn):
        """Explicit divergence of water and gas at the observed new pressure, with an error bound per cell and an outflow measure."""
        sw, sg = st["sw"], st["sg"]
        m, me = self.mob(sw, sg, Pn)
        out = {}
        pg, pge = self.pcog(sg)
        grav = self.dims[2] > 1 and self.gs[2] > 0
        for p in "wg":
            div = np.zeros_like(sw); err = np.zeros_like(sw); faces = []
            rho = self.rho(p, Pn)
            for ax in range(3):
                if sw.shape[ax] < 2:
                    continue
                T = self.T[ax]
                dp = self.lo(Pn, ax) - self.hi(Pn, ax)
                de = 1.3e-7 * np.abs(dp)
                if ax == 2 and grav:
                    g = G * self.gs[2] * 0.5 * (self.lo(rho, ax) + self.hi(rho, ax))
                    dp = dp + g
                    de = de + 2.5e-6 * np.abs(g) + 1.3e-7 * np.abs(dp)
                if p == "g" and self.pgs:
                    dp = dp - (self.hi(pg, ax) - self.lo(pg, ax))
                    de = de + self.hi(pge, ax) + self.lo(pge, ax) + 2e-7 * np.abs(dp)
                lo_m, hi_m = self.lo(m[p], ax), self.hi(m[p], ax)
                sure = np.abs(dp) > de
                mu_ = np.where(dp > 0, lo_m, hi_m); mue = np.where(dp > 0, self.lo(me[p], ax), self.hi(me[p], ax))
                fl = T * mu_ * dp
                mx = np.maximum(lo_m, hi_m)
                e = T * (mue * np.abs(dp) + 3e-6 * mu_ * np.abs(dp)) + T * np.where(sure, mu_, mx) * de + np.where(sure, 0, T * mx * np.abs(dp))
                self.add_lo(div, ax, fl); self.add_hi(div, ax, -fl)
                self.add_lo(err, ax, e); self.add_hi(err, ax, e)
                faces.append((ax, fl, e))
            out[p] = (div, err, faces)
        return out, m, me
