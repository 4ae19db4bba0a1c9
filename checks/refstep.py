"""An independent statement of one time step of each propagator, away from
the layers, on the unpadded model with zero outside it."""
from fractions import Fraction
from itertools import combinations

import torch

from engine.adapters import DIM


def weights(points, order, at=0):
    """finite-difference weights of the derivative of the given order at `at`
    that are exact for polynomials up to degree len(points) - 1 (solved from
    the moment equations)"""
    n = len(points)
    rows = [[Fraction(p - at) ** k for p in points] + [Fraction(0)] for k in range(n)]
    rows[order][n] = Fraction(2 if order == 2 else 1)
    for i in range(n):
        p = next(r for r in range(i, n) if rows[r][i])
        rows[i], rows[p] = rows[p], rows[i]
        rows[i] = [x / rows[i][i] for x in rows[i]]
        for r in range(n):
            if r != i and rows[r][i]:
                f = rows[r][i]
                rows[r] = [x - f * y for x, y in zip(rows[r], rows[i])]
    return [rows[i][n] for i in range(n)]


def shift(x, dim, k):
    """y[i] = x[i + k] along dim (counted from the end), zero outside"""
    n = x.shape[dim]
    if abs(k) >= n:
        return torch.zeros_like(x)
    y = x.narrow(dim, max(k, 0), n - abs(k))
    z = torch.zeros_like(x.narrow(dim, 0, abs(k)))
    return torch.cat([y, z] if k > 0 else [z, y], dim=dim) if k else x


def stencil(x, dim, offs, order, h, at=0):
    y = None
    for o, w in zip(offs, weights([Fraction(o) - Fraction(at) for o in offs], order)):
        if w:
            t = shift(x, dim, o) * float(w)
            y = t if y is None else y + t
    return y / h ** order


def d1(x, dim, acc, h):
    return stencil(x, dim, range(-(acc // 2), acc // 2 + 1), 1, h)


def d2(x, dim, acc, h):
    return stencil(x, dim, range(-(acc // 2), acc // 2 + 1), 2, h)


def dplus(x, dim, acc, h):
    """derivative at i + 1/2 of values at the integer points"""
    return stencil(x, dim, range(1 - acc // 2, acc // 2 + 1), 1, h, Fraction(1, 2))


def dminus(x, dim, acc, h):
    """derivative at i of values at i + 1/2 stored at i"""
    return stencil(x, dim, range(-(acc // 2), acc // 2), 1, h, Fraction(-1, 2))


def clear_last(x, dims):
    for d in dims:
        n = x.shape[d]
        keep = torch.ones(n, dtype=torch.bool)
        keep[-1] = False
        shp = [1] * (-d)
        shp[0] = n
        x = torch.where(keep.reshape(shp), x, torch.zeros((), dtype=x.dtype))
    return x


def half_dims(prop, nd, name):
    """axes (from the end) along which a field sits at half cells"""
    ax = {c: k - nd for k, c in enumerate(DIM[nd])}
    if prop == "acoustic" and name[0] == "v":
        return [ax[name[1]]]
    if prop == "elastic":
        if name[0] == "v":
            return [ax[name[1]]]
        if name.startswith("sigma") and name[5] != name[6]:
            return [ax[name[5]], ax[name[6]]]
    return []


def mean_density(x, d):
    """arithmetic mean at half cells along d"""
    return (x + shift(x, d, 1)) / 2


def inject(w, loc, amp):
    """w [shot, ...] += amp [shot, source] at the cells loc"""
    w = w.clone()
    for s in range(loc.shape[0]):
        for k in range(loc.shape[1]):
            ix = tuple(int(v) for v in loc[s, k])
            if ix[0] < -2 ** 30:
                continue
            one = torch.zeros(w.shape[1:], dtype=torch.bool)
            one[ix] = True
            row = torch.where(one, w[s] + amp[s, k], w[s])
            w = torch.cat([w[:s], row[None], w[s + 1:]])
    return w


def gather(w, loc):
    rows = []
    for s in range(loc.shape[0]):
        vals = []
        for k in range(loc.shape[1]):
            ix = tuple(int(v) for v in loc[s, k])
            vals.append(w[s][ix] if ix[0] > -2 ** 30 else w.new_zeros(()))
        rows.append(torch.stack(vals))
    return torch.stack(rows)


class Step:
    """propagates the main wavefields; state: dict name -> [shot, ...]"""

    def __init__(self, prop, nd, acc, dx, dt, models, n_shots):
        self.prop, self.nd, self.acc, self.dx, self.dt = prop, nd, acc, dx, dt
        self.n_shots = n_shots
        self.ax = [k - nd for k in range(nd)]
        self.m = {k: (v if v.ndim > nd else v[None]) for k, v in models.items()}

    def names(self):
        d = DIM[self.nd]
        if self.prop == "scalar":
            return ["wavefield_0", "wavefield_m1"]
        if self.prop == "scalar_born":
            return ["wavefield_0", "wavefield_m1", "wavefield_sc_0", "wavefield_sc_m1"]
        if self.prop == "acoustic":
            return ["pressure_0"] + ["v%s_0" % c for c in d]
        return ["v%s_0" % c for c in d] + ["sigma%s%s_0" % (c, c) for c in d] + \
            ["sigma%s%s_0" % tuple(sorted(p)) for p in combinations(d, 2)]

    def lap(self, u):
        return sum(d2(u, a, self.acc, h) for a, h in zip(self.ax, self.dx))

    def receivers(self, state, locs):
        """{receiver argument: values}, from the state before the step"""
        out = {}
        for l, loc in locs.items():
            if l == "bg_receiver_locations":
                w = state["wavefield_0"]
            elif l == "receiver_locations":
                w = state["wavefield_sc_0" if self.prop == "scalar_born" else "wavefield_0"]
            elif l == "receiver_locations_p":
                if self.prop == "acoustic":
                    w = state["pressure_0"]
                else:
                    w = -sum(state["sigma%s%s_0" % (c, c)] for c in DIM[self.nd]) / self.nd
            else:
                w = state["v%s_0" % l[-1]]
            out[l] = gather(w, loc)
        return out

    def cell(self, model, loc):
        m = model.expand(self.n_shots, *model.shape[1:])
        return gather(m, loc)

    def __call__(self, state, srcs):
        """srcs: {amplitude argument: (locations, amplitudes [shot, source])}"""
        return getattr(self, self.prop)(state, srcs)

    def scalar(self, s, srcs):
        v = self.m["v"]
        u = s["wavefield_0"]
        new = 2 * u - s["wavefield_m1"] + v ** 2 * self.dt ** 2 * self.lap(u)
        for loc, amp in srcs.values():
            new = inject(new, loc, -amp * self.cell(v, loc) ** 2 * self.dt ** 2)
        return {"wavefield_0": new, "wavefield_m1": u}

    def scalar_born(self, s, srcs):
        v, sc = self.m["v"], self.m["scatter"]
        r = self.scalar({k: s[k] for k in ("wavefield_0", "wavefield_m1")}, srcs)
        u, us = s["wavefield_0"], s["wavefield_sc_0"]
        new = 2 * us - s["wavefield_sc_m1"] + v ** 2 * self.dt ** 2 * self.lap(us) + \
            2 * v * sc * self.dt ** 2 * self.lap(u)
        for loc, amp in srcs.values():
            new = inject(new, loc, -2 * amp * self.cell(v, loc) * self.cell(sc, loc) * self.dt ** 2)
        return dict(r, wavefield_sc_0=new, wavefield_sc_m1=us)

    def acoustic(self, s, srcs):
        v, rho = self.m["v"], self.m["rho"]
        dt, acc = self.dt, self.acc
        K = rho * v ** 2
        s = dict(s)
        for c, a, h in zip(DIM[self.nd], self.ax, self.dx):
            n = "v%s_0" % c
            B = 1 / mean_density(rho, a)
            w = s[n] - dt * B * dplus(s["pressure_0"], a, acc, h)
            q = "source_amplitudes_" + c
            if q in srcs:
                loc, amp = srcs[q]
                w = inject(w, loc, dt * amp * self.cell(B, loc))
            s[n] = clear_last(w, [a])
        div = sum(dminus(s["v%s_0" % c], a, acc, h) for c, a, h in zip(DIM[self.nd], self.ax, self.dx))
        p = s["pressure_0"] - dt * K * div
        if "source_amplitudes_p" in srcs:
            loc, amp = srcs["source_amplitudes_p"]
            p = inject(p, loc, dt * amp * self.cell(K, loc))
        s["pressure_0"] = p
        return s

    def elastic(self, s, srcs):
        lam, mu, b = self.m["lamb"], self.m["mu"], self.m["buoyancy"]
        dt, acc = self.dt, self.acc
        D = DIM[self.nd]
        rho = 1 / b
        s = dict(s)
        new = {}

        def shear(c, d):
            return "sigma%s%s_0" % tuple(sorted((c, d)))
        for c, a, h in zip(D, self.ax, self.dx):
            f = dplus(s["sigma%s%s_0" % (c, c)], a, acc, h)
            for d, a2, h2 in zip(D, self.ax, self.dx):
                if d != c:
                    f = f + dminus(s[shear(c, d)], a2, acc, h2)
            B = 1 / mean_density(rho, a)
            w = s["v%s_0" % c] + dt * B * f
            q = "source_amplitudes_" + c
            if q in srcs:
                loc, amp = srcs[q]
                w = inject(w, loc, dt * amp * self.cell(B, loc))
            new["v%s_0" % c] = clear_last(w, [a])
        e = {c: dminus(new["v%s_0" % c], a, acc, h) for c, a, h in zip(D, self.ax, self.dx)}
        tr = sum(e.values())
        for c in D:
            w = s["sigma%s%s_0" % (c, c)] + dt * (lam * tr + 2 * mu * e[c])
            if "source_amplitudes_p" in srcs:
                loc, amp = srcs["source_amplitudes_p"]
                w = inject(w, loc, -dt * amp)
            new["sigma%s%s_0" % (c, c)] = w
        for (c, a, h), (d, a2, h2) in combinations(list(zip(D, self.ax, self.dx)), 2):
            i = 1 / mu
            m = 4 / (i + shift(i, a, 1) + shift(i, a2, 1) + shift(shift(i, a, 1), a2, 1))
            g = dplus(new["v%s_0" % c], a2, acc, h2) + dplus(new["v%s_0" % d], a, acc, h)
            n = shear(c, d)
            new[n] = clear_last(s[n] + dt * m * g, [a, a2])
        return new
