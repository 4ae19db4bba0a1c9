import itertools
import math

import torch

from checks.common import *
from engine import pysym
from engine.pysym import And, Eq, If, Implies, Le, Lt, Ne, Or

PROPERTY = "C18"
TECHNIQUE = ("symbolic execution of the real interpolation code: with symbolic amplitudes for sets of locations, and with symbolic locations "
             "(window functions uninterpreted); z3 decides")
EXPLANATION = ("Hicks objects spread and gather symbolic amplitudes; the solver decides, for all amplitudes, that spreading and gathering are "
               "adjoint, that every grid point receives the sum of the separately derived weights (mirrored with opposite sign at free "
               "surfaces), alone, together, in any order, in batches, and again after other use. With the location itself symbolic, the window's "
               "cells, the on-grid rule and the mirrored weights are decided for every location in the model, with sinc, i0, cos and "
               "sqrt known only to be functions.")
BOUNDS = ("half widths 1-10, up to 3 shots of 3 locations, all 16 free-surface combinations with surfaces on and between grid points, monopoles and "
          "dipoles; symbolic locations: one coordinate anywhere in a model of up to 6 cells, half widths 1-3")
ASSUMPTIONS = ["surfaces lie on or half-way between grid points, the model is at least one window wide, and locations are not beyond a surface",
               "weights of locations whose fractional parts agree to eps are interchangeable (documented rounding)",
               "sinc and Bessel values computed by PyTorch are correct to 1e-12"]
BETAS = [0.0, 1.84, 3.04, 4.14, 5.26, 6.40, 7.51, 8.56, 9.56, 10.64]
EPS = 1e-5


def i0(x):
    s = t = 1.0
    k = 0
    while t > 1e-17 * s:
        k += 1
        t *= (x / 2 / k) ** 2
        s += t
    return s


def weight(d, hw, mono, eps=EPS):
    """the window at distance d from the location"""
    win = i0(BETAS[hw - 1] * math.sqrt(max(0.0, 1 - (d / hw) ** 2))) / i0(BETAS[hw - 1])
    sinc = 1.0 if d == 0 else math.sin(math.pi * d) / (math.pi * d)
    if mono:
        return sinc * win
    return (math.cos(math.pi * d) - sinc) / (d * d + eps) * d * win


def line(loc, hw, mono, fs, at, eps=EPS):
    """{cell: weight} along one dimension"""
    if mono and abs(loc - round(loc)) < eps:
        return {int(round(loc)): 1.0}
    b = math.floor(loc)
    out = {}
    for c in range(b - hw + 1, b + hw + 1):
        w = weight(c - loc, hw, mono, eps)
        if fs[0] and c < at[0]:
            c, w = int(round(2 * at[0])) - c, -w
        elif fs[1] and c > at[1]:
            c, w = int(round(2 * at[1])) - c, -w
        out[c] = out.get(c, 0.0) + w
        for k in (0, 1):
            if fs[k] and c == at[k]:
                out[c] = 0.0            # the field vanishes on the surface
    return out


def expected(p, hw, mono, dim, fs, at, eps=EPS):
    ls = [line(p[d], hw, mono or dim != d, fs[2 * d:2 * d + 2], at[2 * d:2 * d + 2], eps) for d in (0, 1)]
    return {(a, b): x * y for a, x in ls[0].items() for b, y in ls[1].items()}


def amplitudes(ctx, dw, locs, hw=2, fs=(False,) * 4, at=None, shape=None, mono=True, dim=0, dtype=torch.float64, ldtype=torch.float64,
               loose=None):
    fs = list(fs)
    locations = torch.tensor(locs, dtype=ldtype)
    n_shots, n, _ = locations.shape
    kw = dict(halfwidth=hw, dtype=dtype)
    if any(fs):
        kw.update(free_surfaces=fs, model_shape=list(shape))
    if at is not None:
        kw.update(free_surface_locs=list(at))
    elif any(fs):
        at = [-0.5, shape[0] - 0.5, -0.5, shape[1] - 0.5]
    else:
        at = [None] * 4
    mt = torch.tensor(mono) if isinstance(mono, list) else mono
    dt = torch.tensor(dim) if isinstance(dim, list) else dim
    m = lambda s, i: mono[s][i] if isinstance(mono, list) else mono
    d_ = lambda s, i: dim[s][i] if isinstance(dim, list) else dim
    exact = [[expected(locations[s, i].double().tolist(), hw, m(s, i), d_(s, i), fs, at) for i in range(n)] for s in range(n_shots)]
    h = dw.location_interpolation.Hicks(locations, monopole=mt, dipole_dim=dt, **kw)
    L = h.get_locations()
    loose = loose or (2e-6 if dtype == torch.float64 else 1e-5)     # window parameters are single precision
    nt = 2
    a = ctx.tensor("a", (n_shots, n, nt), 1)
    b = ctx.tensor("b", (n_shots, L.shape[1], nt), 1)
    ctx.true("three dimensions", L.ndim == 3 and L.shape[0] == n_shots and L.shape[2] == 2)
    cells = [[tuple(x) for x in L[s].tolist()] for s in range(n_shots)]
    IG = dw.common.IGNORE_LOCATION
    for s in range(n_shots):
        used = [c for c in cells[s] if IG not in c]
        ctx.true("shot %d: every grid point is listed once" % s, len(set(used)) == len(used))
        need = set().union(*[set(e) for e in exact[s]])
        small = {c for c in need if all(abs(e.get(c, 0)) < 1e-12 for e in exact[s])}
        ctx.true("shot %d: the grid points of the windows, and no others" % s, need - small <= set(used) <= need)
        if any(fs):
            for c in used:
                for k in range(4):
                    if fs[k]:
                        ctx.true("shot %d: grid point %s is on the model's side of the surfaces" % (s, c),
                                 c[k // 2] >= at[k] if k % 2 == 0 else c[k // 2] <= at[k])

    def spread(label, out, amp, shots):
        for j, s in enumerate(shots):
            for k, c in enumerate(cells[s]):
                for t in range(nt):
                    e = 0
                    for i in range(n):
                        w = exact[s][i].get(c, 0.0)
                        if w:
                            e = e + amp[j, i, t] * w
                    ctx.equal("%s shot %d point %s" % (label, s, c), out[j, k, t], e if not isinstance(e, int) else torch.zeros((), dtype=out.dtype),
                              loose=loose)

    def gather(label, out, amp, shots):
        for j, s in enumerate(shots):
            for i in range(n):
                for t in range(nt):
                    e = torch.zeros((), dtype=out.dtype)
                    for k, c in enumerate(cells[s]):
                        w = exact[s][i].get(c, 0.0)
                        if w:
                            e = e + amp[j, k, t] * w
                    ctx.equal("%s shot %d location %d" % (label, s, i), out[j, i, t], e, loose=loose)
    a0, b0 = a.clone(), b.clone()
    src, rec = h.source(a), h.receiver(b)
    ctx.true("shape of source amplitudes", src.shape == (n_shots, L.shape[1], nt))
    ctx.true("shape of receiver amplitudes", rec.shape == (n_shots, n, nt))
    spread("source", src, a, range(n_shots))
    gather("receiver", rec, b, range(n_shots))
    ctx.equal("adjoint", (src * b).sum(), (a * rec).sum())
    for idx in [[n_shots - 1], list(range(n_shots))[::-1], [0, n_shots - 1, 0]][:3 if n_shots > 1 else 1]:
        ix = torch.tensor(idx)
        spread("source of shots %s" % idx, h.source(a[ix], ix), a[ix], idx)
        gather("receiver of shots %s" % idx, h.receiver(b[ix], ix), b[ix], idx)
        ctx.true("locations of shots %s" % idx, [[tuple(x) for x in r] for r in h.get_locations(ix).tolist()] == [cells[i] for i in idx])
    ctx.equal("source again", h.source(a), src)
    ctx.equal("receiver again", h.receiver(b), rec)
    ctx.true("locations again", h.get_locations().tolist() == L.tolist())
    ctx.equal("amplitudes are not changed", torch.cat([a.reshape(-1), b.reshape(-1)]), torch.cat([a0.reshape(-1), b0.reshape(-1)]))
    # gradients: the adjoint again
    a1, b1 = a.detach().clone().requires_grad_(), b.detach().clone().requires_grad_()
    ctx.equal("gradient of source", torch.autograd.grad(h.source(a1), a1, b)[0], rec)
    ctx.equal("gradient of receiver", torch.autograd.grad(h.receiver(b1), b1, a)[0], src)


def anywhere(ctx, dw, hw, fs, at, size, mono=True, lo=None, hi=None, eps=0.25, other=1.0, dim=0, two=False):
    """a symbolic coordinate, anywhere in the model"""
    lo = (at[0] if fs[0] else 0) if lo is None else lo
    hi = (at[1] if fs[1] else size - 1) if hi is None else hi
    decl = dict(x=("real", lo, hi), y=("real", lo, hi) if two else None)
    free = [False] * 4
    free[2 * dim:2 * dim + 2] = list(fs)
    locs = [-0.5, 99.5] * 2
    locs[2 * dim:2 * dim + 2] = list(at)

    def vec(x):
        p = [other, other]
        p[dim] = x
        return p

    def run(inp):
        pts = [vec(inp["x"])] + ([vec(inp["y"])] if two else [])
        if ctx.mode == "sym":
            flat = [c for p in pts for c in p]
            t = pysym.real_tensor(flat, (1, len(pts), 2), torch.float64)
        else:
            t = torch.tensor([pts], dtype=torch.float64)
        kw = dict(free_surfaces=free, free_surface_locs=locs, model_shape=[size, size]) if any(free) else {}
        H = dw.location_interpolation
        h = H.Hicks(t, halfwidth=hw, monopole=mono, dipole_dim=dim, dtype=torch.float64, eps=eps, **kw)
        n = h.get_locations().shape[1]
        one = torch.eye(len(pts), dtype=torch.float64).reshape(1, len(pts), len(pts))
        out = h.source(one)
        return h.get_locations(), out

    def check(inp, out):
        if out.raised:
            return [("a location inside the model is refused", False)]
        L, w = out.value
        if ctx.mode == "sym":
            cs = pysym.cells_of(L)
            cs = [int(c.__index__()) if isinstance(c, pysym.Num) else int(c) for c in cs]
            ws = pysym.cells_of(w)
        else:
            cs, ws = L.reshape(-1).tolist(), w.reshape(-1).tolist()
        npts = 2 if two else 1
        cells = [(cs[2 * k], cs[2 * k + 1]) for k in range(len(cs) // 2)]
        cells = [c[dim] if c[1 - dim] == other else None for c in cells]
        r = []
        if None in cells or len(set(cells)) != len(cells):
            r.append(("grid points are listed once and on the line", False))
            return r
        for i, nm in enumerate(["x", "y"][:npts]):
            x = inp[nm]
            got = {c: ws[k * npts + i] for k, c in enumerate(cells)}
            r += judge(x, got, cells if npts == 1 else None)
        return r

    def uf(name, v):
        z = pysym.z3()
        t = z.simplify(pysym.term(v), som=True)
        return pysym.Num(z.Function(name, z.RealSort(), z.RealSort())(t))

    def judge(x, got, cells):
        r = []
        if ctx.mode != "sym":
            e = line(x, hw, mono, fs, at, eps)
            for c in set(e) | set(got):
                # weights may be those of another location within eps
                alts = [line(math.floor(x) + (math.floor((x - math.floor(x)) / eps) + f) * eps, hw, mono, fs, at, 1e-9 if mono else eps).get(c, 0)
                        for f in (0.01, 0.25, 0.5, 0.75, 0.99)] if two else [e.get(c, 0)]
                v = got.get(c, 0)
                r.append(("weight of grid point %d" % c, min(alts) - 1e-6 - (0.1 if two else 0) <= v <= max(alts) + 1e-6 + (0.1 if two else 0)))
            return r
        z = pysym.z3()
        near = None
        for c in range(math.floor(lo) - 1, math.ceil(hi) + 2):
            on = And(Lt(c - eps, x), Lt(x, c + eps)) if mono else False
            if mono:
                only = [Eq(got.get(q, 0), 1 if q == c else 0) for q in set(got) | {c}]
                r.append(("on grid point %d" % c, Implies(on, And(*only))))
        off = And(*[Or(Le(x, c - eps), Le(c + eps, x)) for c in range(math.floor(lo) - 1, math.ceil(hi) + 2)]) if mono else True
        for b in range(math.floor(lo), math.floor(hi) + 1):
            here = And(off, Le(b, x), Lt(x, b + 1))
            want = {}
            for c in range(b - hw + 1, b + hw + 1):
                q, sg = c, 1
                if fs[0] and c < at[0]:
                    q, sg = int(round(2 * at[0])) - c, -1
                elif fs[1] and c > at[1]:
                    q, sg = int(round(2 * at[1])) - c, -1
                want.setdefault(q, []).append((sg, c))
            r.append(("between grid points %d and %d" % (b, b + 1), Implies(here, Or(*[window(got, want, x, beta) for beta in betas]))))
        return r

    def window(got, want, x, beta):
            z = pysym.z3()
            i0t = torch.i0(torch.tensor(beta, dtype=torch.float64)).item()
            parts = []
            for q in set(want) | set(got):
                if q in [a for a in at if a is not None] and fs[0 if q == at[0] else 1]:
                    parts.append(Eq(got.get(q, 0), 0))
                    continue
                s = 0
                for sg, c in want.get(q, []):
                    d = c - x
                    arg = pysym.Num(z.simplify(1 - (pysym.term(d) / hw) * (pysym.term(d) / hw), som=True))
                    win = uf("i0", uf("sqrt", arg) * beta) / i0t if beta else 1.0
                    if mono:
                        w = uf("sinc", d) * win
                    else:
                        w = (uf("cos", math.pi * d) - uf("sinc", d)) / (d * d + eps) * d * win
                    s = s + sg * w
                parts.append(Eq(got.get(q, 0), s))
            return And(*parts)
    betas = sorted({BETAS[hw - 1], torch.tensor(BETAS[hw - 1], dtype=torch.float32).item()})
    pysym.OPAQUE_SQRT[:] = pysym.SPLIT[:] = [1]
    try:
        ctx.explore("location", decl, run, check, expect=("returned",), reals=True)
    finally:
        pysym.OPAQUE_SQRT[:] = pysym.SPLIT[:] = []


anywhere.plain = True


def scenarios(tier, seed):
    out = []

    def a(name, locs, **k):
        out.append((name, amplitudes, dict(k, locs=locs)))
    many = [[[3.3, 4.7], [2.0, 5.5], [3.0, 4.0]], [[4.25, 2.5], [3.3, 4.7], [4.999999, 3.0000001]], [[2.75, 3.1], [5.0, 5.0], [2.5, 2.5]]]
    for hw in range(1, 11):
        a("half width %d" % hw, [[[3.3, 4.7], [12.0, 5.5]]], hw=hw)
        a("half width %d dipole" % hw, [[[3.3, 4.7]], [[2.0, 3.0]]], hw=hw, mono=False, dim=hw % 2)
    for dt in (torch.float64, torch.float32):
        for lt in (torch.float64, torch.float32):
            a("several shots %s %s" % (dt, lt), many, hw=2, dtype=dt, ldtype=lt)
    a("mixed", many, hw=2, mono=[[True, False, True], [False, False, True], [True, True, False]], dim=[[0, 1, 1], [0, 1, 0], [1, 0, 1]])
    a("repeated locations", [[[3.3, 4.7], [3.3, 4.7], [3.3, 4.2]]], hw=3)
    a("shared fractions", [[[3.25, 4.25], [5.25, 3.25], [4.25, 5.75]]], hw=3)
    a("nearly equal fractions", [[[3.31999999, 4.32], [5.3200001, 3.3199995], [4.25, 5.75]]], hw=3, loose=2e-4)
    a("rounding", [[[3.1619669952, 16.8], [1000.3, 2.9999], [7.1, 4.9]]], hw=4)
    a("just beside grid points", [[[3.00001, 4.99999], [5.0000099, 3.9999901], [4.00002, 6.99998]]], hw=2, loose=2e-4)
    a("near the first point", [[[0.3, 0.0], [-0.3, 0.75]]], hw=2)
    a("one each", [[[0.0, 0.0]], [[1.0, 1.0]], [[2.5, 3.5]]], hw=1)
    for fs in itertools.product((False, True), repeat=4):
        if any(fs):
            for hw in (2, 4):
                n = 10
                ed = [[[0.3, n - 1.4], [n - 1.6, 0.2]], [[1.25, 1.0], [4.5, n - 1.25]]]
                a("free surfaces %s half width %d" % ("".join("01"[f] for f in fs), hw), ed, hw=hw, fs=fs, shape=(n, n))
    for at in ([-0.5, 9.5, -0.5, 8.5], [0, 9, 0, 8], [0.5, 8.5, 0, 7.5], [1, 9, 1.5, 8]):
        for hw in (1, 3, 4):
            lo = [at[0] + .3, at[2] + .45]
            hi = [at[1] - .3, at[3] - .15]
            a("surfaces at %s half width %d" % (at, hw), [[lo, hi], [[lo[0], hi[1]], [lo[0] + 1, lo[1] + 2]]], hw=hw, fs=(True,) * 4, shape=(10, 9), at=at)
            a("dipoles near surfaces at %s half width %d" % (at, hw), [[lo, hi], [[lo[0], hi[1]], [lo[0] + 1, lo[1] + 2]]], hw=hw, fs=(True,) * 4,
              shape=(10, 9), at=at, mono=False, dim=hw % 2)
    a("same fraction near a surface and inside", [[[0.25, 5.25], [5.25, 5.25], [1.25, 0.25]], [[5.25, 5.25], [0.25, 5.25], [8.25, 8.25]]],
      hw=4, fs=(True, True, True, True), shape=(10, 10))
    # locations as unknowns
    none = (None, None)
    for hw in (1, 2, 3):
        for dim in (0, 1):
            out.append(("any location half width %d dimension %d" % (hw, dim), anywhere, dict(hw=hw, fs=(False, False), at=none, size=5, dim=dim)))
            if hw < 2 or (hw == 2 and dim == 0):
                out.append(("any location dipole half width %d dimension %d" % (hw, dim), anywhere,
                            dict(hw=hw, fs=(False, False), at=none, size=3, dim=dim, mono=False)))
        for at in ((-0.5, 5.5), (0, 5), (0.5, 5)):
            for fs in ((True, False), (False, True), (True, True)):
                out.append(("any location half width %d surfaces %s at %s" % (hw, fs, at), anywhere, dict(hw=hw, fs=fs, at=at, size=6)))
    out.append(("any location from -1", anywhere, dict(hw=2, fs=(False, False), at=none, size=4, lo=-1)))
    return out
