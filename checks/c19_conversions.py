import itertools

import torch

from checks.common import *
from engine import pysym
from engine.pysym import And, Eq, Implies, Le, Lt, Ne, Or, Not

PROPERTY = "C19"
TECHNIQUE = ("symbolic execution of the real conversion code and of PyTorch's derivative formulas through it on symbolic "
             "cells, forking on every test for zero; z3 (nonlinear reals) decides relations, round trips and finiteness")
EXPLANATION = ("The conversions run on tensors of symbolic cells and are differentiated with symbolic cotangents; every division, square root "
               "and comparison forks on the special values it can produce, so infinities and NaN are seen. z3 decides the "
               "textbook relations, that one conversion undoes the other and that values and gradients are finite and the exact "
               "derivatives, zero cells included; the same for the half-cell averages the propagator derives from them.")
BOUNDS = "round trips for densities and buoyancies between 1e-3 and 1e4; one to two cells per parameter (conversions act on cells separately), 2x2, 1x3 and 2x2x2 cells for the averages; values zero or at least 1e-4 where compared, any non-negative value where finiteness is decided"
ASSUMPTIONS = EXACT[:1] + ["real arithmetic: no overflow; relations with the regularised reciprocal compared up to a relative 1e-6"]
F64 = torch.float64
FROM = ["vp", "vs", "rho"]
TO = ["lamb", "mu", "buoyancy"]


def cl(ctx, t):
    return pysym.cells_of(t) if ctx.mode == "sym" else t.detach().reshape(-1).tolist()


def finite(x):
    return not (isinstance(x, float) and (x != x or abs(x) == float("inf")))


def near(a, b, tol=1e-6, ctx=None):
    """|a - b| <= tol |b| (plus rounding in a concrete run)"""
    if not finite(a) or not finite(b):
        return False
    d = a - b
    m = pysym.Max(b, -b) * tol
    if ctx is not None and ctx.mode == "conc":
        m = m + 1e-300
    return And(Le(d, m), Le(-d, m))


def convert(ctx, dw, way, cells=1, grads=(0, 1, 2), low=1e-4):
    names = FROM if way == "to" else TO
    fn = "vpvsrho_to_lambmubuoyancy" if way == "to" else "lambmubuoyancy_to_vpvsrho"
    decl = {n: ("reals", (cells,), None if n == "lamb" else 0, None, F64) for n in names}
    decl["y"] = ("reals", (3, cells), None, None, F64)

    def run(inp):
        xs = [inp[n].clone().requires_grad_(k in grads) for k, n in enumerate(names)]
        out = getattr(dw.common, fn)(*xs)
        gs = [None] * 3
        if grads:
            gs = list(torch.autograd.grad([o for o in out if o.requires_grad],
                                          [x for k, x in enumerate(xs) if k in grads],
                                          [inp["y"][k] for k, o in enumerate(out) if o.requires_grad], allow_unused=True))
            for k in range(3):
                if k not in grads:
                    gs.insert(k, None)
        return [o.detach() for o in out], gs

    def assume(inp):
        if way == "to":
            return True
        # a medium: the p-wave modulus is not negative
        return And(*[Le(0, l + 2 * m) for l, m in zip(inp["lamb"], inp["mu"])])

    def check(inp, out):
        if out.raised:
            return [("conversion", False)]
        outs, gs = out.value
        x = [cl(ctx, inp[n]) for n in names]
        y = cl(ctx, inp["y"])
        o = [cl(ctx, t) for t in outs]
        g = [None if t is None else cl(ctx, t) for t in gs]
        r = []
        for k in range(3):
            for i in range(cells):
                if not finite(o[k][i]):
                    r.append(("finite value", False))
                if g[k] is not None and not finite(g[k][i]):
                    r.append(("finite gradient with respect to %s" % names[k], False))
        if r:
            return r
        for i in range(cells):
            a, b, c = (x[k][i] for k in range(3))
            p, q, s = (o[k][i] for k in range(3))
            ya, yb, yc = (y[k * cells + i] for k in range(3))
            big = Le(low, c)
            if way == "to":
                r += [("lambda", near(p, (a * a - 2 * b * b) * c, 1e-12)), ("mu", near(q, b * b * c, 1e-12)),
                      ("buoyancy", Implies(big, near(s * c, 1 + 0 * c, 1e-6))),
                      ("buoyancy of nothing", Implies(Eq(c, 0), Eq(s, 0))), ("buoyancy sign", Le(0, s))]
                want = [2 * a * c * ya, -4 * b * c * ya + 2 * b * c * yb, None]
                # the derivative of the reciprocal, times rho^2
                if g[2] is not None:
                    base = (a * a - 2 * b * b) * ya + b * b * yb
                    d = (g[2][i] - base) * c * c
                    t = 1e-6
                    ab = pysym.Max(yc, -yc)
                    r.append(("gradient with respect to rho", Implies(big, And(
                        Le(d + yc, ab * t + (abs(base) * c * c * 1e-9 if ctx.mode == "conc" else 0)),
                        Le(-ab * t - (abs(base) * c * c * 1e-9 if ctx.mode == "conc" else 0), d + yc)))))
                for k in (0, 1):
                    if g[k] is not None:
                        r.append(("gradient with respect to " + names[k], near(g[k][i], want[k], 1e-9 if ctx.mode == "conc" else 0)))
            else:
                m2 = (a + 2 * b) * c
                tol = 1e-9 if ctx.mode == "conc" else 0
                r += [("vp", And(Le(0, p), near(p * p, m2, tol))), ("vs", And(Le(0, q), near(q * q, b * c, tol))),
                      ("density", Implies(big, near(s * c, 1 + 0 * c, 1e-6))), ("density of nothing", Implies(Eq(c, 0), Eq(s, 0)))]
                # where the square roots are away from zero
                pos = And(Lt(0, p), Lt(0, q))
                if g[0] is not None:
                    r.append(("gradient with respect to lamb", Implies(Lt(0, p), near(g[0][i] * 2 * p, c * ya, tol))))
                if g[1] is not None:
                    r.append(("gradient with respect to mu", Implies(pos, near(g[1][i] * p * q, c * q * ya + c * p * yb / 2, tol))))
        return r
    ctx.explore("convert", decl, run, check, assume=assume, expect=("returned",), reals=True)


convert.plain = True


def round_trip(ctx, dw, way, zero=()):
    names = FROM if way == "to" else TO
    decl = {n: ("reals", (1,), 0 if n in zero else 1e-3 if n != "lamb" else None, 0 if n in zero else None, F64) for n in names}

    def run(inp):
        f, b = dw.common.vpvsrho_to_lambmubuoyancy, dw.common.lambmubuoyancy_to_vpvsrho
        if way != "to":
            f, b = b, f
        return b(*f(*[inp[n] for n in names]))

    def assume(inp):
        if way == "to":
            return Le(inp["rho"][0], 1e4)
        return And(Le(0, inp["lamb"][0] + 2 * inp["mu"][0]), Le(inp["buoyancy"][0], 1e4))

    def check(inp, out):
        if out.raised:
            return [("round trip", False)]
        r = []
        gone = zero and zero[0] in ("rho", "buoyancy")
        for n, t in zip(names, out.value):
            x, o = cl(ctx, inp[n])[0], cl(ctx, t)[0]
            if not finite(o):
                return [("finite " + n, False)]
            if gone:
                if n in zero:
                    r.append((n + " comes back as zero", Eq(o, 0)))
                continue
            t = 1e-5 if n == "lamb" else 2e-6
            ref = x
            if n == "lamb":
                # cancellation: relative to the moduli
                ref = pysym.Max(x, -x) + 2 * cl(ctx, inp["mu"])[0]
            d = o - x
            m = pysym.Max(ref, -ref) * t
            r.append((n + " comes back", And(Le(d, m), Le(-d, m))))
        return r
    ctx.explore("trip", decl, run, check, assume=assume, expect=("returned",), reals=True)


round_trip.plain = True


def averages(ctx, dw, shape, which, free=None):
    """prepare_parameters: half-cell moduli and buoyancies"""
    nd = len(shape)
    n = 1
    for s in shape:
        n *= s
    decl = {which: ("reals", (1,) + tuple(shape), 0, None, F64), "y": ("reals", (8 * n,), None, None, F64)}
    if free is not None:
        # the other cells are concrete
        decl[which] = ("reals", (len(free),), 0, None, F64)

    def build(v):
        if free is None:
            return v.clone()
        t = torch.arange(1, n + 1, dtype=F64) * 0.25
        t[torch.tensor(free)] = v
        return t.reshape((1,) + tuple(shape))

    def run(inp):
        el = dw.elastic if hasattr(dw.elastic, "prepare_parameters") else None
        import importlib
        el = importlib.import_module("deepwave.elastic")
        if not hasattr(el, "prepare_parameters"):
            raise pysym.Unsupported("prepare_parameters is gone")
        other = torch.ones((1,) + tuple(shape), dtype=F64)
        x = build(inp[which]).requires_grad_()
        out = el.prepare_parameters(*((x, other) if which == "mu" else (other, x)))
        k = 0
        sel = [o for o in out if o.requires_grad]
        ys = []
        for o in sel:
            ys.append(inp["y"][k:k + o.numel()].reshape(o.shape))
            k += o.numel()
        g = torch.autograd.grad(sel, [x], ys)[0]
        return x.detach(), [o.detach() for o in out], g

    def assume(inp):
        # zero, or clear of the threshold below which the code counts a value as zero
        return And(*[Or(Eq(v, 0), And(Le(1e-6, v), Le(v, 1e6))) for v in inp[which]])

    def check(inp, out):
        if out.raised:
            return [("averages", False)]
        x, outs, g = out.value
        cells = cl(ctx, x)
        gc = cl(ctx, g)
        r = []
        for t in [g] + outs:
            if not all(finite(v) for v in cl(ctx, t)):
                return [("finite", False)]
        idx = {ix: k for k, ix in enumerate(itertools.product(*map(range, shape)))}
        pairs = [(0, 1), (0, 2), (1, 2)] if nd == 3 else [(0, 1)] if nd == 2 else []
        nmu = len(pairs)
        if len(outs) != nmu + nd:
            return [("number of averages", False)]
        tol = 1e-9 if ctx.mode == "conc" else 0
        if which == "mu":
            for (d, e), o in zip(pairs, outs):
                oc = cl(ctx, o)
                for ix, k in idx.items():
                    quad = []
                    ok = True
                    for s in (0, 1):
                        for t in (0, 1):
                            j = list(ix)
                            j[d] += s
                            j[e] += t
                            ok = ok and tuple(j) in idx
                            quad.append(tuple(j))
                    if not ok:
                        r.append(("edge", Eq(oc[k], 0)))
                        continue
                    m = [cells[idx[j]] for j in quad]
                    a, b, c_, d_ = m
                    r.append(("harmonic mean", Or(And(Or(*[Eq(v, 0) for v in m]), Eq(oc[k], 0)),
                                                  And(And(*[Lt(0, v) for v in m]),
                                                      near(oc[k] * (b * c_ * d_ + a * c_ * d_ + a * b * d_ + a * b * c_), 4 * a * b * c_ * d_, tol)))))
        else:
            for d, o in enumerate(outs[nmu:]):
                oc = cl(ctx, o)
                for ix, k in idx.items():
                    j = list(ix)
                    j[d] += 1
                    if tuple(j) not in idx:
                        r.append(("edge", Eq(oc[k], 0)))
                        continue
                    a, b = cells[k], cells[idx[tuple(j)]]
                    w = oc[k]
                    r.append(("mean density", Or(And(Eq(a, 0), Eq(b, 0), Eq(w, 0)), And(Eq(a, 0), Lt(0, b), near(w, 2 * b, tol)),
                                                 And(Lt(0, a), Eq(b, 0), near(w, 2 * a, tol)),
                                                 And(Lt(0, a), Lt(0, b), near(w * (a + b), 2 * a * b, tol)))))
        return r
    ctx.explore("averages", decl, run, check, assume=assume, expect=("returned",), reals=True)


averages.plain = True


def scenarios(tier, seed):
    out = []
    for way in ("to", "from"):
        out.append(("convert %s" % way, convert, dict(way=way)))
        out.append(("convert %s two cells" % way, convert, dict(way=way, cells=2, grads=())))
        for k in range(3):
            out.append(("convert %s gradient %d" % (way, k), convert, dict(way=way, grads=(k,))))
        for z in [()] + [(n,) for n in (FROM if way == "to" else TO) if n != "lamb"]:
            out.append(("round trip %s zero %s" % (way, "".join(z)), round_trip, dict(way=way, zero=z)))
    for w in ("mu", "buoyancy"):
        out.append(("averages 2d " + w, averages, dict(shape=(2, 2), which=w)))
        out.append(("averages 1d " + w, averages, dict(shape=(3,), which=w)) if w == "buoyancy" else
                   ("averages 2d row " + w, averages, dict(shape=(2, 3), which=w, free=[0, 4])))
        out.append(("averages 3d " + w, averages, dict(shape=(2, 2, 2), which=w, free=[0, 3, 5])))
    return out
