import itertools

import torch

from checks.common import *
from engine import pysym
from engine.pysym import And, Eq, Implies, Le, Lt, Ne, Or

PROPERTY = "C28"
TECHNIQUE = ("symbolic execution of the real profile code with symbolic interval, spacing, speed and frequency (z3, nonlinear reals, "
             "exp axiomatised), and of whole propagations on symbolic wavefields")
EXPLANATION = ("set_pml_profiles of both grids runs with symbolic time step, grid spacing, speed and frequency; z3 decides that every "
               "coefficient is finite, exactly neutral outside the layers and on edges of zero width, and strictly damping "
               "inside: 0 < a < 1, -1 <= b < 0. Whole propagations with symbolic wavefields leave every memory variable exactly "
               "zero outside its layers.")
BOUNDS = ("1-3 dimensions, accuracies 2-8, layer widths 0-4 (0-20 in thorough) on each side, any sizes of the parameters; whole propagations of "
          "2-3 steps on up to 6 cells per side")
ASSUMPTIONS = EXACT[:2] + ["exp is any function with exp(x) > 0, exp(x) >= 1 + x, exp(0) = 1, below 1 for negative and above 1 for positive x",
                           "the layers' parameters are multiplied exactly (no overflow or underflow)"]
POS = ("real", 1e-6, None)


def finite(x):
    return not (isinstance(x, float) and (x != x or abs(x) == float("inf")))


def profiles(ctx, dw, grid, acc, pml, n, freq0=None, dt_zero=False):
    nd = len(n)
    decl = dict(dt=("real", None, None), c=POS, freq=("real", 0, None))
    for k in range(nd):
        decl["h%d" % k] = POS
    if freq0 is not None:
        decl["freq"] = freq0
    half = grid == "staggered_grid"
    if half:
        fd = [acc // 2, acc // 2 - 1] * nd
    else:
        fd = [acc // 2] * (2 * nd)
    shape = tuple(n[k] + pml[2 * k] + pml[2 * k + 1] + fd[2 * k] + fd[2 * k + 1] for k in range(nd))

    def run(inp):
        m = getattr(dw, grid)
        if not hasattr(m, "set_pml_profiles"):
            raise pysym.Unsupported("set_pml_profiles is gone")
        return m.set_pml_profiles(pml_width=list(pml), accuracy=acc, fd_pad=list(fd), dt=inp["dt"],
                                  grid_spacing=[inp["h%d" % k] for k in range(nd)], max_vel=inp["c"],
                                  dtype=torch.float64, device=torch.device("cpu"), pml_freq=inp["freq"], shape=shape)

    def assume(inp):
        return Ne(inp["dt"], 0)

    def check(inp, out):
        if out.raised:
            return [("profiles are made", False)]
        r = []
        per = 4 if half else 3
        if len(out.value) != per * nd:
            return [("number of profiles", False)]
        z3 = pysym.z3() if ctx.mode == "sym" else None
        for d in range(nd):
            want = [1] * (nd + 1)
            want[1 + d] = shape[d]
            lo = fd[2 * d] + pml[2 * d]
            hi = shape[d] - 1 - fd[2 * d + 1] - pml[2 * d + 1]
            pr = [(list(p.shape) == want, pysym.cells_of(p) if ctx.mode == "sym" else p.reshape(-1).tolist())
                  for p in out.value[per * d:per * d + per]]
            if not all(x for x, _ in pr):
                return [("profiles are along their dimension", False)]
            sets = [(pr[0][1], pr[1][1], 0.0)]
            if half:
                sets.append((pr[2][1], pr[3][1], 0.5))
            for a, b, off in sets:
                for i in range(shape[d]):
                    x = i + off
                    t = "dimension %d, position %s of %d" % (d, x, shape[d])
                    if not finite(a[i]) or not finite(b[i]):
                        r.append(("finite at " + t, False))
                        continue
                    inside = (pml[2 * d] and x < lo) or (pml[2 * d + 1] and x > hi)
                    if not inside:
                        r.append(("neutral at " + t, And(Eq(a[i], 0), Eq(b[i], 0))))
                    elif ctx.mode == "sym":
                        r.append(("damping at " + t, And(Lt(0, a[i]), Lt(a[i], 1), Le(-1, b[i]), Lt(b[i], 0))))
                    else:
                        r.append(("damping at " + t, -1 <= b[i] <= 0 and 0 <= a[i] <= 1 and
                                  (b[i] < 0 or not 1e-12 < abs(a[i] - 1) or inp["c"] * abs(inp["dt"]) < 1e-9)))
            if not half:
                for i, x in enumerate(pr[2][1]):
                    if not finite(x):
                        r.append(("finite derivative of b at %d" % i, False))
        # together: one query, split only when it fails
        if ctx.mode == "sym":
            fs = [f for _, f in r if not isinstance(f, bool)]
            hard = [(l, f) for l, f in r if isinstance(f, bool) and not f]
            return hard or [("all coefficients", And(*fs))] if len(fs) < 400 else r
        return r
    ctx.explore("profiles", decl, run, check, assume=assume, expect=("returned",), reals=True)


profiles.plain = True


def memory(ctx, dw, cfg):
    """memory variables that start at zero stay exactly zero outside the layers"""
    c = Cfg(**cfg)
    nd = c.nd
    mem = [f for f in c.P.fields(nd) if f.startswith(("psi", "zeta", "phi", "m_"))]
    c.fieldsel = [f for f in c.P.fields(nd) if f not in mem]
    inp = c.inputs(ctx, models="conc", amps="conc")
    with torch.no_grad():
        out = dict(zip(c.P.fields(nd), c.run(dw, inp)))
    some = 0
    for f in mem:
        t = f.rsplit("_", 1)[0].replace("_sc", "")
        d = DIM[nd].index(t[-1])
        size = c.padded[d]
        lo, hi = c.pml[2 * d], size - 1 - c.pml[2 * d + 1]
        if c.prop in ("acoustic", "elastic") and c.pml[2 * d + 1]:
            hi -= 1                       # half-cell positions
        sl = [slice(None)] * (nd + 1)
        sl[1 + d] = slice(lo, hi + 1)
        ctx.equal(f + " outside the layers", out[f][tuple(sl)], torch.zeros_like(out[f][tuple(sl)]))
        if ctx.mode == "sym" and (c.pml[2 * d] or c.pml[2 * d + 1]):
            from engine import symtorch as S
            some += sum(1 for x in S.cells(out[f]) if not (isinstance(x, (int, float)) and x == 0))
    if ctx.mode == "sym" and any(c.pml) and not some:
        ctx.true("the layers are at work", False)


def scenarios(tier, seed):
    out = []
    top = 4 if tier == "quick" else 20
    for g in ("regular_grid", "staggered_grid"):
        for acc in (2, 4, 6, 8):
            for w in ([0, 0], [1, 0], [0, 1], [2, 3], [4, 1], [top, top]):
                out.append(("%s accuracy %d 1d %s" % (g, acc, w), profiles, dict(grid=g, acc=acc, pml=w, n=[2])))
        out.append((g + " frequency zero", profiles, dict(grid=g, acc=4, pml=[3, 2], n=[2], freq0=0.0)))
        out.append((g + " one cell", profiles, dict(grid=g, acc=2, pml=[2, 2], n=[1])))
        for w in ([1, 0, 0, 2], [0, 0, 2, 1], [2, 1, 0, 0], [0, 3, 1, 0]):
            out.append(("%s 2d %s" % (g, w), profiles, dict(grid=g, acc=4, pml=w, n=[2, 3])))
        out.append((g + " 3d", profiles, dict(grid=g, acc=2, pml=[1, 0, 0, 2, 1, 1], n=[2, 2, 2])))
        out.append((g + " 3d one side", profiles, dict(grid=g, acc=2, pml=[0, 0, 0, 0, 2, 0], n=[2, 2, 2])))
        if tier == "thorough":
            for w in itertools.product(range(0, 6), repeat=2):
                out.append(("%s widths %s" % (g, w), profiles, dict(grid=g, acc=4, pml=list(w), n=[3])))
    for p in PROPS:
        for acc in (2, 4) if tier == "quick" else (2, 4, 6, 8):
            for w in ([2, 0], [0, 2], [1, 3], [0, 0]):
                out.append(("%s 1d accuracy %d %s" % (p, acc, w), memory, dict(cfg=dict(prop=p, shape=(6,), acc=acc, pml=w, nt=3))))
        for w in ([1, 0, 0, 2], [0, 2, 1, 0], [0, 0, 1, 1]):
            for be in ({}, dict(python_backend="eager")):
                out.append(("%s 2d %s %s" % (p, w, "python" if be else ""), memory,
                            dict(cfg=dict(prop=p, shape=(4, 3), acc=2, pml=w, nt=2, **be))))
        for w in ([1, 0, 0, 0, 0, 1], [0, 0, 0, 2, 0, 0], [0, 1, 1, 0, 0, 0]):
            out.append(("%s 3d %s" % (p, w), memory, dict(cfg=dict(prop=p, shape=(2, 3, 2), acc=2, pml=w, nt=2))))
    return out
