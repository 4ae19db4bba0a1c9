import ctypes
import os
import shutil
import subprocess
import tempfile

import torch

from checks.common import *
from checks.refstep import half_dims
from engine import llir, symtorch as S
from engine.pysym import Unsupported

PROPERTY = "C17"
TECHNIQUE = "symbolic execution of the real stencils (LLVM IR of the C headers, Python slicing, and whole steps of both backends) on polynomials with symbolic coefficients; z3 decides exactness"
EXPLANATION = ("Each stencil is applied to a polynomial whose coefficients are solver variables (separate ones on every grid line) and the "
               "solver decides that the result is the analytic derivative divided by the (symbolic) grid spacing; the same "
               "through one step of each propagator on both backends.")
BOUNDS = "1-3 dimensions, accuracies 2-8, polynomials of degree up to the accuracy order"
ASSUMPTIONS = EXACT[:2]


def poly(ctx, name, deg, lines, pts):
    """values at pts of one polynomial of the given degree per line, and its
    derivatives there: [line, point]"""
    c = ctx.tensor(name, (lines, deg + 1), 1)
    t = torch.tensor([float(p) for p in pts], dtype=torch.float64)
    out = []
    for d in range(3):
        rows = torch.zeros(deg + 1, len(pts), dtype=torch.float64)
        for k in range(d, deg + 1):
            f = 1
            for j in range(d):
                f *= k - j
            rows[k] = f * t ** (k - d)
        out.append((c[:, :, None] * rows[None]).sum(1))
    return out


def cube(ctx, name, deg, shape, axis, off=0.0):
    """three tensors of the given shape: polynomial along axis and derivatives
    at index + off (separate polynomial per line); argument is centred"""
    n = shape[axis]
    lines = 1
    for k, s in enumerate(shape):
        if k != axis:
            lines *= s
    pts = [k + off - n // 2 for k in range(n)]
    rest = [s for k, s in enumerate(shape) if k != axis]
    return [v.reshape(rest + [n]).movedim(-1, axis) for v in poly(ctx, name, deg, lines, pts)]


# ---- Python stencils -------------------------------------------------------
def python_op(ctx, dw, grid, fn, nd, axis, acc):
    m = getattr(dw, grid)
    if not hasattr(m, fn):
        raise Unsupported("%s.%s is gone" % (grid, fn))
    n = acc + 3
    shape = [2] * nd
    shape[axis] = n
    r = ctx.tensor("spacing", (), 1.5)
    half = fn == "diff1h"
    second = fn == "diff2"
    # grid == staggered, diff1: values at half points, result at integer ones
    inp = cube(ctx, "c", acc + 1 if second else acc, shape, axis, 0.5 if grid == "staggered_grid" and not half else 0.0)
    want = cube(ctx, "c", acc + 1 if second else acc, shape, axis, 0.5 if half else 0.0)
    rd = 1 / r ** 2 if second else 1 / r
    got = getattr(m, fn)(inp[0][None], axis, acc, rd, nd)[0]
    w = want[2 if second else 1] / r ** (2 if second else 1)
    ctx.true("shape", got.shape == w.shape)
    a = acc // 2
    hi = a if grid == "regular_grid" or half else a - 1
    sl = [slice(None)] * nd
    sl[axis] = slice(a, n - hi)
    ctx.equal("%s.%s" % (grid, fn), got[tuple(sl)], w[tuple(sl)])
    # outside the reach of the stencil the result is zero
    for s in (slice(0, a), slice(n - hi, n)):
        sl[axis] = s
        e = got[tuple(sl)]
        if e.numel():
            ctx.equal("margin", e, torch.zeros_like(e))


# ---- C stencils ------------------------------------------------------------
OPS = {"regular_grid": ["Z1", "Y1", "X1", "Z2", "Y2", "X2"],
       "staggered_grid": ["Z1", "Y1", "X1", "ZH1", "YH1", "XH1"]}
SRC_C = """
#include <stdint.h>
#include "%(grid)s.h"
#define AT(dz, dy, dx) u[((FD_PAD + 1 + (dz)) * N + FD_PAD + 1 + (dy)) * N + FD_PAD + 1 + (dx)]
void apply(DW_DTYPE const *u, DW_DTYPE *out, DW_DTYPE const *p) {
  int64_t const N = 2 * FD_PAD + 3;
  DW_DTYPE const rdz = p[0], rdy = p[1], rdx = p[2], rdz2 = p[3], rdy2 = p[4], rdx2 = p[5];
  (void)rdz; (void)rdy; (void)rdx; (void)rdz2; (void)rdy2; (void)rdx2;
  out[0] = FD_PAD;
%(body)s
}
"""


def c_ops(ctx, dw, grid, axis, acc):
    letter = "ZYX"[axis]
    ops = [o for o in OPS[grid] if o[0] == letter]
    d = tempfile.mkdtemp(prefix="dwops")
    try:
        path = os.path.join(d, "ops.c")
        body = "".join("#ifdef DIFF%s\n  out[%d] = DIFF%s(AT);\n#endif\n" % (o, k + 1, o) for k, o in enumerate(ops))
        with open(path, "w") as f:
            f.write(SRC_C % dict(grid=grid, body=body))
        n = acc + 3
        mid = n // 2
        sp = ctx.tensor("spacing", (3,), 1.25)
        par = torch.cat([1 / sp, 1 / sp ** 2])
        shape = [n, n, n]
        fields = []
        for off in ((0.0,) if grid == "regular_grid" else (0.0, 0.5)):
            fields.append(cube(ctx, "c", acc + 1 if grid == "regular_grid" else acc, shape, axis, off))
        defs = dict(DW_NDIM=3, DW_ACCURACY=acc, DW_DTYPE="double", DW_DEVICE="cpu")

        def run(u):
            out = torch.zeros(len(ops) + 1, dtype=torch.float64)
            if ctx.mode == "conc":
                so = os.path.join(d, "ops.so")
                subprocess.check_call(["gcc", "-O1", "-w", "-shared", "-fPIC", "-I", S.SRC] +
                                      ["-D%s=%s" % kv for kv in defs.items()] + [path, "-o", so])
                lib = ctypes.CDLL(so)
                pp = par.contiguous()
                u = u.contiguous()
                lib.apply(*[ctypes.c_void_p(t.data_ptr()) for t in (u, out, pp)])
                return out
            L = llir.Linked([llir.Module(llir.compile_c(path, defs, [S.ENV.build, S.SRC]), "ops")])
            rt = llir.RT()
            L.attach(rt)
            regs = []
            for t in (u, out, par):
                cells = [S.rat(x) if isinstance(x, float) else x for x in S.decode(t).reshape(-1).tolist()]
                regs.append(rt.new_region("buffer", 8 * len(cells), "8", cells))
            L["apply"](rt, *[r.rid << llir.SHIFT for r in regs])
            S.ENV.encoded.update("%s.h:DIFF%s (accuracy %d)" % (grid, o, acc) for o in ops)
            import numpy as np
            a = np.empty(len(ops) + 1, dtype=object)
            a[:] = list(regs[1].cells)
            return S.encode(a)
        mi = (mid, mid, mid)
        h = sp[axis]
        res = [run(f[0]) for f in fields]
        for k, o in enumerate(ops):
            if o.endswith("2"):
                got, want = res[0][k + 1], fields[0][2][mi] / h ** 2
            elif grid == "regular_grid":
                # exact to the order only: the odd term of degree acc + 1 is not
                got, want = run(cube(ctx, "e", acc, shape, axis)[0])[k + 1], cube(ctx, "e", acc, shape, axis)[1][mi] / h
            elif "H" in o:
                got, want = res[0][k + 1], fields[1][1][mi] / h       # integer -> half
            else:
                got, want = res[1][k + 1], fields[0][1][mi] / h       # half -> integer
            ctx.equal("DIFF" + o, got.reshape(1), want.reshape(1))
    finally:
        shutil.rmtree(d, True)


# ---- whole steps -----------------------------------------------------------
def end_to_end(ctx, dw, prop, nd, axis, acc, backend):
    """one step from polynomial states, on the cells the stencil covers"""
    a = acc // 2
    n = acc + 2
    shape = [2] * nd
    shape[axis] = n
    dx = [1.0, 1.5, 0.75][:nd]
    dt = 0.125
    kw = dict(python_backend=backend) if backend else {}
    D = DIM[nd]
    letter = D[axis]
    cfg = Cfg(prop, shape, acc=acc, pml=0, nt=1, dx=dx, dt=dt, nsrc=0, nrec=0, **kw)
    models = {m: torch.full(tuple(shape), {"v": 1.5, "scatter": 0.0, "rho": 1.25, "lamb": 2.0, "mu": 0.75, "buoyancy": 0.8}[m],
                            dtype=torch.float64) for m in cfg.P.models}
    names = cfg.P.fields(nd)
    sl = [slice(None)] * nd
    # half-shifted outputs stop one earlier at the upper end
    sl[axis] = slice(a, n - a)
    sl = (0,) + tuple(sl)
    low = [slice(None)] * nd
    for k in range(nd):
        if k != axis:
            low[k] = slice(0, 1)       # clear of the zeroed last half cells
    h = dx[axis]

    def go(state):
        with torch.no_grad():
            o = cfg.run(dw, dict(models, **{k: v[None] for k, v in state.items()}))
        return dict(zip(names, o))

    def cmp(label, got, want):
        ctx.equal(label, got[sl][tuple(x if k != axis else slice(None) for k, x in enumerate(low))],
                  want[sl[1:]][tuple(x if k != axis else slice(None) for k, x in enumerate(low))])

    if prop in ("scalar", "scalar_born"):
        v2 = 1.5 ** 2 * dt ** 2
        for f in ["wavefield_0"] + (["wavefield_sc_0"] if prop == "scalar_born" else []):
            u = cube(ctx, "c", acc + 1, shape, axis)
            # the other axes: the stencil on the two cells there, by d2 on zeros
            got = go({f: u[0]})
            from checks.refstep import d2
            want = 2 * u[0] + v2 * u[2] / h ** 2
            for k in range(nd):
                if k != axis:
                    want = want + v2 * d2(u[0], k - nd, acc, dx[k])
            cmp(f, got[f], want)
        return
    # staggered: one field at a time; what it drives is the derivative
    if prop == "acoustic":
        K, B = 1.25 * 1.5 ** 2, 1 / 1.25
        drives = [("pressure_0", "v%s_0" % letter, -dt * B), ("v%s_0" % letter, "pressure_0", -dt * K)]
    else:
        lam, mu, b = 2.0, 0.75, 0.8
        drives = [("sigma%s%s_0" % (letter, letter), "v%s_0" % letter, dt * b)]
        for c in D:
            drives.append(("v%s_0" % letter, "sigma%s%s_0" % (c, c), dt * (lam + (2 * mu if c == letter else 0))))
            if c != letter:
                s = "sigma%s%s_0" % tuple(sorted((c, letter)))
                drives.append((s, "v%s_0" % c, dt * b))
                drives.append(("v%s_0" % c, s, dt * mu))
    for f, g, k in drives:
        src_half = axis - nd in half_dims(prop, nd, f)
        dst_half = axis - nd in half_dims(prop, nd, g)
        u = cube(ctx, "c", acc, shape, axis, 0.5 if src_half else 0.0)
        w = cube(ctx, "c", acc, shape, axis, 0.5 if dst_half else 0.0)
        st = u[0]
        want = k * w[1] / h
        got = go({f: st})[g]
        # the last value of a half-cell field along its own axis lies outside
        z = [slice(None)] * nd
        z[axis] = slice(a - 1 if dst_half else a, n - a)
        for q in range(nd):
            if q != axis:
                z[q] = slice(0, 1)
        z = tuple(z)
        ctx.equal("d %s / d%s through %s" % (f, letter, g), got[0][z], want[z])


def layers(ctx, dw, prop, nd, axis, acc):
    """derivatives inside the layers: both backends agree on the memory
    variables, which are proportional to the exact derivative"""
    shape = [2] * nd
    w = acc + 1
    shape[axis] = 2
    pml = [0] * (2 * nd)
    pml[2 * axis] = pml[2 * axis + 1] = w
    n = 2 + 2 * w
    full = [2] * nd
    full[axis] = n
    a = acc // 2
    letter = DIM[nd][axis]
    outs = []
    driver = {"scalar": [("wavefield_0", "psi%s_m1")],
              "scalar_born": [("wavefield_0", "psi%s_m1"), ("wavefield_sc_0", "psi%s_sc_m1")],
              "acoustic": [("pressure_0", "psi_%s_0"), ("v%s_0", "phi_%s_0")],
              "elastic": [("sigma%s%s_0", "m_sigma%s%s%s_0"), ("v%s_0", "m_v%s%s_0")]}[prop]
    for f, m in driver:
        f = f.replace("%s", letter)
        m = m.replace("%s", letter)
        src_half = axis - nd in half_dims(prop, nd, f)
        dst_half = not src_half if prop in ("acoustic", "elastic") else False
        u = cube(ctx, "c", acc, full, axis, 0.5 if src_half else 0.0)
        q = cube(ctx, "c", acc, full, axis, 0.5 if dst_half else 0.0)
        lin = torch.arange(n, dtype=torch.float64)
        sh = [1] * nd
        sh[axis] = n
        lin = lin.reshape(sh).expand(full)
        res = []
        for be in (False, "eager"):
            kw = dict(python_backend=be) if be else {}
            cfg = Cfg(prop, shape, acc=acc, pml=pml, nt=1, nsrc=0, nrec=0, **kw)
            models = {k: torch.full(tuple(shape), {"v": 1.5, "scatter": 0.0, "rho": 1.25, "lamb": 2.0, "mu": 0.75,
                                                  "buoyancy": 0.8}[k], dtype=torch.float64) for k in cfg.P.models}
            names = cfg.P.fields(nd)
            with torch.no_grad():
                x = dict(zip(names, cfg.run(dw, dict(models, **{f: u[0][None]}))))[m][0]
                y = dict(zip(names, cfg.run(dw, dict(models, **{f: lin.contiguous()[None]}))))[m][0]
            sl = [slice(0, 1)] * nd
            lo = a if not dst_half else a - 1
            sl[axis] = slice(lo, n - a)
            sl = tuple(sl)
            # memory(polynomial) == memory(x -> x) * derivative
            ctx.equal("%s %s" % (m, be or "C"), x[sl], y[sl] * q[1][sl], tol=1e-12)
            ctx.true("the layer acts", bool((y[sl].abs() > 1e-6).any()))
            res.append((x, y))
        ctx.equal("%s: both backends" % m, res[0][0], res[1][0], tol=1e-12)


def scenarios(tier, seed):
    out = []
    for acc in (2, 4, 6, 8):
        for nd in (1, 2, 3):
            for ax in range(nd):
                for g, fn in (("regular_grid", "diff1"), ("regular_grid", "diff2"),
                              ("staggered_grid", "diff1"), ("staggered_grid", "diff1h")):
                    out.append(("python %s.%s %dd axis %d acc%d" % (g, fn, nd, ax, acc), python_op,
                                dict(grid=g, fn=fn, nd=nd, axis=ax, acc=acc)))
        for g in OPS:
            for ax in range(3):
                out.append(("header %s axis %s acc%d" % (g, "zyx"[ax], acc), c_ops, dict(grid=g, axis=ax, acc=acc)))
        for p in PROPS:
            for nd in (1, 2, 3):
                for ax in range(nd):
                    for be in (None, "eager"):
                        out.append(("%s %dd axis %d acc%d%s" % (p, nd, ax, acc, " python" if be else ""), end_to_end,
                                    dict(prop=p, nd=nd, axis=ax, acc=acc, backend=be)))
                    if nd < 3 or acc < 6 or tier == "thorough":
                        out.append(("%s %dd axis %d acc%d layers" % (p, nd, ax, acc), layers,
                                    dict(prop=p, nd=nd, axis=ax, acc=acc)))
    return out
