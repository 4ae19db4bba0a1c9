import math
from fractions import Fraction

from checks.common import *
from checks import args as A
from checks.args import *
from checks.scen import floats

PROPERTY = "C15"
TECHNIQUE = "symbolic execution of the Python time-step code with symbolic spacing, interval and speed (z3, nonlinear reals and integers), and of whole propagations with internal steps"
EXPLANATION = ("z3 decides for every spacing, interval and speed that the number of internal steps is the smallest that meets the "
               "stability limit 0.6 / (c sqrt(sum 1/dx^2)) and that the interval and the number of steps used follow from it.  Whole "
               "propagations with 2-5 internal steps equal propagations at the small interval with independently resampled data.")
BOUNDS = ("spacings, intervals and speeds are unbounded positive reals above 1e-3 (interval either sign); whole propagations: ratios 1-5, "
          "2-6 samples, 1-2 dimensions")
ASSUMPTIONS = EXACT[:2] + ["minimality is up to a relative 1e-6 of the limit (the code guards a division with 1e-15)",
                           "constants of the resampling compared up to 1e-12 (1e-5 with the single-precision Hann window)"]
TASKS_PER_CHILD = 40
R = ("real", None, None)
POS = ("real", 0.001, None)


def within(n, dt, dx, c, slack):
    """n steps meet the limit: (|dt| c)^2 sum 1/dx^2 <= (0.6 n)^2 (1 + slack)"""
    s = 0
    for d in dx:
        s = s + 1 / (d * d)
    lim = n * n * Fraction(9, 25) * (1 + slack)
    return Le(dt * dt * c * c * s, lim)


def ratio(ctx, dw, prop, nd, sign, fixed_dx=None, whole=False):
    decl = {"dt": R, "c": POS}
    if fixed_dx is None:
        for k in range(nd):
            decl["dx%d" % k] = POS

    def dxs(inp):
        return [inp["dx%d" % k] for k in range(nd)] if fixed_dx is None else [Fraction(x) for x in fixed_dx]

    def run(inp):
        dx = [inp["dx%d" % k] for k in range(nd)] if fixed_dx is None else list(fixed_dx)
        kw = dict(max_vel=inp["c"])
        if not whole:
            A.call(dw, prop, nd, "set_source_amplitudes", dx=dx, dt=inp["dt"], **kw)
        up = dw.common.upsample           # its own scenarios: resampled below
        dw.common.upsample = lambda s, *a, **k: s
        try:
            A.call(dw, prop, nd, "setup", dx=dx, dt=inp["dt"], **kw)
        finally:
            dw.common.upsample = up

    def assume(inp):
        c = [Lt(0, inp["dt"]) if sign > 0 else Lt(inp["dt"], 0)]
        return And(*c)

    def check(inp, out):
        if out.raised:
            return [("a valid call is refused", False)]
        v = out.value
        n, dt, c, dx = v["step_ratio"], inp["dt"], inp["c"], dxs(inp)
        sl = Fraction(1, 10 ** 12) if ctx.mode == "conc" else Fraction(1, 10 ** 15)
        r = [("at least one step", Le(1, n)),
             ("the internal step is stable", within(n, dt, dx, c, sl)),
             ("the number of internal steps is the smallest", Or(Eq(n, 1), Not(within(n - 1, dt, dx, c, -Fraction(2, 10 ** 6))))),
             ("internal steps", Eq(v["nt"], n * 3))]
        if whole:
            r.append(("internal interval", Eq(v["dt"] * n, dt)))
        return r
    ctx.explore("step", decl, run, check, assume=assume, expect=("returned",))


def max_speed(ctx, dw, prop, nd):
    """the speed used when none is given, or a lower one (fixed models)"""
    shape = A.SHAPE[nd]
    import warnings
    rows = []
    for k in range(3):
        m = A.models(prop, nd)
        z = [x.clone() for x in m]
        first = (0,) * nd
        last = tuple(s - 1 for s in shape)
        pos = (first, last, tuple(s // 2 for s in shape))[k]
        if prop in ("scalar", "scalar_born", "acoustic"):
            z[0][pos] = (3.0, -3.0, 3.5)[k]
            want = abs((3.0, -3.0, 3.5)[k])
        else:
            lam, mu, b = [(5.0, 2.0, 1.5), (9.0, 0.0, 1.25), (1.0, 4.0, 0.75)][k]
            z[0][pos], z[1][pos], z[2][pos] = lam, mu, b
            want = math.sqrt((lam + 2 * mu) * b)
        rows.append((z, None, want))
        rows.append((z, want * 2, want * 2))
        rows.append((z, want / 2, want / 2))
    for k, (m, given, want) in enumerate(rows):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                got = A.call(dw, prop, nd, "cfl_condition_n", mods=m, max_vel=given)
            except pysym.Cut as c:
                got = c.value
        g = float(got["max_abs_vel"])
        ctx.true("speed used in case %d: %r instead of %r" % (k, g, want), abs(g - want) <= 1e-6 * want)


ratio.plain = max_speed.plain = True


# ---- independent resampling ------------------------------------------------
def taper(K, frac):
    T = [1.0] * K
    L = int(frac * K) if frac > 0 else 0
    if L > 0:
        for i in range(1, L + 1):
            T[K - L + i - 1] = (math.cos(math.pi * i / L) + 1) / 2
    elif K > 1:
        T[K - 1] = 0.0
    return T


def hann(n):
    return [1.0] if n == 1 else [0.5 - 0.5 * math.cos(2 * math.pi * i / (n - 1)) for i in range(n)]


def up_matrix(nt, r, frac, padf, tt):
    npad = int(padf * nt) if padf > 0 else 0
    N = nt + npad
    M = N * r
    K = N // 2 + 1
    T = taper(K, frac)
    U = []
    h = hann(nt * r) if tt else [1.0] * (nt * r)
    for m in range(nt * r):
        row = []
        for n in range(nt):
            s = sum((1 if k == 0 else 2) * T[k] * math.cos(2 * math.pi * ((k * (m - n * r)) % M) / M) for k in range(K))
            row.append(s / N * h[m])
        U.append(row)
    return torch.tensor(U, dtype=torch.float64)


def down_matrix(nt, r, frac, padf, tt):
    """nt: number of output samples"""
    npad = int(padf * nt) if padf > 0 else 0
    N = nt + npad
    M = N * r
    K = N // 2 + 1
    T = taper(K, frac)
    h = hann(nt * r) if tt else [1.0] * (nt * r)
    D = []
    for m in range(nt):
        row = []
        for n in range(nt * r):
            s = sum((1 if k == 0 or 2 * k == N else 2) * T[k] * math.cos(2 * math.pi * ((k * (m * r - n)) % M) / M)
                    for k in range(K))
            row.append(s / M * h[n])
        D.append(row)
    return torch.tensor(D, dtype=torch.float64)


def resampled(ctx, dw, cfg, r, freq=0.0, padf=0.0, tt=False, wrt=None, over=None, **ik):
    c = Cfg(**cfg)
    over = over or {}
    nd = c.nd
    s = math.sqrt(sum(1 / d ** 2 for d in c.dx))
    vel = (r - 0.5) * 0.6 / s / abs(c.dt) if r > 1 else None
    inp = c.inputs(ctx, **ik)
    w = [] if not wrt else [x for x in wrt if x in inp]
    inp = {k: (v.requires_grad_() if k in w else v) for k, v in inp.items()}
    opt = dict(freq_taper_frac=freq, time_pad_frac=padf, time_taper=tt)
    if vel is not None:
        opt["max_vel"] = vel
    a = c.run(dw, inp, **opt, **over)
    loose = 1e-5 if (tt or freq) and r > 1 else None
    nf = len(c.P.fields(nd))
    i2 = dict(inp)
    if r > 1:
        U = up_matrix(c.nt, r, freq, padf, tt)
        D = down_matrix(c.nt, r, freq, padf, tt)
        for k, v in inp.items():
            if k.startswith("source_amp"):
                i2[k] = (v[..., None, :] * U).sum(-1)
    c2 = Cfg(**dict(cfg, nt=c.nt * r, dt=c.dt / r))
    b = c2.run(dw, i2, model_gradient_sampling_interval=r, **({"max_vel": vel} if vel is not None else {}), **over)
    for k in range(nf, len(b)):
        if r > 1 and b[k].numel():
            b[k] = (b[k][..., None, :] * D).sum(-1)
    for n, x, y in zip(c.out_names(), a, b):
        ctx.true("%s: shape" % n, x.shape == y.shape)
        ctx.equal(n, x, y, tol=1e-8, loose=loose)
    for k in range(nf, len(a)):
        if a[k].numel():
            ctx.true("as many receiver samples as requested", a[k].shape[-1] == c.nt)
    if w:
        sel = [j for j in range(len(a)) if a[j].numel() and a[j].requires_grad]
        ys = ctx.cotangents([a[j] for j in sel])
        ga = torch.autograd.grad([a[j] for j in sel], [inp[x] for x in w], ys)
        gb = torch.autograd.grad([b[j] for j in sel], [inp[x] for x in w], ys)
        for x, g, h in zip(w, ga, gb):
            ctx.equal("gradient of " + x, g, h, tol=1e-8, loose=loose)


def scenarios(tier, seed):
    out = []
    for p in PROPS:
        def a(title, f, **k):
            out.append(("%s %s" % (p, title), f, dict(prop=p, **k)))
        for sign in (1, -1):
            t = "" if sign > 0 else " backwards"
            a("1d steps" + t, ratio, nd=1, sign=sign)
            a("1d setup" + t, ratio, nd=1, sign=sign, whole=True)
            a("2d steps, spacing given" + t, ratio, nd=2, sign=sign, fixed_dx=[0.75, 1.0])
            a("3d steps, spacing given" + t, ratio, nd=3, sign=sign, fixed_dx=[0.5, 1.0, 1.0])
            a("2d setup" + t, ratio, nd=2, sign=sign, fixed_dx=[0.75, 1.0], whole=True)
        if tier == "thorough":
            a("2d steps", ratio, nd=2, sign=1)
        for nd in (1, 2, 3):
            a("%dd maximum speed" % nd, max_speed, nd=nd)

        def e(title, r, ik=None, **cfg):
            out.append(("%s %s" % (p, title), resampled, dict(cfg=dict(cfg, prop=p), r=r, **(ik or {}))))
        lin = [s[0] for s in PROPS[p].srcs(1)]
        M = PROPS[p].models
        c1 = dict(models="conc", fields="none", wrt=lin)
        c2 = dict(models="conc", fields="none")
        light = tier == "thorough" or p in ("scalar", "scalar_born")
        for r in (1, 2, 3, 4, 5) if light else (1, 2, 3):
            for nt in (2, 3, 4) if r < 4 and p == "scalar" else (2, 3) if r < 3 or light else (2,):
                e("1d ratio %d, %d samples" % (r, nt), r, shape=(4,), acc=2, nt=nt, pml=[1, 0], ik=c1 if light else c2)
        for r in (1, 2, 3) if light else (2,):
            n = 4 if p == "scalar" else 3 if light else 2
            e("1d ratio %d, frequency taper" % r, r, shape=(4,), acc=2, nt=max(n, 3), pml=[0, 1], ik=dict(c1, freq=0.9))
            e("1d ratio %d, short frequency taper" % r, r, shape=(4,), acc=2, nt=n, pml=[0, 1], ik=dict(c1, freq=0.1))
            e("1d ratio %d, padding" % r, r, shape=(4,), acc=2, nt=n, pml=[0, 1], ik=dict(c1, padf=0.6))
            e("1d ratio %d, time taper" % r, r, shape=(4,), acc=2, nt=n, pml=[0, 1], ik=dict(c1, tt=True))
            e("1d ratio %d, all" % r, r, shape=(4,), acc=2, nt=n - 1, pml=[0, 1], ik=dict(c1, tt=True, padf=1.0, freq=1.0))
        if light:
            e("1d ratio 2, model gradient", 2, shape=(4,), acc=2, nt=2, pml=[1, 0],
              ik=dict(nil=M, wrt=M, amps="conc", fields="none"))
            e("1d ratio 2, initial wavefields", 2, shape=(4,), acc=2, nt=2, pml=[1, 0], ik=dict(models="conc"))
        nt = 2
        e("2d ratio 2", 2, shape=(3, 3), acc=2, nt=nt, pml=[1, 0, 0, 1], ik=c2)
        e("2d ratio 2, two shots", 2, shape=(3, 2), acc=2, nt=nt, pml=0, n_shots=2, threads=2, ik=c2)
        e("2d ratio 2, python", 2, shape=(3, 3), acc=2, nt=nt, pml=[1, 0, 0, 1], python_backend="eager", ik=c2)
        e("2d ratio 2 backwards", 2, shape=(3, 3), acc=2, nt=nt, pml=0, dt=-0.125, ik=c2)
    return out
