import torch

from checks.common import *
from checks import refstep as R
from checks.refstep import Step, clear_last, half_dims

PROPERTY = "C16"
TECHNIQUE = "symbolic execution of the real kernels for one or two steps of arbitrary states and models; z3 decides equality with an independent statement of the scheme"
EXPLANATION = ("One step (and two) of every propagator from a fully symbolic state with symbolic models and amplitudes is compared by the "
               "solver with an independently written finite-difference scheme whose weights are derived from the moment equations.")
BOUNDS = "1-3 dimensions, accuracies 2-8, models up to 12 cells long, 1-2 steps, up to 2 shots; cells further than the stencil from a layer"
ASSUMPTIONS = EXACT + ["densities and shear moduli are not zero (C19 covers zeros)"]


def step(ctx, dw, cfg, steps=1, over=None, **ik):
    c = Cfg(**dict(cfg, nt=steps))
    nd = c.nd
    inp = c.inputs(ctx, **ik)
    with torch.no_grad():
        out = c.run(dw, inp, **(over or {}))
    got = dict(zip(c.P.fields(nd), out))
    recs = dict(zip([l for l, _ in c.P.recs(nd)], out[len(c.P.fields(nd)):]))
    ref = Step(c.prop, nd, c.acc, c.dx, c.dt, {m: inp[m] for m in c.P.models}, c.n_shots)
    crop = (slice(None),) + tuple(slice(c.pml[2 * k], c.pml[2 * k] + n) for k, n in enumerate(c.shape))
    zero = torch.zeros((c.n_shots,) + c.shape, dtype=torch.float64)
    st = {}
    for n in ref.names():
        w = inp[n][crop] if n in inp else zero
        st[n] = clear_last(w, [a for a in half_dims(c.prop, nd, n) if not c.pml[2 * (nd + a) + 1]])
    locs = {l: inp[l] for l, _ in c.P.recs(nd) if l in inp}
    want = {l: [] for l in locs}
    for t in range(steps):
        for l, v in ref.receivers(st, locs).items():
            want[l].append(v)
        st = ref(st, {a: (inp[l], inp[a][..., t]) for a, l, _ in c.P.srcs(nd) if a in inp})
    # cells whose value involves nothing from inside or beyond a layer
    lag = 2 if c.prop in ("acoustic", "elastic") else 1
    reach = lag * steps * (c.acc // 2)
    ins = (slice(None),) + tuple(slice(reach if c.pml[2 * k] else 0, n - (reach if c.pml[2 * k + 1] else 0))
                                 for k, n in enumerate(c.shape))
    for n in ref.names():
        ctx.equal(n, got[n][crop][ins], st[n][ins])
        ctx.true("something is compared", got[n][crop][ins].numel() > 0)
    for l, v in want.items():
        if any(c.pml) and steps > 1:
            v, r = v[:1], recs[l][..., :1]
        else:
            r = recs[l]
        ctx.equal(l, r, torch.stack(v, dim=-1))
    # memory variables stay zero where there is no layer
    for n in c.P.fields(nd):
        if n not in ref.names() and n not in inp:
            ctx.equal("memory variable " + n, got[n][crop][ins], torch.zeros_like(got[n][crop][ins]))


def scenarios(tier, seed):
    out = []

    def a(prop, name, ik=None, **cfg):
        out.append(("%s %s" % (prop, name), step, dict(cfg=dict(cfg, prop=prop), **(ik or {}))))
    for p in PROPS:
        main = {nd: Step(p, nd, 2, None, None, {}, 1).names() for nd in (1, 2, 3)}
        L = dict(models="conc")
        for acc in (2, 4, 6, 8):
            a(p, "1d acc%d" % acc, shape=(acc + 2,), acc=acc, pml=0, fields=main[1], nsrc=2)
            a(p, "2d acc%d y" % acc, shape=(acc + 1, 3), acc=acc, pml=0, fields=main[2])
            a(p, "2d acc%d x" % acc, shape=(3, acc + 1), acc=acc, pml=0, fields=main[2], dt=-0.125)
            k = L if acc > 2 or p == "elastic" else None
            a(p, "3d acc%d z" % acc, shape=(acc + 1, 2, 2), acc=acc, pml=0, fields=main[3], ik=k)
            a(p, "3d acc%d y" % acc, shape=(2, acc + 1, 2), acc=acc, pml=0, fields=main[3], ik=k)
            a(p, "3d acc%d x" % acc, shape=(2, 2, acc + 1), acc=acc, pml=0, fields=main[3], ik=k)
            lag = 2 if p in ("acoustic", "elastic") else 1
            n = acc // 2 * lag
            a(p, "1d acc%d layers" % acc, shape=(2 * n + 2,), acc=acc, pml=[2, 1], fields=main[1])
            a(p, "2d acc%d layers" % acc, shape=(n + 2, n + 1), acc=acc, pml=[1, 0, 0, 2], fields=main[2], ik=L)
            a(p, "2d acc%d python" % acc, shape=(acc // 2 + 2, 3), acc=acc, pml=0, fields=main[2], python_backend="eager")
            a(p, "3d acc%d python" % acc, shape=(2, 3, 2), acc=acc, pml=0, fields=main[3], python_backend="eager", ik=L)
        a(p, "3d models", shape=(3, 3, 2), acc=2, pml=0, fields=main[3], ik=dict(fields="conc", amps="conc"))
        a(p, "3d layers", shape=(4, 3, 3), acc=2, pml=[0, 1, 1, 0, 0, 0], fields=main[3], ik=L)
        a(p, "2d two shots", shape=(3, 3), acc=2, pml=0, fields=main[2], n_shots=2, threads=2)
        a(p, "2d two shots, batched models", shape=(3, 3), acc=2, pml=0, fields=main[2], n_shots=2, nbm=2, threads=2)
        a(p, "1d batched python", shape=(4,), acc=2, pml=0, fields=main[1], n_shots=2, nbm=2, python_backend="eager")
        a(p, "1d from rest", shape=(4,), acc=2, pml=0, fields="none", nsrc=2, ik=dict(steps=3))
        a(p, "1d two steps", shape=(4,), acc=2, pml=0, fields=main[1], ik=dict(steps=2))
        a(p, "1d acc4 two steps", shape=(5,), acc=4, pml=0, fields=main[1], ik=dict(steps=2))
        a(p, "2d two steps", shape=(3, 3), acc=2, pml=0, fields=main[2], ik=dict(steps=2, models="conc"))
        a(p, "2d acc4 two steps python", shape=(4, 3), acc=4, pml=0, fields=main[2], python_backend="eager",
          ik=dict(steps=2, models="conc"))
        a(p, "3d two steps", shape=(3, 2, 3), acc=2, pml=0, fields=main[3], ik=dict(steps=2, models="conc"))
        a(p, "2d three steps from rest", shape=(4, 3), acc=4, pml=0, fields="none", ik=dict(steps=3, models="conc"))
        a(p, "2d large", shape=(6, 7), acc=4, pml=0, fields=main[2], ik=L)
        a(p, "2d callbacks every step", shape=(3, 3), acc=2, pml=0, fields=main[2], forward_callback=nothing,
          callback_frequency=1, ik=dict(steps=2, models="conc"))
        if tier == "thorough":
            a(p, "2d three steps", shape=(4, 4), acc=2, pml=0, fields=main[2], ik=dict(steps=3, models="conc"))
            for acc in (4, 6, 8):
                for nd, sh in ((3, (acc + 1, 2, 2)), (3, (2, acc + 1, 2)), (3, (2, 2, acc + 1))):
                    a(p, "%s acc%d all" % (sh, acc), shape=sh, acc=acc, pml=0, fields=main[3])
            a(p, "2d acc8 large", shape=(10, 9), acc=8, pml=0, fields=main[2], ik=L)
            a(p, "3d large", shape=(5, 4, 5), acc=4, pml=0, fields=main[3], ik=L)
    return out


def nothing(state):
    pass
