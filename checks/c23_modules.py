import os
import tempfile

import torch
from checks.common import *
from checks.scen import noop, Rec, cb_models
from engine.adapters import MAXVEL, scratch

PROPERTY = "C23"
TECHNIQUE = ("symbolic execution of both interfaces down to the real kernels; z3 decides equality of outputs "
             "and gradients")
EXPLANATION = ("The module class and the function are executed on the same symbolic models, amplitudes and states with "
               "each setting varied away from its default; the solver decides that all outputs and gradients agree. "
               "Requires-grad flags, storage location and callbacks are compared directly.")
BOUNDS = "1-3 dimensions, 1-4 steps, every argument of forward and of the constructors"
ASSUMPTIONS = EXACT

CLASS = dict(scalar="Scalar", scalar_born="ScalarBorn", acoustic="Acoustic", elastic="Elastic")


def module(ctx, dw, cfg, flags="all", over=None, ctor=None, probe=None, again=False, ctorpos=False,
           wave=None,
           **ik):
    """module(…)(dt, …) == function(models, dx, dt, …)"""
    c = Cfg(**cfg)
    P = c.P
    inp = c.inputs(ctx, **ik)
    if wave:
        inp[P.fields(c.nd)[0]] = ctx.tensor("state", (c.n_shots,) + tuple(wave), 1)
    over = dict(over or {})
    ctor = dict(ctor or {})
    flags = {m: (flags == "all" or m in flags) for m in P.models}
    lin = [k for k in floats(inp) if k not in P.models]
    dx = ctor.pop("grid_spacing", c.dx)

    def kwargs(i):
        kw = dict(accuracy=c.acc, pml_width=c.pml, pml_freq=0.5, max_vel=MAXVEL[c.prop])
        kw.update(c.kw)
        kw.update({k: v for k, v in i.items() if k not in P.models})
        if not any(k.startswith("source_amplitudes") for k in i):
            kw.setdefault("nt", c.nt)
        kw.update(over)
        return kw
    torch.set_num_threads(c.threads)
    res = []
    f = getattr(dw, c.prop)
    for which in ("function", "module"):
        i = {k: v.detach().clone() for k, v in inp.items()}
        for k in lin:
            i[k].requires_grad_(any(flags.values()) or flags == {})
        rec = []
        kw = kwargs(i)
        if "storage_path" in ctor:
            ctor["storage_path"] = tempfile.mkdtemp(dir=scratch())
        if probe:
            fr, br = Rec(P.fields(c.nd), cb_models(c.prop, c.nd)), Rec([], [])
            kw.update(forward_callback=fr, callback_frequency=probe)
            if any(flags.values()):
                kw["backward_callback"] = br
            rec = [fr, br]
        if which == "function":
            for m in P.models:
                i[m].requires_grad_(flags[m])
            o = f(*[i[m] for m in P.models], dx, c.dt, **kw, **ctor)
            par = {m: i[m] for m in P.models}
            left = watch(ctor)
        else:
            C = getattr(dw, CLASS[c.prop])
            if ctorpos:
                opt = [ctor.get(k, d) for k, d in (("storage_mode", "device"), ("storage_path", "."),
                                                   ("storage_compression", False))]
                mod = C(*[i[m] for m in P.models], dx, *[flags[m] for m in P.models], *opt)
            else:
                mod = C(*[i[m] for m in P.models], grid_spacing=dx,
                        **{m + "_requires_grad": flags[m] for m in P.models}, **ctor)
            par = {m: getattr(mod, m) for m in P.models}
            for m in P.models:
                ctx.true("%s is a parameter" % m, isinstance(par[m], torch.nn.Parameter) and
                         any(q is par[m] for q in mod.parameters()))
                ctx.true("%s requires grad as asked" % m, par[m].requires_grad == flags[m])
                ctx.equal("the module's " + m, par[m].detach(), inp[m])
            if again:
                # an earlier call with other settings leaves no trace
                with torch.no_grad():
                    mod(c.dt * 2, accuracy=2, pml_width=0, pml_freq=1.0, nt=1, max_vel=1.0,
                        **{P.fields(c.nd)[0]: torch.ones((1,) + c.shape, dtype=torch.float64)})
            o = mod(c.dt, **kw)
            left2 = watch(ctor)
            ctx.true("disk storage below the given path", left == left2)
        sel = [k for k in range(len(o)) if o[k].numel() and o[k].requires_grad]
        if not res:
            ys = ctx.cotangents([o[k] for k in sel])
        w = [(m, par[m]) for m in P.models if flags[m]] + [(k, i[k]) for k in lin if i[k].requires_grad]
        g = torch.autograd.grad([o[k] for k in sel], [x for _, x in w], ys, allow_unused=True) if w else ()
        res.append((o, [(n, torch.zeros_like(inp[n]) if y is None else y) for (n, _), y in zip(w, g)], rec, sel))
    (o1, g1, r1, s1), (o2, g2, r2, s2) = res
    ctx.true("number of outputs", len(o1) == len(o2))
    ctx.true("same outputs require grad", s1 == s2)
    for n, x, y in zip(c.out_names(), o1, o2):
        ctx.true(n + ": shape", x.shape == y.shape)
        ctx.equal(n, y, x)
    for (n, x), (_, y) in zip(g1, g2):
        ctx.equal("gradient of " + n, y, x)
    for a, b in zip(r1, r2):
        ctx.true("callback steps", [d["step"] for d in a.calls] == [d["step"] for d in b.calls])
        for d, e in zip(a.calls, b.calls):
            for n in d:
                if isinstance(d[n], dict):
                    ctx.equal("callback %d %s" % (d["step"], n), e[n]["full"], d[n]["full"])


def watch(ctor):
    p = ctor.get("storage_path")
    return len(os.listdir(p)) if p else 0


def pos(ctx, dw, cfg, **ik):
    """all arguments by position, in the order of the function"""
    c = Cfg(**cfg)
    P = c.P
    inp = c.inputs(ctx, **ik)
    import inspect
    f = getattr(dw, c.prop)
    par = inspect.signature(f).parameters
    names = list(par)
    names = names[names.index("dt") + 1:]
    kw = dict(accuracy=c.acc, pml_width=c.pml, pml_freq=0.5, max_vel=MAXVEL[c.prop])
    kw.update({k: v for k, v in inp.items() if k not in P.models})
    kw.update(c.kw)
    args = [kw.get(n, par[n].default) for n in names]
    n = len(names)
    while names[n - 1].startswith("storage_"):
        n -= 1
    with torch.no_grad():
        a = f(*[inp[m] for m in P.models], c.dx, c.dt, **kw)
        b = f(*[inp[m] for m in P.models], c.dx, c.dt, *args)
        m = getattr(dw, CLASS[c.prop])(*[inp[m] for m in P.models], c.dx)(c.dt, *args[:n])
    for nm, x, y, z in zip(c.out_names(), a, b, m):
        ctx.equal(nm + " by position", y, x)
        ctx.equal(nm + " of the module by position", z, x)


def scenarios(tier, seed):
    out = []

    def a(name, ik=None, fn=module, **cfg):
        out.append(("%s %s" % (cfg["prop"], name), fn, dict(cfg=cfg, **(ik or {}))))
    for p in PROPS:
        M = PROPS[p].models
        reg = p in ("scalar", "scalar_born")
        for nd, sh in ((1, (4,)), (2, (3, 4)), (3, (2, 3, 2))):
            asym = [1, 0, 2, 0, 0, 1][:2 * nd]
            k = dict(prop=p, shape=sh, acc=2, nt=1, pml=asym)
            a("%dd everything" % nd, n_shots=2, threads=2, **k)
            a("%dd by position" % nd, fn=pos, ik=dict(models="conc"), **k)
            a("%dd everything, other settings" % nd, ik=dict(models="conc", flags=[]), prop=p,
              shape=sh if nd < 3 else (2, 2, 2), acc=4, nt=3, pml=asym if nd < 3 else [0, 0, 1, 0, 0, 0],
              max_vel=7.0 if nd < 3 else MAXVEL[p], freq_taper_frac=0.5, time_pad_frac=0.5, time_taper=True,
              model_gradient_sampling_interval=2)
        k = dict(prop=p, shape=(3, 4), acc=2, nt=2, pml=[1, 0, 0, 1])
        kc = dict(models="conc")
        for m in M:
            a("2d only %s" % m, ik=dict(flags=[m]), **dict(k, nt=1))
            a("2d all but %s" % m, ik=dict(flags=[x for x in M if x != m]), **dict(k, nt=1))
        a("2d constructor by position", ik=dict(flags=M[:1], ctorpos=True, ctor=dict(storage_mode="cpu")), **dict(k, nt=1))
        if len(M) > 1:
            a("2d constructor by position, last", ik=dict(flags=M[-1:], ctorpos=True, ctor=dict(storage_mode="cpu")),
              **dict(k, nt=1))
        a("2d earlier call", ik=dict(kc, flags=[], again=True), **k)
        a("2d internal steps", ik=dict(kc), **dict(k, max_vel=7.0))
        a("2d taper", ik=dict(kc, flags=[]), time_taper=True, freq_taper_frac=0.5, **dict(k, max_vel=7.0, nt=4))
        a("2d padding", ik=dict(kc, flags=[]), time_pad_frac=0.5, **dict(k, max_vel=7.0, nt=4))
        a("2d interval", ik=dict(nil=M, amps="conc", fields="conc", flags=M), model_gradient_sampling_interval=2,
          **dict(k, nt=3))
        a("2d accuracy", ik=dict(kc), **dict(k, acc=6))
        a("2d survey pad", ik=dict(kc), survey_pad=[0, None, 1, 0], **dict(k, pml=0, fields="none"))
        a("2d origin", ik=dict(kc, over=dict(origin=(1, 2)), wave=(2, 2), flags=[]),
          **dict(k, pml=0, fields="none", src={x: torch.tensor([[[1, 2]]]) for _, _, x in PROPS[p].srcs(2)},
                 rec={x: torch.tensor([[[1, 2]]]) for _, x in PROPS[p].recs(2)}))
        a("2d layers frequency", ik=dict(kc, over=dict(pml_freq=2.0)), **k)
        a("2d callbacks", ik=dict(kc, probe=2), **dict(k, nt=3))
        a("2d python backend", ik=dict(kc, flags=[]), python_backend="eager", **k)
        a("2d one spacing", ik=dict(kc, ctor=dict(grid_spacing=1.25)), **k)
        a("2d no sources", ik=dict(kc), **dict(k, nsrc=0, nt=3))
        a("2d disk", ik=dict(kc, ctor=dict(storage_mode="disk", storage_path=scratch())), **k)
        a("2d compressed", ik=dict(kc, ctor=dict(storage_compression=True)), **k)
        a("2d no storage", ik=dict(kc, flags=[], ctor=dict(storage_mode="none")), **k)
    return out
