"""propagator-level scenario functions (C05-C12, C24-C27)"""
import torch
from engine.adapters import Cfg, PROPS, DIM

IG = -(2 ** 31)


def floats(inp):
    return [k for k in inp if inp[k].dtype.is_floating_point]


# ---- C05 -----------------------------------------------------------------
def born(ctx, dw, cfg, edge=False, **ik):
    """scalar_born == (scalar, d scalar along (scatter, scattered state))"""
    c = Cfg(prop="scalar_born", **cfg)
    inp = c.inputs(ctx, **ik)
    nd = c.nd
    if any(c.pml) and not edge:
        # the scattering potential vanishes in the layers: zero on the model's
        # outer cells where there is a layer, so that both paddings agree
        sc = inp["scatter"]
        for d in range(nd):
            n = sc.shape[-nd + d]
            keep = torch.ones(n, dtype=torch.bool)
            if c.pml[2 * d]:
                keep[0] = False
            if c.pml[2 * d + 1]:
                keep[-1] = False
            shp = [1] * nd
            shp[d] = n
            sc = torch.where(keep.reshape(shp), sc, torch.zeros((), dtype=sc.dtype))
        inp["scatter"] = sc
    outs = c.run(dw, inp)
    nf = len(c.P.fields(nd)) // 2
    s = Cfg(prop="scalar", **cfg)
    sin = {k: v for k, v in inp.items() if k in ("v", "source_amplitudes", "source_locations")}
    dirs = {"v": inp["scatter"]}
    for f in s.P.fields(nd):
        if f in inp:
            sin[f] = inp[f]
            h, t = f.rsplit("_", 1)
            dirs[f] = inp["%s_sc_%s" % (h, t)]
    for loc, k in (("bg_receiver_locations", 0), ("receiver_locations", 1)):
        if loc not in inp:
            continue
        i2 = dict(sin, receiver_locations=inp[loc])
        base, der = ctx.jvp(lambda **i: s.run(dw, i), i2, dirs)
        if k == 0:
            ctx.equal("background receivers", outs[-2], base[-1])
            for n, a, b in zip(s.P.fields(nd), outs[:nf], base):
                ctx.equal("background " + n, a, b)
        else:
            ctx.equal("scattered receivers", outs[-1], der[-1], tol=1e-6)
            for n, a, b in zip(s.P.fields(nd), outs[nf:2 * nf], der):
                ctx.equal("scattered " + n, a, b, tol=1e-6)


# ---- C06 -----------------------------------------------------------------
def second(ctx, dw, cfg, wrt="all", gwrt="all", outs=None, cots="sym", **ik):
    """gradients of gradients"""
    c = Cfg(**cfg)
    inp = c.inputs(ctx, **ik)
    names = floats(inp)
    w1 = names if wrt == "all" else [x for x in wrt if x in inp]
    no = c.P.n_out(c.nd)
    sel = [k for k in range(no) if outs is None or k in outs]
    with torch.no_grad():
        res = c.run(dw, inp)
    sel = [k for k in sel if res[k].numel()]
    for k in sel:
        inp["cot%d" % k] = ctx.tensor("cot%d" % k, res[k].shape, 1, cots)

    def run2(**i):
        with torch.enable_grad():
            i = {k: (v if v.requires_grad or k not in w1 else v.detach().requires_grad_())
                 for k, v in i.items()}
            o = c.run(dw, {k: v for k, v in i.items() if not k.startswith("cot")})
            sl = [(o[k], i["cot%d" % k]) for k in sel if o[k].requires_grad]
            g = torch.autograd.grad([a for a, _ in sl], [i[x] for x in w1], [b for _, b in sl],
                                    create_graph=True, allow_unused=True)
        return [torch.zeros_like(i[x]) if gg is None else gg for x, gg in zip(w1, g)]
    w2 = [x for x in floats(inp) if gwrt == "all" or x in gwrt or
          (gwrt == "models" and x in c.P.models)]
    ctx.grad("second derivative of %s:" % c.prop, run2, inp, w2)


def second_or_refused(ctx, dw, cfg, **kw):
    try:
        second(ctx, dw, cfg, **kw)
    except RuntimeError as e:
        ctx.true("a refusal is explained", len(str(e)) > 0)
        ctx.note_add("refused", 1)
    except NotImplementedError:
        ctx.note_add("refused", 1)


# ---- C07 -----------------------------------------------------------------
def backends(ctx, dw, cfg, grads=False, over=None, **ik):
    c = Cfg(**cfg)
    inp = c.inputs(ctx, **ik)
    over = over or {}
    if not grads:
        with torch.no_grad():
            a = c.run(dw, inp, **over)
            b = c.run(dw, inp, python_backend="eager", **over)
        for n, x, y in zip(c.out_names(), a, b):
            ctx.true("%s: shapes agree" % n, x.shape == y.shape)
            ctx.equal(n, x, y)
        return
    w = floats(inp) if grads is True else [x for x in grads if x in inp]
    g = []
    for be in (False, "eager"):
        i2 = {k: (v.detach().requires_grad_() if k in w else v) for k, v in inp.items()}
        o = c.run(dw, i2, python_backend=be, **over)
        sel = [k for k in range(len(o)) if o[k].numel()]
        ys = ctx.cotangents([o[k] for k in sel]) if not g else ys
        g.append((o, torch.autograd.grad([o[k] for k in sel], [i2[x] for x in w], ys,
                                         allow_unused=True)))
    for n, x, y in zip(c.out_names(), g[0][0], g[1][0]):
        ctx.equal(n, x, y)
    for n, x, y in zip(w, g[0][1], g[1][1]):
        z = torch.zeros_like(inp[n])
        ctx.equal("gradient of " + n, z if x is None else x, z if y is None else y)


# ---- C08 -----------------------------------------------------------------
def shots(ctx, dw, cfg, wrt="all", over=None, **ik):
    """one call with several shots == separate calls; shared gradients add"""
    c = Cfg(**cfg)
    inp = c.inputs(ctx, **ik)
    over = over or {}
    w = [] if wrt is None else floats(inp) if wrt == "all" else [x for x in wrt if x in inp]
    for x in w:
        inp[x].requires_grad_()
    a = c.run(dw, inp, **over)
    sel = [k for k in range(len(a)) if a[k].numel() and (not w or a[k].requires_grad)]
    ys = dict(zip(sel, ctx.cotangents([a[k] for k in sel]))) if w else {}
    if w:
        ga = torch.autograd.grad([a[k] for k in sel], [inp[x] for x in w],
                                 [ys[k] for k in sel], allow_unused=True)
    acc = [None] * len(w)
    nd = c.nd
    for s in range(c.n_shots):
        i1 = {}
        for k, v in inp.items():
            v = v.detach()
            if k in c.P.models:
                v = v[s] if v.ndim > nd else v
            else:
                v = v[s:s + 1]
            i1[k] = v.clone().requires_grad_() if k in w else v.clone()
        c1 = Cfg(**dict(cfg, n_shots=1, nbm=1, threads=1))
        b = c1.run(dw, i1, **over)
        for n, x, y in zip(c.out_names(), a, b):
            ctx.true("%s: number of shots" % n, x.numel() == 0 or x.shape[0] == c.n_shots)
            if x.numel():
                ctx.equal("shot %d %s" % (s, n), x[s:s + 1], y)
        if w:
            gb = torch.autograd.grad([b[k] for k in sel], [i1[x] for x in w],
                                     [ys[k][s:s + 1] for k in sel], allow_unused=True)
            for j, (x, g) in enumerate(zip(w, gb)):
                g = torch.zeros_like(i1[x]) if g is None else g
                if x in c.P.models and inp[x].ndim == nd:
                    acc[j] = g if acc[j] is None else acc[j] + g
                else:
                    acc[j] = [g] if acc[j] is None else acc[j] + [g]
    for x, g, e in zip(w, ga if w else (), acc):
        g = torch.zeros_like(inp[x]) if g is None else g
        ctx.equal("gradient of " + x, g, e)


# ---- C10 -----------------------------------------------------------------
def cont(ctx, dw, cfg, n, wrt="all", over=None, parts=None, **ik):
    """nt steps at once == n steps, then the rest from the returned state"""
    c = Cfg(**cfg)
    inp = c.inputs(ctx, **ik)
    over = over or {}
    w = [] if wrt is None else floats(inp) if wrt == "all" else [x for x in wrt if x in inp]
    for x in w:
        inp[x].requires_grad_()
    fn = c.P.fields(c.nd)
    nf = len(fn)
    a = c.run(dw, inp, **over)
    cuts = [0] + (parts or [n]) + [c.nt]
    state = {f: inp[f] for f in fn if f in inp}
    recs = [[] for _ in range(nf, len(a))]
    rest = {k: v for k, v in inp.items() if k not in fn and not k.startswith("source_amplitudes")}
    b = None
    for lo, hi in zip(cuts, cuts[1:]):
        i2 = dict(rest)
        for k, v in inp.items():
            if k.startswith("source_amplitudes"):
                i2[k] = v[..., lo:hi]
        i2.update(state)
        c2 = Cfg(**dict(cfg, nt=hi - lo))
        b = c2.run(dw, i2, **over)
        for k in range(nf, len(a)):
            recs[k - nf].append(b[k])
        state = dict(zip(fn, b[:nf]))
    b = list(b[:nf]) + [torch.cat([x for x in r], dim=-1) if r[0].numel() else r[0] for r in recs]
    for nme, x, y in zip(c.out_names(), a, b):
        ctx.true("%s: shape" % nme, x.shape == y.shape)
        ctx.equal(nme, x, y)
    if w:
        sel = [k for k in range(len(a)) if a[k].numel() and a[k].requires_grad]
        ys = ctx.cotangents([a[k] for k in sel])
        ga = torch.autograd.grad([a[k] for k in sel], [inp[x] for x in w], ys, allow_unused=True)
        gb = torch.autograd.grad([b[k] for k in sel], [inp[x] for x in w], ys, allow_unused=True)
        for x, g, h in zip(w, ga, gb):
            z = torch.zeros_like(inp[x])
            ctx.equal("gradient of " + x, z if g is None else g, z if h is None else h)


# ---- C27 -----------------------------------------------------------------
def linear(ctx, dw, cfg, over=None, **ik):
    """f(a x + y) == a f(x) + f(y), f(0) == 0 in amplitudes and states"""
    c = Cfg(**cfg)
    inp = c.inputs(ctx, **ik)
    over = over or {}
    lin = [k for k in floats(inp) if k not in c.P.models]
    other = {k: ctx.tensor(k + "'", inp[k].shape, 1) for k in lin}
    al = ctx.tensor("alpha", (), 1)
    with torch.no_grad():
        r1 = c.run(dw, inp, **over)
        r2 = c.run(dw, dict(inp, **other), **over)
        r3 = c.run(dw, dict(inp, **{k: al * inp[k] + other[k] for k in lin}), **over)
        r0 = c.run(dw, dict(inp, **{k: torch.zeros_like(inp[k]) for k in lin}), **over)
        for n, x, y, z, o in zip(c.out_names(), r1, r2, r3, r0):
            ctx.equal("superposition of " + n, z, al * x + y)
            ctx.equal("zero input " + n, o, torch.zeros_like(o))


def permute(ctx, dw, cfg, over=None, **ik):
    """order of sources and receivers does not matter"""
    c = Cfg(**cfg)
    inp = c.inputs(ctx, **ik)
    over = over or {}
    i2 = dict(inp)
    rp = {}
    for a, l, comp in c.P.srcs(c.nd):
        if a in inp:
            n = inp[a].shape[1]
            p = list(reversed(range(n)))
            if n > 2:
                p = p[1:] + p[:1]
            i2[a], i2[l] = inp[a][:, p], inp[l][:, p]
    for k, (l, comp) in enumerate(c.P.recs(c.nd)):
        if l in inp:
            n = inp[l].shape[1]
            p = list(reversed(range(n)))
            if n > 2:
                p = p[1:] + p[:1]
            i2[l] = inp[l][:, p]
            rp[len(c.P.fields(c.nd)) + k] = p
    with torch.no_grad():
        a = c.run(dw, inp, **over)
        b = c.run(dw, i2, **over)
    for k, (n, x, y) in enumerate(zip(c.out_names(), a, b)):
        ctx.equal(n, x[:, rp[k]] if k in rp and x.numel() else x, y)


# ---- C26 -----------------------------------------------------------------
def untouched(ctx, dw, cfg, grad=True, over=None, **ik):
    """the caller's tensors keep their contents; outputs do not alias them"""
    c = Cfg(**cfg)
    inp = c.inputs(ctx, **ik)
    over = over or {}
    before = {k: v.detach().clone() for k, v in inp.items()}
    w = floats(inp) if grad else []
    for x in w:
        inp[x].requires_grad_()
    out = c.run(dw, inp, **over)
    st = {v.untyped_storage().data_ptr(): k for k, v in inp.items() if v.numel()}

    def check(when, ts):
        for k, v in inp.items():
            if v.dtype.is_floating_point:
                ctx.equal("%s after %s" % (k, when), v.detach(), before[k])
            else:
                ctx.true("%s after %s" % (k, when), torch.equal(v, before[k]))
        for n, t in ts:
            if t is not None and t.numel():
                p = t.untyped_storage().data_ptr()
                ctx.true("%s does not share memory with an input" % n, p not in st)
    check("forward", zip(c.out_names(), out))
    if w:
        sel = [k for k in range(len(out)) if out[k].numel() and out[k].requires_grad]
        ys = ctx.cotangents([out[k] for k in sel])
        y0 = [y.detach().clone() for y in ys]
        o0 = [o.detach().clone() for o in out]
        g = torch.autograd.grad([out[k] for k in sel], [inp[x] for x in w], ys, allow_unused=True)
        check("backward", [("gradient of " + n, t) for n, t in zip(w, g)])
        for y, z in zip(ys, y0):
            ctx.equal("cotangents after backward", y, z)
        for n, o, z in zip(c.out_names(), out, o0):
            ctx.equal("%s after backward" % n, o.detach(), z)
        ids = [t.untyped_storage().data_ptr() for t in list(out) + [x for x in g if x is not None]
               if t.numel()]
        ctx.true("outputs and gradients do not share memory", len(ids) == len(set(ids)))
    # outputs may be modified without affecting another run
    with torch.no_grad():
        for o in out:
            if o.numel():
                o.detach().zero_()
    check("writing to the outputs", [])


# ---- C12 -----------------------------------------------------------------
def interval(ctx, dw, cfg, k, grads="linear", over=None, **ik):
    """sampling interval k: forward and non-model gradients unchanged, model
    gradient == k * sum over sampled steps of that step's contribution"""
    c = Cfg(**cfg)
    over = over or {}
    inp = c.inputs(ctx, **ik)
    lin = [x for x in floats(inp) if x not in c.P.models]
    mod = [x for x in c.P.models]
    w = lin if grads == "linear" else []
    if grads == "models":
        w = mod
    for x in w:
        inp[x].requires_grad_()
    a = c.run(dw, inp, **over)
    b = c.run(dw, inp, model_gradient_sampling_interval=k, **over)
    for n, x, y in zip(c.out_names(), a, b):
        ctx.true("%s: shape" % n, x.shape == y.shape)
        ctx.equal(n, y, x)
    if not w:
        return
    sel = [j for j in range(len(a)) if a[j].numel() and a[j].requires_grad]
    ys = ctx.cotangents([a[j] for j in sel])
    gb = torch.autograd.grad([b[j] for j in sel], [inp[x] for x in w], ys, allow_unused=True)
    if grads == "linear":
        ga = torch.autograd.grad([a[j] for j in sel], [inp[x] for x in w], ys, allow_unused=True)
        for x, g, h in zip(w, ga, gb):
            z = torch.zeros_like(inp[x])
            ctx.equal("gradient of " + x, z if h is None else h, z if g is None else g)
        return
    # chain of single steps, each with its own copy of the models: the
    # contribution of step t is the gradient with respect to copy t.  The
    # amplitudes are zero (their scaling also depends on the models).
    fn = c.P.fields(c.nd)
    nf = len(fn)
    state = {f: inp[f] for f in fn if f in inp}
    copies = []
    recs = [[] for _ in range(nf, len(a))]
    o = None
    for t in range(c.nt):
        i2 = {x: v for x, v in inp.items() if x not in fn and not x.startswith("source_")}
        cp = {m: inp[m].detach().clone().requires_grad_() for m in mod}
        copies.append(cp)
        i2.update(cp)
        i2.update(state)
        c1 = Cfg(**dict(cfg, nt=1, nsrc=0))
        o = c1.run(dw, i2, **over)
        for j in range(nf, len(a)):
            recs[j - nf].append(o[j])
        state = dict(zip(fn, o[:nf]))
    full = list(o[:nf]) + [torch.cat(r, dim=-1) if r[0].numel() else r[0] for r in recs]
    flat = [(t, m) for t in range(c.nt) for m in mod]
    gs = torch.autograd.grad([full[j] for j in sel], [copies[t][m] for t, m in flat], ys,
                             allow_unused=True)
    tot = {m: torch.zeros_like(inp[m]) for m in mod}
    for (t, m), g in zip(flat, gs):
        if t % k == 0 and g is not None:
            tot[m] = tot[m] + k * g
    for m, g in zip(mod, gb):
        ctx.equal("sampled gradient of " + m, torch.zeros_like(tot[m]) if g is None else g, tot[m])


# ---- C09 -----------------------------------------------------------------
def pad_model(x, nd, pml, mode="replicate"):
    p = []
    for d in reversed(range(nd)):
        p += [pml[2 * d], pml[2 * d + 1]]
    return torch.nn.functional.pad(x.reshape((-1, 1) + tuple(x.shape[-nd:])), p,
                                   mode=mode).reshape((x.shape[0],) + tuple(
                                       n + pml[2 * d] + pml[2 * d + 1]
                                       for d, n in enumerate(x.shape[-nd:])))


def half_axes(prop, nd, n):
    """axes along which the field lies at half-cell points"""
    if prop in ("scalar", "scalar_born"):
        return ()
    n = n[:-2]
    d = DIM[nd]
    if n.startswith("sigma"):
        a, b = n[5:]
        return () if a == b else tuple(sorted((d.index(a), d.index(b))))
    return (d.index(n[1]),) if n[0] == "v" else ()


class Rec:
    def __init__(self, fields, models, grads=()):
        self.fields, self.models, self.grads = fields, models, grads
        self.calls = []

    def __call__(self, st):
        d = dict(step=st.step, dt=st.dt)
        for n in self.fields:
            d[n] = {v: st.get_wavefield(n, v).clone() for v in ("full", "pml", "inner")}
            d[n]["default"] = st.get_wavefield(n).clone()
        for n in self.models:
            d["model " + n] = {v: st.get_model(n, v).clone() for v in ("full", "pml", "inner")}
        for n in self.grads:
            d["grad " + n] = {v: st.get_gradient(n, v).clone() for v in ("full", "pml", "inner")}
        self.calls.append(d)


def cb_models(prop, nd):
    d = DIM[nd]
    if prop == "scalar":
        return ["v"]
    if prop == "scalar_born":
        return ["v", "scatter"]
    if prop == "acoustic":
        return ["K"] + ["B" + c for c in d]
    return ["lamb", "mu"] + {1: [], 2: ["mu_yx"], 3: ["mu_zy", "mu_zx", "mu_yx"]}[nd] + \
        ["buoyancy_" + c for c in d]


def _half(x, nd, axes):
    """sum of the cells around a half-cell point (and how many), zero where a
    neighbour is missing"""
    ts = [x]
    for ax in axes:
        nt = []
        for t in ts:
            n = t.shape[-nd + ax]
            pad = [0] * (2 * nd)
            pad[2 * (nd - 1 - ax) + 1] = 1
            nt.append(torch.nn.functional.pad(t.narrow(t.ndim - nd + ax, 0, n - 1), pad))
            nt.append(torch.nn.functional.pad(t.narrow(t.ndim - nd + ax, 1, n - 1), pad))
        ts = nt
    return sum(ts[1:], ts[0]), len(ts)


def ref_models(prop, nd, m):
    """reference of the prepared models on the padded grid; {name: (tensor,
    axes along which the last cell has no neighbour)}"""
    d = DIM[nd]
    if prop in ("scalar", "scalar_born"):
        return {k: (v, ()) for k, v in m.items()}
    out = {}
    if prop == "acoustic":
        out["K"] = (m["v"] * m["v"] * m["rho"], ())
        rho, B = m["rho"], "B"
    else:
        out["lamb"], out["mu"] = (m["lamb"], ()), (m["mu"], ())
        for n in {1: [], 2: ["yx"], 3: ["zy", "zx", "yx"]}[nd]:
            ax = [d.index(c) for c in n]
            s, k = _half(1 / m["mu"], nd, ax)
            inside = _half(torch.ones_like(m["mu"]), nd, ax)[0] > 0
            s = torch.where(inside, s, torch.ones_like(s))
            out["mu_" + n] = (torch.where(inside, k / s, torch.zeros_like(s)), tuple(ax))
        rho, B = 1 / m["buoyancy"], "buoyancy_"
    for ax, c in enumerate(d):
        s, k = _half(rho, nd, [ax])
        inside = _half(torch.ones_like(rho), nd, [ax])[0] > 0
        s = torch.where(inside, s, torch.ones_like(s))
        out[B + c] = (torch.where(inside, k / s, torch.zeros_like(s)), (ax,))
    return out


def _cut(x, nd, axes):
    for ax in axes:
        x = x.narrow(x.ndim - nd + ax, 0, x.shape[x.ndim - nd + ax] - 1)
    return x


def padded_models(c, inp):
    """the caller's models padded into the layers, as [batch, grid]"""
    out = {}
    for m in c.P.models:
        x = inp[m]
        x = x if x.ndim > c.nd else x[None]
        if m == "scatter":
            p = []
            for d in reversed(range(c.nd)):
                p += [c.pml[2 * d], c.pml[2 * d + 1]]
            out[m] = torch.nn.functional.pad(x, p)
        else:
            out[m] = pad_model(x, c.nd, c.pml)
    nb = max(v.shape[0] for v in out.values())
    return {m: v.expand((nb,) + v.shape[1:]) for m, v in out.items()}


def _views(ctx, c, lab, d, border=True):
    nd, pml = c.nd, c.pml
    h = c.acc // 2
    fd = [h, h] * nd if c.prop in ("scalar", "scalar_born") else [h, h - 1] * nd
    full, pm, inner = d["full"], d["pml"], d["inner"]
    ctx.true(lab + ": shape of the layer view", tuple(pm.shape[-nd:]) == c.padded)
    ctx.true(lab + ": shape of the inner view", tuple(inner.shape[-nd:]) == c.shape)
    ctx.true(lab + ": shape of the full view", tuple(full.shape[-nd:]) == tuple(
        n + fd[2 * k] + fd[2 * k + 1] for k, n in enumerate(c.padded)))
    s1 = (Ellipsis,) + tuple(slice(fd[2 * k], full.shape[-nd + k] - fd[2 * k + 1]) for k in range(nd))
    s2 = (Ellipsis,) + tuple(slice(pml[2 * k], pm.shape[-nd + k] - pml[2 * k + 1]) for k in range(nd))
    ctx.equal(lab + ": layer view of the full view", full[s1], pm)
    ctx.equal(lab + ": inner view of the layer view", pm[s2], inner)
    if "default" in d:
        ctx.equal(lab + ": default view", d["default"], inner)


def callbacks(ctx, dw, cfg, freq, wrt="all", over=None, backward=True, state=True, steps=True, **ik):
    c = Cfg(**cfg)
    over = over or {}
    inp = c.inputs(ctx, **ik)
    w = [] if not wrt else floats(inp) if wrt == "all" else [x for x in wrt if x in inp]
    for x in w:
        inp[x].requires_grad_()
    nd, P = c.nd, c.P
    fn = P.fields(nd)
    nf = len(fn)
    a = c.run(dw, inp, **over)
    frec = Rec(fn, cb_models(c.prop, c.nd))
    brec = Rec([], cb_models(c.prop, c.nd))
    kw = dict(over, forward_callback=frec, callback_frequency=freq)
    if backward and w:
        kw["backward_callback"] = brec
    b = c.run(dw, inp, **kw)
    for n, x, y in zip(c.out_names(), a, b):
        ctx.true("%s: shape with callbacks" % n, x.shape == y.shape)
        ctx.equal("%s with callbacks" % n, y, x)
    if w:
        sel = [j for j in range(len(a)) if a[j].numel() and a[j].requires_grad]
        ys = ctx.cotangents([a[j] for j in sel])
        ga = torch.autograd.grad([a[j] for j in sel], [inp[x] for x in w], ys, allow_unused=True)
        gb = torch.autograd.grad([b[j] for j in sel], [inp[x] for x in w], ys, allow_unused=True)
        for x, g, h in zip(w, ga, gb):
            z = torch.zeros_like(inp[x])
            ctx.equal("gradient of %s with callbacks" % x, z if h is None else h, z if g is None else g)
    k = c.kw.get("model_gradient_sampling_interval", over.get("model_gradient_sampling_interval", 1)) or 1
    n_steps = -(-c.nt // k)
    want = list(range(0, n_steps, freq))
    if steps:
        ctx.true("forward callback steps", [d["step"] for d in frec.calls] == want)
    if backward and w and steps:
        ctx.true("backward callback is called as often", len(brec.calls) == len(want))
        ctx.true("the last backward callback is for step 0", brec.calls[-1]["step"] == 0)
        ctx.true("backward steps decrease", all(x["step"] > y["step"] for x, y in
                                                 zip(brec.calls, brec.calls[1:])))
    if not state:
        return
    mem = [n for n in fn if n[:2] in ("ps", "ze", "ph", "m_")]
    ref = ref_models(c.prop, nd, padded_models(c, {k2: v.detach() for k2, v in inp.items()}))
    for d in frec.calls:
        for n in fn:
            _views(ctx, c, "step %d %s" % (d["step"], n), d[n])
        for m in cb_models(c.prop, c.nd):
            _views(ctx, c, "step %d model %s" % (d["step"], m), d["model " + m])
            e, ax = ref[m]
            got = d["model " + m]["pml"]
            ctx.true("model %s: batch" % m, got.shape[0] in (1, e.shape[0]))
            ctx.equal("step %d model %s" % (d["step"], m), _cut(got, nd, ax),
                      _cut(e[:got.shape[0]], nd, ax))
        s = d["step"] * k
        if s == 0:
            st = {n: inp[n].detach() for n in fn if n in inp and n not in mem}
        else:
            i2 = {x: v.detach() for x, v in inp.items() if not x.startswith("receiver") and
                  not x.startswith("bg_rec")}
            for x in i2:
                if x.startswith("source_amp"):
                    i2[x] = i2[x][..., :s]
            c1 = Cfg(**dict(cfg, nt=s))
            with torch.no_grad():
                st = dict(zip(fn, c1.run(dw, i2, **over)[:nf]))
        for n in st:
            # before the first step: what was given, except half-cell points
            # that lie beyond the last cell
            ax = half_axes(c.prop, nd, n) if s == 0 else ()
            ctx.equal("step %d %s is the simulation's" % (s, n), _cut(d[n]["pml"], nd, ax),
                      _cut(st[n], nd, ax))


def bcallbacks(ctx, dw, cfg, freq, over=None, **ik):
    """what a backward callback sees: gradients accumulated over the steps that
    have been back-propagated, adjoint of the state"""
    c = Cfg(**dict(cfg, nsrc=0))
    over = over or {}
    inp = c.inputs(ctx, **ik)
    nd, P = c.nd, c.P
    fn = P.fields(nd)
    nf = len(fn)
    wm = P.models
    for x in floats(inp):
        inp[x].requires_grad_()
    names = cb_models(c.prop, c.nd)
    brec = Rec(fn, names, names)
    a = c.run(dw, inp, backward_callback=brec, callback_frequency=freq, **over)
    sel = [j for j in range(len(a)) if a[j].numel() and a[j].requires_grad]
    ys = ctx.cotangents([a[j] for j in sel])
    torch.autograd.grad([a[j] for j in sel], [inp[x] for x in floats(inp)], ys, allow_unused=True)
    det = {k: v.detach() for k, v in inp.items()}
    for d in brec.calls:
        s = d["step"]
        for n in fn:
            _views(ctx, c, "backward step %d %s" % (s, n), d[n])
        for m in names:
            _views(ctx, c, "backward step %d gradient of %s" % (s, m), d["grad " + m])
            _views(ctx, c, "backward step %d model %s" % (s, m), d["model " + m])
        st = {n: det[n] for n in fn if n in det}
        if s:
            i2 = {k: v for k, v in det.items() if not k.startswith("receiver") and not k.startswith("bg_rec")}
            with torch.no_grad():
                st = dict(zip(fn, Cfg(**dict(cfg, nsrc=0, nt=s)).run(dw, i2, **over)[:nf]))
        i3 = {k: v for k, v in det.items() if k not in fn}
        i3.update({k: v.detach().clone().requires_grad_() for k, v in st.items()})
        for m in wm:
            i3[m] = det[m].clone().requires_grad_()
        t = Cfg(**dict(cfg, nsrc=0, nt=c.nt - s)).run(dw, i3, **over)
        yt = [y[..., s:] if j >= nf else y for j, y in zip(sel, ys)]
        g = torch.autograd.grad([t[j] for j in sel], [i3[x] for x in wm + list(st)], yt, allow_unused=True)
        gm = dict(zip(wm + list(st), g))
        # chain rule through the reference of the parameter preparation
        i4 = {m: det[m].clone().requires_grad_() for m in wm}
        rm = ref_models(c.prop, nd, padded_models(c, i4))
        gg = []
        for m in names:
            q = d["grad " + m]["pml"]
            r = rm[m][0]
            gg.append(torch.cat([q, torch.zeros((r.shape[0] - q.shape[0],) + tuple(r.shape[1:]),
                                                dtype=q.dtype)]) if q.shape[0] < r.shape[0] else q)
        e = torch.autograd.grad([rm[m][0] for m in names], [i4[m] for m in wm], gg, allow_unused=True)
        for m, x in zip(wm, e):
            ctx.equal("backward step %d accumulated gradient of %s" % (s, m),
                      torch.zeros_like(det[m]) if x is None else x,
                      torch.zeros_like(det[m]) if gm[m] is None else gm[m])
        for n in st:
            if gm[n] is not None:
                # the previous time step's adjoint wavefield has the other sign
                sg = -1 if n in ("wavefield_m1", "wavefield_sc_m1") else 1
                ctx.equal("backward step %d adjoint %s" % (s, n), sg * d[n]["pml"], gm[n])


# ---- C11 -----------------------------------------------------------------
MODES = [("device", False), ("cpu", False), ("disk", False), ("device", True), ("cpu", True), ("disk", True)]


def noop(st):
    pass


def modes(ctx, dw, cfg, pairs=None, wrt="all", over=None, freq=None, twice=False, **ik):
    """outputs and gradients for every storage mode; outputs without storage"""
    c = Cfg(**cfg)
    over = dict(over or {})
    if freq:
        over.update(forward_callback=noop, backward_callback=noop, callback_frequency=freq)
    inp = c.inputs(ctx, **ik)
    w = floats(inp) if wrt == "all" else [x for x in wrt if x in inp]
    base = None
    for m, comp in pairs or MODES:
        i2 = {k: (v.detach().clone().requires_grad_() if k in w else v.detach().clone()) for k, v in inp.items()}
        o = c.run(dw, i2, storage_mode=m, storage_compression=comp, **over)
        sel = [k for k in range(len(o)) if o[k].numel() and o[k].requires_grad]
        if base is None:
            ys = ctx.cotangents([o[k] for k in sel])
        def once(again):
            g = torch.autograd.grad([o[k] for k in sel], [i2[x] for x in w], ys, allow_unused=True,
                                    retain_graph=again)
            return [torch.zeros_like(inp[x]) if y is None else y for x, y in zip(w, g)]
        g = once(twice)
        if twice:
            for nm, x, y in zip(w, g, once(False)):
                ctx.equal("%s gradient of %s, second backward pass" % (m, nm), y, x)
        if base is None:
            base = (o, g)
            with torch.no_grad():
                n = c.run(dw, inp, storage_mode="none", **{k: v for k, v in over.items() if k != "backward_callback"})
                for nm, x, y in zip(c.out_names(), o, n):
                    ctx.equal("%s without storage" % nm, y, x)
            continue
        lab = m + (" compressed" if comp else "")
        for nm, x, y in zip(c.out_names(), base[0], o):
            ctx.true("%s %s: shape" % (lab, nm), x.shape == y.shape)
            ctx.equal("%s %s" % (lab, nm), y, x)
        for nm, x, y in zip(w, base[1], g):
            ctx.equal("%s gradient of %s" % (lab, nm), y, x, loose=0.1 if comp else None)


# ---- C25 -----------------------------------------------------------------
def threads(ctx, dw, cfg, T, wrt="all", over=None, freq=None, **ik):
    """T threads, every assignment and order of the shots == one thread"""
    import contextlib
    c = Cfg(**cfg)
    over = dict(over or {})
    if freq:
        over.update(forward_callback=noop, backward_callback=noop, callback_frequency=freq)
    inp = c.inputs(ctx, **ik)
    w = floats(inp) if wrt == "all" else [x for x in wrt if x in inp]
    S = None
    if ctx.mode == "sym":
        from engine import symtorch as S
    base = ys = None
    n = c.n_shots
    K = max(T, n)
    for k in range(-1, K if S else 2):
        c2 = Cfg(**dict(cfg, threads=1 if k < 0 else T))
        if S and k >= 0:
            S.ENV.track = True
            # iterations in various orders
            S.ENV.schedule = lambda t: [((s + k) % t, s, s + 1) for s in range(n)][::1 if k % 2 == 0 else -1]
        try:
            i2 = {x: (v.detach().clone().requires_grad_() if x in w else v.detach().clone()) for x, v in inp.items()}
            o = c2.run(dw, i2, **over)
            sel = [j for j in range(len(o)) if o[j].numel() and o[j].requires_grad]
            if ys is None and w:
                ys = ctx.cotangents([o[j] for j in sel])
            g = torch.autograd.grad([o[j] for j in sel], [i2[x] for x in w], ys, allow_unused=True) if w else []
        finally:
            if S:
                S.ENV.track, S.ENV.schedule = False, None
        g = [torch.zeros_like(inp[x]) if y is None else y for x, y in zip(w, g)]
        if base is None:
            base = o, g
            continue
        lab = "threads %d order %d " % (T, k)
        for nm, x, y in zip(c.out_names(), base[0], o):
            ctx.equal(lab + nm, y, x)
        for nm, x, y in zip(w, base[1], g):
            ctx.equal(lab + "gradient of " + nm, y, x)
    ctx.races("%d shots on %d threads" % (n, T), n)
