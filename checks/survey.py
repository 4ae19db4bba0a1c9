"""Locations, padding and survey regions as seen by the real set-up code."""
import torch

from checks import args as A
from checks.args import *
from engine.adapters import Cfg, PROPS, DIM, NOMINAL

IG = A.IGN


def fd_pads(prop, nd, acc):
    h = acc // 2
    return [h, h] * nd if prop in ("scalar", "scalar_born") else [h, h - 1] * nd


def value_models(prop, shape):
    """models whose cells all have different values"""
    n = 1
    for s in shape:
        n *= s
    r = torch.arange(n, dtype=torch.float64).reshape(shape)
    return [NOMINAL[m] * (1 + r / 1024) for m in PROPS[prop].models]


def region_of(prop, shape, acc, pml, out):
    """the model region the set-up extracted, read off the models it returned"""
    nd = len(shape)
    fd = fd_pads(prop, nd, acc)
    m, want = out["models"][0], value_models(prop, shape)[0]
    lo = [fd[2 * d] + pml[2 * d] for d in range(nd)]
    hi = [fd[2 * d + 1] + pml[2 * d + 1] for d in range(nd)]
    size = [m.shape[-nd + d] - lo[d] - hi[d] for d in range(nd)]
    if any(s <= 0 for s in size):
        return None, lo, list(m.shape[-nd:])
    core = m[(0,) + tuple(slice(lo[d], lo[d] + size[d]) for d in range(nd))]
    first = core.reshape(-1)[0]
    pos = (want.reshape(-1) == first).nonzero()
    if len(pos) != 1:
        return None, lo, list(m.shape[-nd:])
    k = int(pos[0])
    beg = []
    for s in reversed(shape):
        beg.insert(0, k % s)
        k //= s
    ext = [(b, b + s) for b, s in zip(beg, size)]
    sl = tuple(slice(*e) for e in ext)
    for got, w in zip(out["models"], value_models(prop, shape)):
        c = got[(0,) + tuple(slice(lo[d], lo[d] + size[d]) for d in range(nd))]
        if c.shape != w[sl].shape or not torch.equal(c, w[sl]):
            return None, lo, list(m.shape[-nd:])
    return ext, lo, list(m.shape[-nd:])


def index_of(loc, beg, lo, padded):
    """flat index on the padded grid of a model cell"""
    r = 0
    for d in range(len(padded)):
        r = r * padded[d] + (loc[d] - beg[d] + lo[d])
    return r


def entries(t):
    """[shot][k][coordinate] of a location tensor, symbolic or concrete"""
    c = pysym.cells_of(t)
    s, n, nd = tuple(t.shape)
    return [[[c[(a * n + b) * nd + d] for d in range(nd)] for b in range(n)] for a in range(s)]


def whole(e):
    """not ignored in part only"""
    ign = [Eq(x, IG) for x in e]
    return Or(And(*ign), And(*[Not(i) for i in ign]))


def ignored(e):
    return Eq(e[0], IG)


def inside(e, lim):
    return And(*[And(Le(0, x), Lt(x, l)) for x, l in zip(e, lim)])


def same_cell(e, f):
    return And(*[Eq(x, y) for x, y in zip(e, f)])


def valid_list(es, lim):
    """every active entry inside, no two active entries in one cell (per shot)"""
    r = []
    for shot in es:
        for e in shot:
            r.append(Or(ignored(e), inside(e, lim)))
        for a in range(len(shot)):
            for b in range(a):
                r.append(Or(ignored(shot[a]), ignored(shot[b]), Not(same_cell(shot[a], shot[b]))))
    return And(*r)


def locations(ctx, dw, prop, shape, arg, comp, n_shots, n, acc=2, pml=1, margin=2, pad=None, ign=True):
    """symbolic locations of one source or receiver type: refused exactly when
    outside or listed twice, otherwise mapped to the flat index of their cell"""
    nd = len(shape)
    pml = [pml] * 2 * nd if isinstance(pml, int) else list(pml)
    lim = A.limit(prop, nd, comp, shape)
    decl = {"loc": ("ints", (n_shots, n, nd), [(-margin, s - 1 + margin) for s in shape], ign)}
    drop = [k for s in PROPS[prop].srcs(nd) for k in s[:2]] + [k for k, _ in PROPS[prop].recs(nd)]
    src = arg.startswith("source")

    def run(inp):
        kw = {arg: inp["loc"]}
        if src:
            kw[arg.replace("locations", "amplitudes")] = torch.ones(n_shots, n, 3, dtype=torch.float64)
        else:
            sa, sl, _ = PROPS[prop].srcs(nd)[0]
            kw[sa] = torch.ones(n_shots, 1, 3, dtype=torch.float64)
            kw[sl] = torch.zeros(n_shots, 1, nd, dtype=torch.long)
        if pad is not None:
            kw["survey_pad"] = pad
        return A.call(dw, prop, nd, "setup", mods=value_models(prop, shape), drop=drop, accuracy=acc,
                      pml_width=pml, **kw)

    def check(inp, out):
        es = entries(inp["loc"])
        r = accepted_iff(valid_list(es, lim), out)
        if out.raised:
            return r
        ext, lo, padded = region_of(prop, shape, acc, pml, out.value)
        if ext is None:
            return r + [("the models returned are a region of the models given", False)]
        beg = [e[0] for e in ext]
        found = 0
        for t in out.value["source_locations" if src else "receiver_locations"]:
            if t.numel() == 0:
                continue
            found += 1
            if tuple(t.shape) != (n_shots, n):
                r.append(("shape of the locations", False))
                continue
            got = pysym.cells_of(t)
            for s in range(n_shots):
                for k in range(n):
                    e = es[s][k]
                    want = If(ignored(e), IG, index_of(e, beg, lo, padded))
                    r.append(("index of location %d of shot %d" % (k, s), Eq(got[s * n + k], want)))
        want_n = 2 if prop == "scalar_born" and src else 1
        r.append(("number of location tensors", found == want_n))
        return r

    ctx.explore(arg, decl, run, check, assume=lambda i: And(*[whole(i["loc"][k:k + nd]) for k in
                                                            range(0, n_shots * n * nd, nd)]),
                expect=("returned", "raised"))


def region(ctx, dw, prop, shape, n_rec=1, acc=2, pml=1, sides=None, ign=False, scalar_pad=False, n_shots=1, maxpad=None):
    """symbolic source and receiver locations and a symbolic survey_pad"""
    nd = len(shape)
    pml = [pml] * 2 * nd if isinstance(pml, int) else list(pml)
    P = PROPS[prop]
    a, l, c = P.srcs(nd)[0]
    rec, rc = P.recs(nd)[-1]
    lim = {"src": A.limit(prop, nd, c, shape), "rec": A.limit(prop, nd, rc, shape)}
    drop = [k for s in P.srcs(nd) for k in s[:2]] + [k for k, _ in P.recs(nd)]
    decl = {"src": ("ints", (n_shots, 1, nd), [(0, s - 1) for s in lim["src"]], ign),
            "rec": ("ints", (n_shots, n_rec, nd), [(0, s - 1) for s in lim["rec"]], False)}
    hi = maxpad if maxpad is not None else max(shape) + 1
    sides = sides or ["sym"] * 2 * nd
    if scalar_pad:
        decl["pad"] = ("int", 0, hi)
    else:
        for k, s in enumerate(sides):
            if s == "sym":
                decl["pad%d" % k] = ("int", 0, hi)

    def pads(inp):
        if scalar_pad:
            return [inp["pad"]] * 2 * nd
        return [inp["pad%d" % k] if s == "sym" else s for k, s in enumerate(sides)]

    def run(inp):
        p = inp["pad"] if scalar_pad else pads(inp)
        return A.call(dw, prop, nd, "setup", mods=value_models(prop, shape), drop=drop, accuracy=acc, pml_width=pml,
                      survey_pad=p, **{a: torch.ones(n_shots, 1, 3, dtype=torch.float64), l: inp["src"],
                                       rec: inp["rec"]})

    def check(inp, out):
        es = entries(inp["src"])
        er = entries(inp["rec"])
        ok = And(*[Not(same_cell(x, y)) for s in er for i, x in enumerate(s) for y in s[:i]]) if n_rec > 1 else True
        r = accepted_iff(ok, out)
        if out.raised:
            return r
        ext, lo, padded = region_of(prop, shape, acc, pml, out.value)
        if ext is None:
            return r + [("the models returned are a region of the models given", False)]
        act = [(e, ignored(e) if ign else False) for s in es for e in s] + [(e, False) for s in er for e in s]
        p = pads(inp)
        for d in range(nd):
            mn, mx = shape[d], -1
            for e, ig in act:
                mn = If(ig, mn, Min(mn, e[d]))
                mx = If(ig, mx, Max(mx, e[d]))
            b = 0 if p[2 * d] is None else Max(mn - p[2 * d], 0)
            f = shape[d] if p[2 * d + 1] is None else Min(mx + p[2 * d + 1] + 1, shape[d])
            r.append(("beginning of the region in dimension %d" % d, Eq(ext[d][0], b)))
            r.append(("end of the region in dimension %d" % d, Eq(ext[d][1], f)))
        beg = [e[0] for e in ext]
        for key, ents in (("source_locations", es), ("receiver_locations", er)):
            for t in out.value[key]:
                if t.numel():
                    got = pysym.cells_of(t)
                    k = 0
                    for s in ents:
                        for e in s:
                            want = index_of(e, beg, lo, padded)
                            if ign and key[0] == "s":
                                want = If(ignored(e), IG, want)
                            r.append(("index of " + key, Eq(got[k], want)))
                            k += 1
        return r
    ctx.explore("region", decl, run, check, expect=("returned",), assume=(lambda i: And(*[whole(i["src"][k:k + nd])
                for k in range(0, n_shots * nd, nd)])) if ign else None)


def wave_region(ctx, dw, prop, shape, field, acc=2, pml=1, origin=True, pad=None, loc=False, second=None):
    """an initial wavefield of symbolic shape and a symbolic origin"""
    nd = len(shape)
    pml = [pml] * 2 * nd if isinstance(pml, int) else list(pml)
    P = PROPS[prop]
    drop = [k for s in P.srcs(nd) for k in s[:2]] + [k for k, _ in P.recs(nd)]
    decl = {"n%d" % d: ("int", 0, shape[d] + pml[2 * d] + pml[2 * d + 1] + 2) for d in range(nd)}
    if origin:
        decl.update({"o%d" % d: ("int", -1, shape[d] + 1) for d in range(nd)})
    rec, rc = P.recs(nd)[0]
    lim = A.limit(prop, nd, rc, shape)
    if loc:
        decl["rec"] = ("ints", (1, 1, nd), [(0, s - 1) for s in lim], loc == "ignore")

    def run(inp):
        sh = [1] + [int(inp["n%d" % d]) for d in range(nd)]
        kw = {field: torch.zeros(sh, dtype=torch.float64), "nt": 3}
        if second:
            kw[second] = torch.zeros([1] + [s + 1 for s in sh[1:]], dtype=torch.float64)
        if origin:
            kw["origin"] = [inp["o%d" % d] for d in range(nd)]
        if pad is not None:
            kw["survey_pad"] = pad
        if loc:
            kw[rec] = inp["rec"]
        return A.call(dw, prop, nd, "setup", mods=value_models(prop, shape), drop=drop, accuracy=acc, pml_width=pml, **kw)

    def check(inp, out):
        n = [inp["n%d" % d] - pml[2 * d] - pml[2 * d + 1] for d in range(nd)]
        o = [inp["o%d" % d] if origin else 0 for d in range(nd)]
        e = entries(inp["rec"])[0][0] if loc else None
        if pad is not None:
            b = [(Max(e[d] - pad, 0) if loc else 0) for d in range(nd)]
            f = [(Min(e[d] + pad + 1, shape[d]) if loc else shape[d]) for d in range(nd)]
            ok = And(not origin, *[Eq(n[d], f[d] - b[d]) for d in range(nd)])
        else:
            b, f = o, [o[d] + n[d] for d in range(nd)]
            ok = And(*[And(Le(0, o[d]), Lt(0, n[d]), Le(o[d] + n[d], shape[d])) for d in range(nd)])
            if loc:
                ok = And(ok, Or(ignored(e), And(*[And(Le(b[d], e[d]), Lt(e[d], f[d])) for d in range(nd)])))
        if second:
            ok = False
        r = accepted_iff(ok, out)
        if out.raised:
            return r
        ext, lo, padded = region_of(prop, shape, acc, pml, out.value)
        if ext is None:
            return r + [("the models returned are a region of the models given", False)]
        for d in range(nd):
            r.append(("beginning of the region in dimension %d" % d, Eq(ext[d][0], b[d])))
            r.append(("end of the region in dimension %d" % d, Eq(ext[d][1], f[d])))
        if loc:
            for t in out.value["receiver_locations"]:
                if t.numel():
                    r.append(("receiver index", Eq(pysym.cells_of(t)[0], If(
                        ignored(e), IG, index_of(e, [x[0] for x in ext], lo, padded)))))
        return r
    ctx.explore("wavefield", decl, run, check,
                expect=("raised",) if (pad is not None and origin) or second else ("returned", "raised"),
                assume=(lambda i: whole(i["rec"])) if loc == "ignore" else None)


for _f in (locations, region, wave_region):
    _f.plain = True


# ---- end to end -----------------------------------------------------------
def cells_of_model(prop, nd, comp, shape):
    lim = A.limit(prop, nd, comp, shape)
    return [list(x) for x in torch.cartesian_prod(*[torch.arange(n) for n in lim]).reshape(-1, nd).tolist()]


def component(prop, nd, outs, comp, c):
    """the returned wavefield a source or receiver of this type acts on"""
    names = c.P.fields(nd)
    o = dict(zip(names, outs))
    if prop == "scalar":
        return o["wavefield_0"]
    if prop == "scalar_born":
        return o["wavefield_0" if comp == "bg" else "wavefield_sc_0"]
    if prop == "acoustic":
        return o["pressure_0" if comp == "p" else "v%s_0" % comp]
    if comp == "p":
        s = sum(o["sigma%s%s_0" % (d, d)] for d in DIM[nd])
        return -s / nd
    return o["v%s_0" % comp]


def receivers(ctx, dw, cfg, **ik):
    """a receiver in every cell returns that cell's value at every step"""
    c = Cfg(**cfg)
    nd = c.nd
    rec = {}
    for l, k in c.P.recs(nd):
        rec[k] = torch.tensor([cells_of_model(c.prop, nd, k, c.shape)] * c.n_shots)
    c.rec = rec
    c.nrec = 1
    inp = c.inputs(ctx, **ik)
    nf = len(c.P.fields(nd))
    with torch.no_grad():
        full = c.run(dw, inp)
        state = {f: inp[f] for f in c.P.fields(nd) if f in inp}
        for t in range(c.nt):
            for j, (l, k) in enumerate(c.P.recs(nd)):
                w = component(c.prop, nd, [state[f] for f in c.P.fields(nd)], k, c)
                for n, cell in enumerate(rec[k][0].tolist()):
                    ix = (slice(None),) + tuple(x + c.pml[2 * d] for d, x in enumerate(cell))
                    ctx.equal("step %d receiver %s %s" % (t, k, cell), full[nf + j][:, n, t], w[ix])
            i2 = {k: v for k, v in inp.items() if not k.startswith("source_amp") and k not in state}
            for k, v in inp.items():
                if k.startswith("source_amp"):
                    i2[k] = v[..., t:t + 1]
            i2.update(state)
            o = Cfg(**dict(cfg, nt=1)).run(dw, i2)
            state = dict(zip(c.P.fields(nd), o[:nf]))


def sources(ctx, dw, cfg, comp, extra=True, **ik):
    """shot k has a source in cell k (and an ignored one): after one step only
    that cell of the field the source acts on has changed, by the documented
    multiple of the amplitude"""
    nd = len(cfg["shape"])
    P = PROPS[cfg["prop"]]
    cells = cells_of_model(cfg["prop"], nd, comp, cfg["shape"])
    n = len(cells)
    ig = [IG] * nd
    loc = torch.tensor([[x, ig] if k % 2 else [ig, x] for k, x in enumerate(cells)])
    c = Cfg(**dict(cfg, nt=1, n_shots=n, nsrc=2, nrec=0, src={comp: loc}, comps=[comp], threads=2))
    inp = c.inputs(ctx, **ik)
    a, l, _ = [s for s in c.P.srcs(nd) if s[2] == comp][0]
    with torch.no_grad():
        base = c.run(dw, {k: v for k, v in inp.items() if not k.startswith("source_")}, nt=1)
        out = c.run(dw, inp)
        names = P.fields(nd)
        b, o = dict(zip(names, base)), dict(zip(names, out))
        from checks.scen import padded_models, ref_models
        m = padded_models(c, inp)
        if c.prop == "scalar":
            scale = {"wavefield_0": -m["v"] * m["v"] * c.dt ** 2}
        elif c.prop == "scalar_born":
            scale = {"wavefield_0": -m["v"] * m["v"] * c.dt ** 2,
                     "wavefield_sc_0": -2 * m["v"] * m["scatter"] * c.dt ** 2}
        elif comp == "p" and c.prop == "acoustic":
            scale = {"pressure_0": ref_models(c.prop, nd, m)["K"][0] * c.dt}
        elif comp == "p":
            one = torch.ones((1,) + c.padded, dtype=torch.float64)
            scale = {"sigma%s%s_0" % (d, d): -one * c.dt for d in DIM[nd]}
        else:
            B = ref_models(c.prop, nd, m)[("B" if c.prop == "acoustic" else "buoyancy_") + comp][0]
            scale = {"v%s_0" % comp: B * c.dt}
        vel = comp in DIM[nd] and comp and c.prop in ("acoustic", "elastic")
        for f in names:
            if f in scale:
                w = b[f].clone()
                for k, cell in enumerate(cells):
                    ix = tuple(x + c.pml[2 * d] for d, x in enumerate(cell))
                    w[(k,) + ix] = b[f][(k,) + ix] + scale[f].expand((n,) + c.padded)[(k,) + ix] * inp[a][k, 1 - k % 2, 0]
                ctx.equal("source %s acts on %s" % (comp, f), o[f], w)
            elif not vel or f[0] == "v":
                ctx.equal("source %s leaves %s" % (comp, f), o[f], b[f])
