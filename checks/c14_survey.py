from checks.common import *
from checks.survey import *
from checks.scen import floats

PROPERTY = "C14"
TECHNIQUE = "symbolic execution of the Python set-up code with symbolic locations, survey_pad, origin and wavefield shapes; z3 decides; end-to-end equality with a hand-cropped model"
EXPLANATION = ("z3 decides on every path of the real set-up code that the extracted region is the bounding box of all locations "
               "extended by the padding and clipped (or the region given by wavefield shape and origin), that the contents are those of "
               "the model there and the location indices follow.  End to end, results equal those for the model cropped by hand.")
BOUNDS = "1-3 dimensions, models up to 6 cells per side, up to 2 shots and 2 receivers, paddings 0 to beyond the model"
ASSUMPTIONS = EXACT + ["a location is ignored by setting all its coordinates to IGNORE_LOCATION, as documented"]
TASKS_PER_CHILD = 50


def cropped(ctx, dw, cfg, ext, pad=None, origin=None, wrt="all", **ik):
    """survey_pad (or origin) == hand-cropped model and shifted locations"""
    c = Cfg(**cfg)
    nd = c.nd
    full = {}
    ksh = tuple(e[1] - e[0] for e in ext)
    cc = Cfg(**dict(cfg, shape=ksh))
    inp = cc.inputs(ctx, **ik)
    off = torch.tensor([e[0] for e in ext])
    sl = tuple(slice(*e) for e in ext)
    small = dict(inp)
    for m in c.P.models:
        nb = tuple(inp[m].shape[:-nd])
        full[m] = ctx.tensor(m + "!", nb + c.shape, NOMINAL[m], ik.get("models", "sym"))
        small[m] = full[m][(Ellipsis,) + sl]
    big = {}
    for k, v in inp.items():
        if k in c.P.models:
            big[k] = full[k]
        elif "location" in k:
            big[k] = torch.where(v == IG, v, v + off)
        else:
            big[k] = v
    w = [x for x in floats(inp)] if wrt == "all" else [x for x in floats(inp) if x in (wrt or ())]
    big = {k: (v.detach().clone().requires_grad_() if k in w else v) for k, v in big.items()}
    small = {k: (v.detach().clone().requires_grad_() if k in w else v) for k, v in small.items()}
    kw = {}
    if pad is not None:
        kw["survey_pad"] = pad
    if origin is not None:
        kw["origin"] = origin
    a = c.run(dw, big, **kw)
    b = cc.run(dw, small)
    for n, x, y in zip(c.out_names(), a, b):
        ctx.true("%s: shape" % n, x.shape == y.shape)
        ctx.equal(n, x, y)
    if w:
        sel = [j for j in range(len(a)) if a[j].numel() and a[j].requires_grad]
        ys = ctx.cotangents([a[j] for j in sel])
        ga = torch.autograd.grad([a[j] for j in sel], [big[x] for x in w], ys, allow_unused=True)
        gb = torch.autograd.grad([b[j] for j in sel], [small[x] for x in w], ys, allow_unused=True)
        for x, g, h in zip(w, ga, gb):
            g = torch.zeros_like(big[x]) if g is None else g
            h = torch.zeros_like(small[x]) if h is None else h
            if x in c.P.models:
                e = torch.zeros_like(big[x])
                e[(Ellipsis,) + sl] = h
                h = e
            ctx.equal("gradient of " + x, g, h)


def scenarios(tier, seed):
    out = []
    for p in PROPS:
        def a(title, f, **k):
            if tier == "quick" and ((title.startswith("2d") and p == ("acoustic", "scalar")["sides" in k]) or
                                    (title[:2] in ("2d", "3d") and p == "scalar_born")):
                return          # the same set-up code as for the others
            out.append(("%s %s" % (p, title), f, dict(prop=p, **k)))
        reg = p in ("scalar", "scalar_born")
        for ign in (False, True):
            t = " ignored" if ign else ""
            a("1d region" + t, region, shape=(6,), acc=4, pml=[1, 2], ign=ign)
            a("1d region one pad" + t, region, shape=(6,), acc=2, pml=[2, 0], ign=ign, scalar_pad=True)
        a("1d region left open", region, shape=(6,), sides=[None, "sym"])
        a("1d region right open", region, shape=(6,), sides=["sym", None])
        a("1d region open", region, shape=(6,), sides=[None, None])
        a("1d region two receivers", region, shape=(5,), n_rec=2, maxpad=2)
        a("1d region two shots", region, shape=(5,), n_shots=2, maxpad=2)
        a("2d region first dimension", region, shape=(4, 2), maxpad=2, sides=["sym", "sym", 0, 1], acc=6, pml=[0, 1, 2, 0])
        a("2d region second dimension", region, shape=(2, 4), maxpad=2, sides=[1, 0, "sym", "sym"], acc=8, pml=[0, 1, 2, 0])
        a("2d region mixed", region, shape=(4, 3), sides=["sym", None, None, "sym"], maxpad=2)
        a("2d region one pad", region, shape=(3, 2), scalar_pad=True, maxpad=2)
        a("2d region ignored", region, shape=(3, 3), sides=[0, "sym", 1, None], ign=True, maxpad=2)
        a("3d region z", region, shape=(4, 2, 2), sides=["sym", "sym", None, None, None, None], pml=[1, 0, 0, 1, 2, 0])
        a("3d region y", region, shape=(2, 4, 2), sides=[None, None, "sym", "sym", None, None], pml=[1, 0, 0, 1, 2, 0])
        a("3d region x", region, shape=(2, 2, 4), sides=[None, None, None, None, "sym", "sym"], pml=[1, 0, 0, 1, 2, 0])
        a("3d region fixed pads", region, shape=(2, 2, 2), sides=[0, 0, 1, 0, 0, 1])
        for nd, shape in ((1, (4,)), (2, (2, 3)), (3, (2, 3, 2))):
            fs = PROPS[p].fields(nd)
            for k, f in enumerate(fs):
                if nd == 1 or k in (0, 1, len(fs) // 2, len(fs) - 1):
                    a("%dd wavefield %s" % (nd, f), wave_region, shape=shape, field=f, pml=[1, 0, 2, 1, 0, 1][:2 * nd],
                      loc=False, origin=nd < 3)
            f = fs[0]
            a("%dd wavefield no origin" % nd, wave_region, shape=shape, field=f, origin=False)
            a("%dd wavefield and survey_pad" % nd, wave_region, shape=shape, field=f, origin=False, pad=1, loc=nd < 3)
            a("%dd wavefields of different shapes" % nd, wave_region, shape=shape, field=f, second=fs[1], origin=False)
            if nd < 3:
                a("%dd wavefield and location" % nd, wave_region, shape=shape, field=f, loc=True)
                a("%dd wavefield and ignored location" % nd, wave_region, shape=shape, field=f, loc="ignore")
                a("%dd wavefield, origin and survey_pad" % nd, wave_region, shape=shape, field=f, pad=1)

        def e(title, ext, ik=None, pad=None, origin=None, wrt="all", **cfg):
            out.append(("%s %s" % (p, title), cropped, dict(cfg=dict(cfg, prop=p), ext=ext, pad=pad, origin=origin,
                                                          wrt=wrt, **(ik or {}))))
        nt = 2 if reg else 1
        comps = dict(comps=[PROPS[p].srcs(2)[0][2]], rcomps=[PROPS[p].recs(2)[0][1]])

        def box(src, rec):
            d = dict(src={c: torch.tensor([src]) for _, _, c in PROPS[p].srcs(1)},
                     rec={c: torch.tensor([rec]) for _, c in PROPS[p].recs(1)})
            return d
        for nm, o in (("", {}), (" python", dict(python_backend="eager"))):
            if not nm:
                w, cm = "all", {}
            else:
                w, cm = None, dict(models="conc")
            # sources and receivers below span cells 1..2 of 0..3 in the cropped model with padding 1
            e("2d cropped by pad" + nm, [(1, 4), (2, 5)], pad=1, shape=(6, 6), acc=2, nt=nt, pml=[1, 0, 0, 1], nsrc=1, nrec=1,
              src={c: torch.tensor([[[1, 1]]]) for _, _, c in PROPS[p].srcs(2)},
              rec={c: torch.tensor([[[1, 1]]]) for _, c in PROPS[p].recs(2)}, fields="none", wrt=w, ik=cm, **o)
            e("2d cropped by pads" + nm, [(0, 3), (1, 5)], pad=[None, 1, 0, 2], shape=(5, 5), acc=4, nt=nt, pml=[0, 1, 1, 0],
              nsrc=1, nrec=1, src={c: torch.tensor([[[1, 1]]]) for _, _, c in PROPS[p].srcs(2)},
              rec={c: torch.tensor([[[0, 0]]]) for _, c in PROPS[p].recs(2)}, wrt=w, ik=cm, **o)
            e("3d cropped by pads" + nm, [(0, 3), (1, 3), (0, 3)], pad=[1, 1, 0, 1, None, 1], shape=(4, 3, 4), acc=2, nt=1,
              pml=[0, 1, 0, 0, 1, 0], nsrc=1, nrec=1, src={c: torch.tensor([[[1, 0, 1]]]) for _, _, c in PROPS[p].srcs(3)},
              rec={c: torch.tensor([[[1, 0, 0]]]) for _, c in PROPS[p].recs(3)}, fields="none",
              wrt=None, ik=dict(models="conc"), **o)
            e("2d origin" + nm, [(1, 4), (2, 5)], origin=[1, 2], shape=(6, 6), acc=2, nt=nt, pml=[1, 0, 0, 1], wrt=w, ik=cm, **o)
            e("2d two shots origin" + nm, [(2, 5), (0, 3)], origin=[2, 0], shape=(5, 4), acc=4, nt=1, pml=1, n_shots=2, wrt=None, **o)
            e("1d origin" + nm, [(2, 6)], origin=[2], shape=(8,), acc=4, nt=2, pml=1, wrt=w, ik=cm, **o)
        # all shots share one region
        e("2d two shots by pad", [(1, 4), (1, 4)], pad=0, shape=(5, 6), acc=2, nt=nt, n_shots=2, nsrc=1, nrec=1, pml=[1, 0, 0, 1],
          src={c: torch.tensor([[[0, 1]], [[1, 0]]]) for _, _, c in PROPS[p].srcs(2)},
          rec={c: torch.tensor([[[2 - (c == "y"), 1]], [[1, 2 - (c == "x")]]]) for _, c in PROPS[p].recs(2)}
          if reg else {c: torch.tensor([[[1, 1]], [[1, 1]]] if c in "yx" else [[[2, 1]], [[1, 2]]]) for _, c in PROPS[p].recs(2)},
          fields="none", ik=dict(models="conc"), wrt=None)
    return out


cropped.plain = False
