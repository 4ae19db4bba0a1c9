import contextlib
import ctypes

import torch

from checks.common import *
from checks.scen import IG, floats, noop

PROPERTY = "C24"
TECHNIQUE = ("symbolic execution of the real kernels in a memory model with one region per buffer: every access is checked against its region; never-written "
             "memory holds fresh symbols, and z3 decides that outputs and gradients do not depend on them")
EXPLANATION = ("Every propagator is executed, forward and backward, with its kernels compiled to LLVM IR and interpreted over symbolic data. "
               "Each load and store must fall into a live buffer (its address depends only on the configuration, so it is decided "
               "for all data at once), calls must match the declared signatures, and memory that was allocated but not written "
               "(torch.empty, resize_, malloc, unread parts of files) holds unconstrained symbols, zero times which is again "
               "unconstrained (it may be NaN): the solver decides that outputs and gradients are the same for every content.")
BOUNDS = ("1-3 dimensions, accuracies 2-8, models of 1 cell per side and up, layers of width 0-3 in any combination of sides, up to 3 shots and "
          "threads, every storage mode, sampling intervals, callbacks, every single input differentiated alone")
ASSUMPTIONS = ["data-dependent addresses do not occur (an address depending on data is reported as undecided)",
               "integer tensors and raw bytes that were never written are not tracked",
               "buffers are whole allocations: a stray access within the same allocation is left to C01-C08"]
TASKS_PER_CHILD = 40


def garbage_ids(P):
    bad = {i for i, v in enumerate(P.VARS) if "garbage!" in v[0] or "uninit!" in v[0]}
    if not bad:
        return bad
    more = True
    while more:
        more = False
        for i, d in list(P.DEFS.items()):
            if i not in bad and P.variables(d) & bad:
                bad.add(i)
                more = True
    return bad


@contextlib.contextmanager
def contents(ctx, fill):
    """memory that is allocated but not written holds symbols, or `fill`"""
    if ctx.mode == "sym":
        from engine import poly as P, symtorch as S
        memo = {}

        def zero(p):
            ids = memo.get(len(P.VARS))
            if ids is None:
                memo.clear()
                ids = memo[len(P.VARS)] = garbage_ids(P)
            if ids and P.variables(p) & ids:
                return P.var("zero_times_garbage!%d" % len(P.VARS))
            return 0
        old, P.ZERO = P.ZERO, zero
        try:
            yield
        finally:
            P.ZERO = old
        return
    libc = ctypes.CDLL(None)
    undo = []

    def patch(o, n):
        f = getattr(o, n)
        undo.append((o, n, f))

        def g(*a, **k):
            if n == "resize_":
                have = a[0].untyped_storage().nbytes() // max(1, a[0].element_size())
                r = f(*a, **k)
                if r.dtype.is_floating_point and r.numel() > have:
                    torch.as_strided(r.detach(), (r.numel() - have,), (1,), have).fill_(fill)
                return r
            r = f(*a, **k)
            if r.dtype.is_floating_point and r.numel():
                r.detach().fill_(fill)
            return r
        setattr(o, n, g)
    for o, n in ((torch, "empty"), (torch, "empty_like"), (torch.Tensor, "new_empty"), (torch.Tensor, "resize_")):
        patch(o, n)
    libc.mallopt(-6, 0 if fill == 0.5 else 0x01)      # malloc fills with 0xfe or nothing
    try:
        yield
    finally:
        libc.mallopt(-6, 0)
        for o, n, f in undo:
            setattr(o, n, f)


def once(ctx, c, dw, inp, w, over, ys, twice, double=False):
    i2 = {k: (v.detach().clone().requires_grad_() if k in w else v.detach().clone() if v.dtype.is_floating_point else v)
          for k, v in inp.items()}
    o = c.run(dw, i2, **over)
    out = list(zip(c.out_names(), o))
    sel = [x for x in o if x.numel() and x.requires_grad]
    if w and sel:
        if not ys:
            ys += ctx.cotangents(sel, "conc")
        for again in ((True, False) if twice else (False,)):
            g = torch.autograd.grad(sel, [i2[x] for x in w], ys, allow_unused=True, retain_graph=again)
            out += [("gradient of %s%s" % (x, " again" if again else ""), y) for x, y in zip(w, g) if y is not None]
        if double:
            o = c.run(dw, i2, **over)
            sel = [x for x in o if x.numel() and x.requires_grad]
            yy = [y.clone().requires_grad_() for y in ys]
            try:
                g = torch.autograd.grad(sel, [i2[x] for x in w], yy, allow_unused=True, create_graph=True)
                gs = [x for x in g if x is not None and x.requires_grad]
                h = torch.autograd.grad(gs, [i2[x] for x in w] + yy, [torch.ones_like(x) for x in gs], allow_unused=True)
            except RuntimeError:              # some propagators refuse second derivatives
                ctx.note_add("second_derivatives_refused", 1)
                return out
            ctx.note_add("second_derivatives", 1)
            out += [("second derivative %d" % k, y) for k, y in enumerate(h) if y is not None]
    return out


def memory(ctx, dw, cfg, wrt="all", over=None, freq=None, twice=False, double=False, ignore=0, **ik):
    c = Cfg(**cfg)
    over = dict(over or {})
    if freq:
        over.update(forward_callback=noop, callback_frequency=freq)
        if wrt:
            over["backward_callback"] = noop
    if ignore:
        # some locations are ignored, all of them in one shot
        for d, items in (("src", c.src_list()), ("rec", c.rec_list())):
            locs = {}
            for k, it in enumerate(items):
                l = c.locs(c.nsrc if d == "src" else c.nrec, 1 + 2 * k + (d == "rec"), it[-1])
                l[0, k % l.shape[1]] = IG
                if c.n_shots > 1 and (ignore == 2) == (d == "src"):
                    l[1] = IG
                locs[it[-1]] = l
            setattr(c, d, locs)
    ik = dict(dict(models="conc", amps="conc", fields="conc"), **ik)
    inp = c.inputs(ctx, **ik)
    w = floats(inp) if wrt == "all" else [x for x in wrt if x in inp]
    ys = []
    with contents(ctx, float("nan")):
        a = once(ctx, c, dw, inp, w, over, ys, twice, double)
    if ctx.mode == "conc":
        with contents(ctx, 0.5):
            b = once(ctx, c, dw, inp, w, over, ys, twice, double)
        for (n, x), (_, y) in zip(a, b):
            ctx.true("%s depends on memory that was never written" % n,
                     bool(torch.isfinite(x).all()) and bool((x.detach().abs() < 1e100).all()))
            ctx.equal("%s with other contents of unwritten memory" % n, x.detach(), y.detach())
        return
    from engine import poly as P, symtorch as S
    ids = garbage_ids(P)
    for pred, x, y, r in S.CONDS:
        ctx.true("a decision depends on memory that was never written",
                 not any(P.is_sym(z) and P.variables(z) & ids for z in (x, y)))
    ren = {i: P.var("other!%d" % i, 7) for i in ids}
    cells = 0
    for n, t in a:
        for k, x in enumerate(S.cells(t)):
            cells += 1
            y = P.subst(x, ren) if P.is_sym(x) and P.variables(x) & ids else x
            ctx.obl.append((x, y, "%s[%d] for any contents of unwritten memory" % (n, k)))
    ctx.note_add("cells_free_of_garbage", cells)
    ctx.note_add("unwritten_cells", len(ids))


def scenarios(tier, seed):
    out = []

    def a(name, ik=None, **cfg):
        out.append(("%s %s" % (cfg["prop"], name), memory, dict(cfg=cfg, **(ik or {}))))
    deep = tier == "thorough"
    for p in PROPS:
        P = PROPS[p]
        reg = p in ("scalar", "scalar_born")
        sp = dict(comps=[""] if reg else ["p"], nrec=1)
        if not reg:
            sp["rcomps"] = ["p"]
        for nd in (1, 2, 3):
            for acc in (2, 4, 6, 8):
                if nd == 3 and acc in (4, 6) and not deep:
                    continue
                a("%dd acc%d one cell" % (nd, acc), prop=p, shape=(1,) * nd, acc=acc, nt=2, pml=0, **sp)
                a("%dd acc%d one cell and layers" % (nd, acc), prop=p, shape=(1,) * nd, acc=acc, nt=2, pml=1 if nd > 1 else 3, **sp)
                sh = (2, 3, 2)[:nd] if nd > 1 else (3,)
                a("%dd acc%d layers on some sides" % (nd, acc), prop=p, shape=sh, acc=acc, nt=2, n_shots=2,
                  threads=2, pml=[1, 0, 0, 2, 1, 0][:2 * nd])
                if nd < 3 or acc == 2 or deep:
                    a("%dd acc%d layers on other sides" % (nd, acc), prop=p, shape=sh[::-1], acc=acc, nt=2,
                      pml=[0, 2, 1, 0, 0, 1][:2 * nd], ik=dict(wrt=P.models))
        for nd, sh in ((1, (5,)), (2, (3, 4)), (3, (2, 3, 2))):
            k = dict(prop=p, shape=sh, acc=2, nt=2, pml=[1, 0, 0, 1, 0, 1][:2 * nd])
            ins = P.models + [x[0] for x in P.srcs(nd)] + P.fields(nd)
            if nd == 3 and not deep:
                ins = P.models + [x[0] for x in P.srcs(nd)] + P.fields(nd)[::7]
            for x in ins:
                a("%dd only %s" % (nd, x), n_shots=1 + len(x) % 2, ik=dict(wrt=[x]), **k)
            a("%dd no sources" % nd, nsrc=0, **k)
            a("%dd no receivers" % nd, nrec=0, **k)
            a("%dd neither" % nd, nsrc=0, nrec=0, **k)
            a("%dd forward only" % nd, n_shots=2, threads=2, ik=dict(wrt=[]), **k)
            a("%dd no initial state" % nd, fields="none", n_shots=2, **k)
            a("%dd batched models" % nd, n_shots=3, nbm=3, threads=2, **k)
            if len(P.models) > 1:
                for m in P.models:
                    a("%dd only %s batched" % (nd, m), n_shots=2, nbm=2, models_batched=[m], threads=2, **k)
                    a("%dd only %s shared" % (nd, m), n_shots=2, nbm=2, models_batched=[q for q in P.models if q != m],
                      ik=dict(wrt=P.models), **k)
            for m, comp in (("device", True), ("cpu", False), ("cpu", True), ("disk", False), ("disk", True)):
                a("%dd %s%s" % (nd, m, " compressed" if comp else ""), n_shots=2, threads=2,
                  ik=dict(over=dict(storage_mode=m, storage_compression=comp), twice=nd == 1),
                  **dict(k, nt=3 if nd < 3 else 2, shape=(5,) if nd == 1 else (3, 9) if nd == 2 else (2, 2, 3)))
            a("%dd no storage" % nd, ik=dict(over=dict(storage_mode="none"), wrt=[]), n_shots=2, **k)
            a("%dd interval 2" % nd, n_shots=2, threads=2, model_gradient_sampling_interval=2, **dict(k, nt=5 if nd < 3 else 3))
            a("%dd interval longer than the run" % nd, model_gradient_sampling_interval=5, **dict(k, nt=3))
            a("%dd callbacks" % nd, n_shots=2, ik=dict(freq=2), **dict(k, nt=3))
            a("%dd callbacks and interval" % nd, n_shots=2, model_gradient_sampling_interval=2,
              ik=dict(freq=2, over=dict(storage_mode="disk")), **dict(k, nt=5 if nd < 3 else 3))
            for n in (1, 2):
                a("%dd second derivatives, %d shots" % (nd, n), n_shots=n, threads=2, ik=dict(double=True, wrt=P.models + [s_[0] for s_ in P.srcs(nd)]), **k)
            a("%dd second derivatives, batched" % nd, n_shots=2, nbm=2, ik=dict(double=True, wrt=P.models), **k)
            a("%dd second derivatives, no receivers" % nd, nrec=0, ik=dict(double=True, wrt=P.models), **k)
            a("%dd second derivatives, no sources" % nd, nsrc=0, ik=dict(double=True, wrt=P.models), **k)
            for x in P.models:
                a("%dd second derivatives of %s" % (nd, x), n_shots=2, threads=2, ik=dict(double=True, wrt=[x]), **k)
            a("%dd ignored locations" % nd, n_shots=2, nsrc=2, threads=2, ik=dict(ignore=1), **k)
            a("%dd ignored sources" % nd, n_shots=2, nsrc=2, threads=2, ik=dict(ignore=2), **k)
            a("%dd ignored locations, chunks" % nd, n_shots=2, nsrc=2, threads=2, ik=dict(ignore=1, freq=1), **k)
            a("%dd ignored locations, second derivatives" % nd, n_shots=2, nsrc=2, ik=dict(ignore=2, double=True,
              wrt=P.models + [s_[0] for s_ in P.srcs(nd)]), **k)
            a("%dd more threads than shots" % nd, n_shots=2, threads=3, **k)
        if not reg:
            for nd, sh in ((1, (4,)), (2, (3, 3)), (3, (2, 2, 2))):
                for _, _, q in P.srcs(nd):
                    a("%dd only source %s" % (nd, q), prop=p, shape=sh, acc=2, nt=2, pml=1 if nd < 3 else 0, comps=[q], n_shots=2)
                for _, q in P.recs(nd):
                    a("%dd only receiver %s" % (nd, q), prop=p, shape=sh, acc=2, nt=2, pml=1 if nd < 3 else 0, rcomps=[q], n_shots=2)
    return out
