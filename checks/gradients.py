"""Scenario list for the gradient properties C01-C04."""
from checks.common import *


def _shape(nd, acc, reg, big):
    """model shape with interior (non-layer) cells along the last/first axes.
    The backward kernels treat cells further than 3 (regular grid) or 2
    (staggered) stencil half-widths from the layers separately."""
    h = acc // 2
    n = (4 * h + 1) if reg else (3 * h + 1)
    return n


def build(prop, tier):
    reg = prop in ("scalar", "scalar_born")
    P = PROPS[prop]
    out = []

    def a(name, ik=None, wrt="all", outs=None, **cfg):
        cfg["prop"] = prop
        kw = dict(cfg=cfg, wrt=wrt, outs=outs)
        kw.update(ik or {})
        out.append((name, grad, kw))
    models = list(P.models)
    # one step from an arbitrary state, every accuracy and dimension, with cells
    # inside and outside the absorbing layers
    for acc in (2, 4, 6, 8):
        n = _shape(1, acc, reg, True)
        a("1d acc%d one step" % acc, shape=(n + 1,), acc=acc, nt=1, pml=1)
        if prop == "elastic" and acc > 4 and tier != "thorough":
            a("1d acc%d two steps" % acc, shape=(n,), acc=acc, nt=2, pml=[2, 1], wrt="all_linear",
              ik=dict(models="conc"))
        else:
            a("1d acc%d two steps" % acc, shape=(n,), acc=acc, nt=2, pml=[2, 1])
        if prop != "elastic" or acc <= 4 or tier == "thorough":
            a("2d acc%d tall" % acc, shape=(n, 3), acc=acc, nt=1, pml=1)
            a("2d acc%d wide" % acc, shape=(3, n), acc=acc, nt=1, pml=[1, 1, 1, 2])
    a("2d acc2 square two steps", shape=(4, 4) if not reg else (5, 5), acc=2, nt=2 if prop != "elastic" else 1, pml=1)
    a("2d acc4 square", shape=(7, 7) if not reg else (9, 9), acc=4, nt=1, pml=1)
    a("2d acc2 no layers", shape=(5, 4), acc=2, nt=2, pml=0)
    a("2d acc4 mixed layers", shape=(5, 4), acc=4, nt=1, pml=[0, 2, 1, 0])
    a("3d acc2", shape=(4, 4, 4) if not reg else (5, 5, 5), acc=2, nt=1, pml=1)
    a("3d acc2 mixed layers", shape=(3, 4, 3), acc=2, nt=1, pml=[0, 1, 2, 0, 0, 1])
    a("3d acc4 layers along z only", shape=(7, 2, 2), acc=4, nt=1, pml=[1, 1, 0, 0, 0, 0])
    a("3d acc4 layers along y only", shape=(2, 7, 2), acc=4, nt=1, pml=[0, 0, 1, 1, 0, 0])
    a("3d acc4 layers along x only", shape=(2, 2, 7), acc=4, nt=1, pml=[0, 0, 0, 0, 1, 1])
    if tier == "thorough":
        for acc in (6, 8):
            n = _shape(3, acc, reg, True)
            for ax in range(3):
                sh = [2, 2, 2]
                sh[ax] = n
                a("3d acc%d axis%d" % (acc, ax), shape=tuple(sh), acc=acc, nt=1, pml=1)
        a("3d acc4 9x9x9", shape=(7, 7, 7) if not reg else (9, 9, 9), acc=4, nt=1, pml=1)
        a("2d acc2 three steps", shape=(4, 4), acc=2, nt=3, pml=1)
        a("3d acc2 two steps", shape=(3, 3, 3), acc=2, nt=2, pml=[1, 0, 0, 1, 0, 0],
          ik=dict(models="conc") if prop == "elastic" else None)
    # shots, per-shot models, threads
    a("2d two shots shared model", shape=(3, 3), acc=2, nt=2 if reg else 1, n_shots=2, threads=2)
    a("2d three shots two threads", shape=(3, 3), acc=2, nt=1, n_shots=3, threads=2)
    a("2d two shots one thread", shape=(3, 3), acc=2, nt=1, n_shots=2, threads=1)
    a("2d two shots batched models", shape=(3, 3), acc=2, nt=2 if reg else 1, n_shots=2, nbm=2, threads=2)
    a("1d three shots batched models", shape=(5,), acc=4, nt=2, n_shots=3, nbm=3, threads=3)
    a("3d two shots", shape=(3, 2, 3), acc=2, nt=1, n_shots=2, threads=2, pml=[1, 0, 0, 0, 0, 0])
    a("3d two shots batched", shape=(3, 2, 3), acc=2, nt=1, n_shots=2, nbm=2, threads=2, pml=[0, 0, 0, 1, 0, 1])
    for m in models if len(models) > 1 else []:
        a("2d only %s batched" % m, shape=(3, 3), acc=2, nt=1, n_shots=2, nbm=2, models_batched=[m], threads=2)
        if len(models) > 2:
            a("2d all but %s batched" % m, shape=(3, 3), acc=2, nt=1, n_shots=2, nbm=2, threads=2,
              models_batched=[x for x in models if x != m])
    # several steps: direction-valued models on a concrete background (snapshots, stepping)
    conc = dict(amps="conc", fields="conc")
    for nd, sh in ((1, (5,)), (2, (3, 4)), (3, (3, 2, 2))):
        nt = {1: 6, 2: 5, 3: 4}[nd]
        if prop == "elastic":
            nt = {1: 5, 2: 3, 3: 2}[nd]
        a("%dd models over %d steps" % (nd, nt), shape=sh, acc=2, nt=nt, n_shots=2 if nd < 3 else 1, threads=2,
          wrt=models, ik=dict(nil=models, ykind="conc", **conc))
        a("%dd amplitudes and states over %d steps" % (nd, nt + 1), shape=sh, acc=2, nt=nt + 1,
          wrt="all_linear", ik=dict(models="conc", ykind="conc"))
    # which inputs are differentiated
    dims = [(2, (3, 3))] + ([(1, (5,)), (3, (3, 3, 3))])
    for nd, sh in dims:
        kw = dict(shape=sh, acc=2, nt=2 if nd < 3 and reg or nd == 1 else 1, pml=1)
        for m in models:
            a("%dd wrt %s alone" % (nd, m), wrt=[m], **kw)
        if len(models) > 1:
            a("%dd wrt models" % nd, wrt=models, **kw)
        for s in P.srcs(nd):
            a("%dd wrt %s alone" % (nd, s[0]), wrt=[s[0]], **kw)
        for f in P.fields(nd):
            if nd < 3 or tier == "thorough":
                a("%dd wrt %s alone" % (nd, f), wrt=[f], **kw)
        a("%dd wrt all, receivers only" % nd, outs=range(len(P.fields(nd)), P.n_out(nd)), **kw)
        a("%dd wrt all, last receiver set only" % nd, outs=[P.n_out(nd) - 1], **kw)
        a("%dd wrt all, first receiver set only" % nd, outs=[len(P.fields(nd))], **kw)
        a("%dd wrt all, final wavefields only" % nd, outs=range(0, len(P.fields(nd))), **kw)
        if nd == 2:
            for k in range(len(P.fields(nd))):
                a("%dd output %s only" % (nd, P.fields(nd)[k]), outs=[k], **kw)
    # number of sources / receivers, ignored entries
    a("2d no sources", shape=(3, 3), acc=2, nt=2, nsrc=0, ik=None)
    a("2d no receivers", shape=(3, 3), acc=2, nt=1, nrec=0)
    a("2d three sources and receivers", shape=(3, 3), acc=2, nt=2 if reg else 1, nsrc=3, nrec=3, n_shots=2)
    import torch
    IG = -(2 ** 31)
    comps = [s[2] for s in P.srcs(2)]
    srcs = {c: torch.tensor([[[1, 1], [IG, IG], [0, 1]]]) for c in comps}
    recs = {c: torch.tensor([[[IG, IG], [0, 1]]]) for _, c in P.recs(2)}
    a("2d ignored entries", shape=(3, 3), acc=2, nt=2 if reg else 1, nsrc=3, src=srcs, rec=recs)
    # zero initial state given implicitly
    a("2d implicit zero state", shape=(3, 4), acc=2, nt=4 if prop == "scalar" else 3, fields="none",
      ik=dict(ykind="conc") if reg else dict(ykind="conc", nil=models, amps="conc"),
      wrt="all" if reg else models)
    return out


TECHNIQUE = ("symbolic execution of the real C kernels (LLVM IR) and PyTorch code; z3 decides equality of the "
             "autograd gradient with the exact derivative")
EXPLANATION = ("The propagator is executed symbolically through its public function (PyTorch code and LLVM IR "
               "of the C kernels); the gradient autograd returns is compared by the solver with the exact "
               "derivative of the symbolic outputs, for all values of the symbolic models, amplitudes, states "
               "and cotangents.")
BOUNDS = ("1-3 dimensions, accuracies 2-8, grids up to 11x11 / 7x7x7 cells including layers (two dimensions), "
          "1-2 fully symbolic steps from an arbitrary state, up to 7 steps with models, or with amplitudes and "
          "states, symbolic separately; up to 3 shots and threads")
