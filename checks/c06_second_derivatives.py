from checks.common import *
from checks.scen import second, second_or_refused

PROPERTY = "C06"
TECHNIQUE = "symbolic execution of forward, backward and double-backward kernels; z3 decides equality with the exact second derivative"
EXPLANATION = ("Gradients obtained with create_graph=True are differentiated again; the solver compares the result "
               "with the exact derivative of the symbolic gradient. For the other propagators the second "
               "differentiation must raise an error or be exact.")
BOUNDS = "1-3 dimensions, accuracies 2-8, grids up to 11 cells per side, 1-4 steps, up to 3 shots and threads"
ASSUMPTIONS = EXACT


def scenarios(tier, seed):
    out = []

    def a(name, ik=None, f=second, **cfg):
        cfg.setdefault("prop", "scalar")
        out.append((name, f, dict(cfg=cfg, **(ik or {}))))
    for acc in (2, 4, 6, 8):
        h = acc // 2
        a("1d acc%d" % acc, shape=(4 * h + 2,), acc=acc, nt=1, pml=1)
        a("1d acc%d two steps" % acc, shape=(2 * h + 2,), acc=acc, nt=2, pml=[1, 0])
    a("2d acc2 one step", shape=(5, 3), acc=2, nt=1, pml=1)
    a("2d acc2 two steps", shape=(3, 3), acc=2, nt=2, pml=[0, 1, 1, 0])
    a("2d acc4", shape=(9, 2), acc=4, nt=1, pml=[1, 0, 0, 0])
    a("2d acc4 wide", shape=(2, 9), acc=4, nt=1, pml=[0, 0, 0, 1])
    a("2d acc2 no layers", shape=(3, 3), acc=2, nt=2, pml=0)
    a("3d acc2", shape=(3, 2, 2), acc=2, nt=1, pml=[1, 0, 0, 0, 0, 0])
    a("3d acc2 y", shape=(2, 3, 2), acc=2, nt=1, pml=[0, 0, 1, 0, 0, 0])
    a("3d acc2 x", shape=(2, 2, 3), acc=2, nt=1, pml=[0, 0, 0, 0, 0, 1])
    a("1d two shots", shape=(4,), acc=2, nt=2, n_shots=2, threads=2)
    a("1d three shots two threads", shape=(4,), acc=2, nt=2, n_shots=3, threads=2)
    a("1d batched model", shape=(4,), acc=2, nt=2, n_shots=2, nbm=2, threads=2)
    a("2d two shots", shape=(3, 2), acc=2, nt=1, n_shots=2, threads=2)
    cc = dict(fields="conc", amps="conc", cots="conc")
    for nt in (3, 4, 5):
        a("1d v over %d steps" % nt, shape=(4,), acc=2, nt=nt, ik=dict(wrt=["v"], gwrt=["v"], **cc))
        a("2d v over %d steps" % nt, shape=(3, 2), acc=2, nt=nt, pml=[1, 0, 0, 1],
          ik=dict(wrt=["v"], gwrt=["v"], nil=["v"], **cc))
        a("2d amplitudes over %d steps" % nt, shape=(3, 2), acc=2, nt=nt, pml=[1, 0, 0, 1],
          ik=dict(wrt=["v", "source_amplitudes"], gwrt=["source_amplitudes"], fields="conc", models="conc",
                  cots="conc"))
    a("2d v over 4 steps two shots", shape=(3, 2), acc=2, nt=4, pml=[1, 0, 0, 1], n_shots=2, threads=2,
      ik=dict(wrt=["v"], gwrt=["v"], nil=["v"], **cc))
    for n, w, g in (("v v", ["v"], ["v"]), ("v amplitudes", ["v"], ["source_amplitudes"]),
                    ("amplitudes v", ["source_amplitudes"], ["v"]),
                    ("wavefield v", ["wavefield_0"], ["v"]), ("v wavefield", ["v"], ["wavefield_m1"]),
                    ("v state", ["v"], ["psix_m1", "zetax_m1"]), ("state v", ["psix_m1", "zetax_m1"], ["v"]),
                    ("v cotangents", ["v"], ["cot%d" % k for k in range(7)]),
                    ("amplitudes cotangents", ["source_amplitudes"], ["cot%d" % k for k in range(7)])):
        a("1d wrt %s" % n, shape=(4,), acc=2, nt=2, ik=dict(wrt=w, gwrt=g))
        a("2d wrt %s" % n, shape=(3, 2), acc=2, nt=2, pml=[1, 0, 0, 1], ik=dict(wrt=w, gwrt=g))
    a("1d receivers only", shape=(5,), acc=2, nt=2, ik=dict(outs=[4]))
    a("2d receivers only", shape=(3, 3), acc=2, nt=2, pml=[1, 0, 0, 1], ik=dict(outs=[6]))
    a("2d final state only", shape=(3, 3), acc=2, nt=1, pml=[1, 0, 0, 1], ik=dict(outs=range(6)))
    a("2d no sources", shape=(3, 3), acc=2, nt=1, pml=[1, 0, 0, 1], nsrc=0)
    a("2d no receivers", shape=(3, 3), acc=2, nt=1, pml=[1, 0, 0, 1], nrec=0)
    a("2d interval 2", shape=(3, 2), acc=2, nt=4, pml=0, ik=dict(wrt=["source_amplitudes"],
      gwrt=["source_amplitudes", "wavefield_0"]), model_gradient_sampling_interval=2)
    a("2d python backend", shape=(3, 3), acc=2, nt=1, pml=[1, 0, 0, 1], python_backend="eager")
    a("1d python backend", shape=(4,), acc=4, nt=2, pml=[1, 0], python_backend="eager")
    for p in ("scalar_born", "acoustic", "elastic"):
        P = PROPS[p]
        for nd, sh in ((1, (4,)), (2, (3, 2))):
            kw = dict(prop=p, shape=sh, acc=2, nt=2 if nd == 1 else 1, pml=1 if nd == 1 else [1, 0, 0, 1],
                      f=second_or_refused)
            a("%dd %s all" % (nd, p), **kw)
            for m in P.models:
                a("%dd %s wrt %s" % (nd, p, m), ik=dict(wrt=[m], gwrt=[m]), **kw)
            a("%dd %s models" % (nd, p), ik=dict(wrt=P.models, gwrt=P.models), **kw)
            a("%dd %s amplitudes then models" % (nd, p),
              ik=dict(wrt=[P.srcs(nd)[0][0]], gwrt=P.models), **kw)
            a("%dd %s models then amplitudes" % (nd, p),
              ik=dict(wrt=P.models, gwrt=[P.srcs(nd)[0][0]]), **kw)
            a("%dd %s amplitudes then cotangents" % (nd, p),
              ik=dict(wrt=[P.srcs(nd)[0][0]], gwrt=["cot%d" % k for k in range(P.n_out(nd))]), **kw)
            a("%dd %s state then models" % (nd, p), ik=dict(wrt=[P.fields(nd)[0]], gwrt=P.models), **kw)
            a("%dd %s models then state" % (nd, p), ik=dict(wrt=P.models, gwrt=P.fields(nd)), **kw)
            a("%dd %s models then one field" % (nd, p), ik=dict(wrt=P.models, gwrt=P.fields(nd)[-1:]), **kw)
    if tier == "thorough":
        a("3d acc4", shape=(3, 3, 3), acc=4, nt=1, pml=[1, 0, 0, 1, 0, 0])
        a("2d acc8", shape=(5, 3), acc=8, nt=1, pml=[1, 0, 0, 1])
        a("1d three steps", shape=(4,), acc=2, nt=3, pml=1)
        a("2d three steps", shape=(3, 2), acc=2, nt=3, pml=[1, 0, 0, 0])
    return out
