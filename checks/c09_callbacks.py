from checks.common import *
from checks.scen import callbacks, bcallbacks

PROPERTY = "C09"
TECHNIQUE = "symbolic execution of the real propagators with recording callbacks; z3 decides equality with the simulation's state"
EXPLANATION = ("Propagation with callbacks is compared by the solver with propagation without (outputs and gradients), "
               "what a forward callback sees at step s with the final state of a propagation of s steps, and "
               "what a backward callback sees with the gradients of the remaining propagation, in every view.")
BOUNDS = "frequencies 1-5, 1-5 steps, 1-3 dimensions, accuracies 2-4, up to 2 shots"
ASSUMPTIONS = EXACT


def scenarios(tier, seed):
    out = []

    def a(name, f, freq, ik=None, **cfg):
        out.append(("%s %s" % (cfg["prop"], name), f, dict(cfg=cfg, freq=freq, **(ik or {}))))
    for p in PROPS:
        reg = p in ("scalar", "scalar_born")
        M = PROPS[p].models
        cc = dict(models="conc")
        for nt, f in ((1, 1), (2, 1), (3, 1), (3, 2), (4, 2), (4, 3), (5, 3), (5, 2), (2, 5)):
            a("1d every %d of %d" % (f, nt), callbacks, f, prop=p, shape=(4,), acc=2, nt=nt, pml=[1, 2], ik=cc)
            a("1d backward every %d of %d" % (f, nt), bcallbacks, f, prop=p, shape=(4,), acc=2, nt=nt, pml=[1, 2],
              ik=cc)
        a("1d symbolic models", callbacks, 1, prop=p, shape=(4,), acc=2, nt=2, pml=[1, 0])
        for f in (1, 2):
            a("2d every %d" % f, callbacks, f, prop=p, shape=(3, 2), acc=2, nt=3, pml=[1, 0, 2, 1], ik=cc)
            a("2d backward every %d" % f, bcallbacks, f, prop=p, shape=(3, 2), acc=2, nt=3 if reg else 2,
              pml=[1, 0, 2, 1] if reg else [1, 0, 0, 1], ik=dict(cc, fields="conc"))
            a("2d backward every %d two shots" % f, bcallbacks, f, prop=p, shape=(2, 3), acc=2, nt=2,
              pml=[0, 1, 1, 0], n_shots=2, threads=2, ik=dict(cc, fields="conc"))
            a("2d backward every %d batched" % f, bcallbacks, f, prop=p, shape=(2, 3), acc=2, nt=2,
              pml=[0, 1, 1, 0], n_shots=2, nbm=2, threads=2, ik=dict(cc, fields="conc"))
            a("2d every %d two shots" % f, callbacks, f, prop=p, shape=(2, 3), acc=2, nt=3, pml=[0, 1, 1, 0],
              n_shots=2, nbm=2, threads=2, ik=cc)
            a("2d every %d two shots shared models" % f, callbacks, f, prop=p, shape=(2, 3), acc=2, nt=3,
              pml=[0, 1, 1, 0], n_shots=2, threads=2, ik=dict(nil=M, fields="conc", amps="conc", wrt=M))
            a("3d every %d" % f, callbacks, f, prop=p, shape=(2, 3, 2), acc=2, nt=2, pml=[1, 0, 0, 1, 0, 2],
              ik=dict(cc, wrt=["v", "mu"], nil=["v", "mu"], fields="conc", amps="conc"))
            a("3d backward every %d" % f, bcallbacks, f, prop=p, shape=(2, 2, 2), acc=2, nt=2,
              pml=[1, 0, 0, 1, 0, 1], ik=dict(cc, fields="conc"))
        a("1d acc4", callbacks, 2, prop=p, shape=(5,), acc=4, nt=3, pml=[2, 1], ik=cc)
        a("1d acc4 backward", bcallbacks, 2, prop=p, shape=(5,), acc=2, nt=3, pml=[2, 1], ik=cc)
        a("2d acc8", callbacks, 1, prop=p, shape=(5, 3), acc=8, nt=2, pml=[1, 0, 0, 2],
          ik=dict(cc, wrt=None))
        a("2d python backend", callbacks, 2, prop=p, shape=(3, 2), acc=2, nt=4 if p != "elastic" else 3, pml=[1, 0, 2, 1],
          python_backend="eager", ik=dict(cc, backward=False))
        a("3d python backend", callbacks, 1, prop=p, shape=(2, 3, 2), acc=2, nt=2, pml=[1, 0, 0, 1, 0, 2],
          python_backend="eager", ik=dict(cc, backward=False, wrt=None))
        for f in (1, 2, 3):
            a("1d interval 2 every %d" % f, callbacks, f, prop=p, shape=(4,), acc=2, nt=5, pml=[1, 1],
              model_gradient_sampling_interval=2, ik=dict(cc, state=False))
            a("1d interval 2 models every %d" % f, callbacks, f, prop=p, shape=(4,), acc=2, nt=5, pml=[1, 1],
              model_gradient_sampling_interval=2, ik=dict(nil=M, fields="conc", amps="conc", wrt=M, state=False))
            a("2d compressed every %d" % f, callbacks, f, prop=p, shape=(3, 2), acc=2, nt=4, pml=[1, 0, 0, 1],
              storage_compression=True, ik=dict(nil=M, fields="conc", amps="conc", wrt=M, state=False))
            a("2d on disk every %d" % f, callbacks, f, prop=p, shape=(3, 2), acc=2, nt=4, pml=[1, 0, 0, 1],
              storage_mode="disk",
              ik=dict(nil=M, fields="conc", amps="conc", wrt=M, state=False))
        a("1d two internal steps", callbacks, 2, prop=p, shape=(4,), acc=2, nt=2, pml=1, max_vel=8.0,
          ik=dict(cc, state=False, steps=False))
    return out
