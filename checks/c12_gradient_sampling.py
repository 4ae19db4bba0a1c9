from checks.common import *
from checks.scen import interval

PROPERTY = "C12"
TECHNIQUE = "symbolic execution of the real kernels with and without gradient sampling; z3 decides equality"
EXPLANATION = ("Propagation with sampling interval k is compared by the solver with interval 1 (outputs, gradients of "
               "amplitudes and states) and, for model gradients, with k times the sum of the contributions of steps "
               "0, k, 2k, ... obtained from a chain of single-step calls with separate model tensors.")
BOUNDS = "intervals 1-6, 1-6 steps (also not multiples of the interval), 1-3 dimensions, up to 2 shots"
ASSUMPTIONS = EXACT


def scenarios(tier, seed):
    out = []

    def a(name, k, ik=None, **cfg):
        out.append(("%s %s" % (cfg["prop"], name), interval, dict(cfg=cfg, k=k, **(ik or {}))))
    for p in PROPS:
        reg = p in ("scalar", "scalar_born")
        M = PROPS[p].models
        lin = dict(models="conc")
        for k in (1, 2, 3, 4, 6):
            for nt in (1, 2, 3, 4, 5, 6):
                a("1d interval %d of %d steps" % (k, nt), k, prop=p, shape=(4,), acc=2, nt=nt, pml=1, ik=lin)
                if nt <= 5 and k <= 4:
                    a("1d models interval %d of %d steps" % (k, nt), k, prop=p, shape=(4,), acc=2, nt=nt, pml=1,
                      nsrc=0, ik=dict(nil=M, fields="conc", grads="models"))
        for k, nt in ((2, 2), (2, 3), (3, 2), (3, 4)):
            a("2d interval %d of %d steps" % (k, nt), k, prop=p, shape=(3, 3), acc=2, nt=nt, pml=[1, 0, 0, 1], ik=lin)
            a("2d models interval %d of %d steps" % (k, nt), k, prop=p, shape=(3, 3), acc=2, nt=nt, pml=[1, 0, 0, 1],
              nsrc=0, ik=dict(nil=M, fields="conc", grads="models"))
            a("2d models interval %d of %d steps two shots" % (k, nt), k, prop=p, shape=(3, 2), acc=2, nt=nt,
              pml=[1, 0, 0, 1], nsrc=0, n_shots=2, threads=2, ik=dict(nil=M, fields="conc", grads="models"))
            a("2d models interval %d of %d steps batched compressed" % (k, nt), k, prop=p, shape=(3, 2), acc=2, nt=nt,
              pml=[1, 0, 0, 1], nsrc=0, n_shots=2, nbm=2, threads=2, storage_compression=True,
              ik=dict(nil=M, fields="conc", grads="models"))
            a("2d python backend interval %d of %d steps" % (k, nt), k, prop=p, shape=(3, 3), acc=2, nt=nt,
              pml=[1, 0, 0, 1], python_backend="eager", ik=lin)
        a("3d interval 2 of 3 steps", 2, prop=p, shape=(2, 2, 2), acc=2, nt=3, pml=[1, 0, 0, 1, 0, 0],
          ik=dict(models="conc", grads=None))
        a("3d models interval 2 of 3 steps", 2, prop=p, shape=(2, 2, 2), acc=2, nt=3 if reg else 2,
          pml=[1, 0, 0, 1, 0, 0], nsrc=0, ik=dict(nil=M, fields="conc", grads="models"))
        a("1d internal steps", 2, prop=p, shape=(4,), acc=2, nt=3, pml=1, max_vel=13.0, ik=dict(models="conc", grads=None))
    return out
