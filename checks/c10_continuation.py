from checks.common import *
from checks.scen import cont

PROPERTY = "C10"
TECHNIQUE = "symbolic execution of the real kernels for one long and several chained calls; z3 decides equality"
EXPLANATION = ("A propagation of n+m steps and the chain of an n-step and an m-step propagation through the returned "
               "wavefields are executed symbolically; the solver decides equality of outputs and gradients.")
BOUNDS = "1-3 dimensions, accuracies 2-8, 2-6 steps split at every position, up to 2 shots"
ASSUMPTIONS = EXACT


def scenarios(tier, seed):
    out = []

    def a(name, n, ik=None, **cfg):
        out.append(("%s %s" % (cfg["prop"], name), cont, dict(cfg=cfg, n=n, **(ik or {}))))
    for p in PROPS:
        reg = p in ("scalar", "scalar_born")
        M = PROPS[p].models
        for acc in (2, 4, 6, 8):
            a("1d acc%d 1+1" % acc, 1, prop=p, shape=(acc + 2,), acc=acc, nt=2, pml=[2, 1],
              ik=dict(models="conc") if not reg and acc > 4 and tier != "thorough" else None)
        a("2d 1+1", 1, prop=p, shape=(3, 3), acc=2, nt=2, pml=[1, 0, 0, 1], ik=None if reg else dict(wrt=None))
        a("2d 1+1 layers", 1, prop=p, shape=(3, 3), acc=2, nt=2, pml=1, ik=dict(wrt=None))
        a("2d acc4 1+1", 1, prop=p, shape=(4, 3), acc=4, nt=2, pml=[1, 0, 0, 1], ik=dict(wrt=None))
        a("3d 1+1", 1, prop=p, shape=(3, 2, 2), acc=2, nt=2, pml=[1, 0, 0, 1, 0, 1],
          ik=dict(wrt=None, models="conc") if p == "elastic" else dict(wrt=None))
        lin = dict(models="conc", wrt=[s[0] for s in PROPS[p].srcs(2)] + PROPS[p].fields(2))
        a("2d 2+1", 2, prop=p, shape=(3, 3), acc=2, nt=3, pml=1, ik=lin)
        a("2d 1+2", 1, prop=p, shape=(3, 3), acc=2, nt=3, pml=1, ik=lin)
        a("2d 2+3", 2, prop=p, shape=(3, 3), acc=2, nt=5, pml=1, ik=lin)
        a("2d 1+2+3", 0, prop=p, shape=(3, 3), acc=2, nt=6, pml=1, ik=dict(lin, parts=[1, 3]))
        cm = dict(nil=M, wrt=M, amps="conc", fields="conc")
        a("2d models 2+2", 2, prop=p, shape=(3, 3), acc=2, nt=4 if reg else 3, pml=1, ik=cm)
        a("2d models 1+3", 1, prop=p, shape=(3, 3), acc=2, nt=4 if reg else 3, pml=1, ik=cm)
        a("1d models 3+2", 3, prop=p, shape=(5,), acc=4, nt=5, pml=1, ik=cm)
        a("2d two shots", 1, prop=p, shape=(3, 3), acc=2, nt=3, n_shots=2, threads=2, ik=lin)
        a("2d two shots batched", 1, prop=p, shape=(3, 3), acc=2, nt=2, n_shots=2, nbm=2, threads=2, pml=[1, 0, 0, 1],
          ik=dict(wrt=None))
        a("2d python backend", 2, prop=p, shape=(3, 3), acc=2, nt=3, pml=1, python_backend="eager", ik=dict(lin))
        a("3d python backend", 1, prop=p, shape=(2, 3, 2), acc=2, nt=2, pml=[1, 0, 0, 0, 0, 1], python_backend="eager",
          ik=dict(models="conc", wrt=None))
        a("2d from rest", 2, prop=p, shape=(3, 3), acc=2, nt=4, fields="none", pml=1,
          ik=dict(models="conc", wrt=[s[0] for s in PROPS[p].srcs(2)]))
        a("2d no source", 1, prop=p, shape=(3, 3), acc=2, nt=2, nsrc=0, pml=1, ik=dict(wrt=None))
        a("2d thick layers", 1, prop=p, shape=(3, 2), acc=2, nt=2, pml=[3, 0, 2, 3], ik=dict(wrt=None, models="conc"))
    return out
