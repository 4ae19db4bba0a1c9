from checks.common import *
from checks.scen import shots

PROPERTY = "C08"
TECHNIQUE = "symbolic execution of the real kernels for joint and separate calls; z3 decides equality"
EXPLANATION = ("One call with several shots and one call per shot are executed symbolically on the same symbolic "
               "inputs; the solver decides that every output and gradient agrees (shared-model gradients: sum).")
BOUNDS = "1-3 dimensions, 2-4 shots, 1-4 threads, shared and per-shot models (each model separately), 1-2 steps"
ASSUMPTIONS = EXACT


def scenarios(tier, seed):
    out = []

    def a(name, ik=None, **cfg):
        out.append(("%s %s" % (cfg["prop"], name), shots, dict(cfg=cfg, **(ik or {}))))
    for p in PROPS:
        reg = p in ("scalar", "scalar_born")
        nt = 2 if reg else 1
        M = PROPS[p].models
        a("1d three shots", prop=p, shape=(4,), acc=2, nt=2, n_shots=3, threads=3)
        a("1d three shots batched", prop=p, shape=(4,), acc=4, nt=2, n_shots=3, nbm=3, threads=3)
        a("2d two shots", prop=p, shape=(3, 3), acc=2, nt=nt, n_shots=2, threads=2)
        a("2d two shots one thread", prop=p, shape=(3, 3), acc=2, nt=nt, n_shots=2, threads=1)
        a("2d three shots two threads", prop=p, shape=(3, 2), acc=2, nt=1, n_shots=3, threads=2)
        a("2d four shots three threads", prop=p, shape=(3, 2), acc=2, nt=1, n_shots=4, threads=3, pml=0)
        a("2d two shots batched", prop=p, shape=(3, 3), acc=2, nt=nt, n_shots=2, nbm=2, threads=2)
        a("2d three shots batched one thread", prop=p, shape=(3, 2), acc=2, nt=1, n_shots=3, nbm=3, threads=1)
        a("2d batched acc4", prop=p, shape=(5, 3), acc=4, nt=1, n_shots=2, nbm=2, threads=2, pml=[1, 0, 0, 1])
        a("3d two shots", prop=p, shape=(3, 2, 2), acc=2, nt=1, n_shots=2, threads=2, pml=[1, 0, 0, 0, 0, 1])
        a("3d batched", prop=p, shape=(2, 2, 3), acc=2, nt=1, n_shots=2, nbm=2, threads=2, pml=[0, 1, 0, 0, 1, 0])
        if len(M) > 1:
            for m in M:
                a("2d only %s batched" % m, prop=p, shape=(3, 3), acc=2, nt=1, n_shots=2, nbm=2, threads=2,
                  models_batched=[m])
                a("3d only %s batched" % m, prop=p, shape=(2, 2, 2), acc=2, nt=1, n_shots=2, nbm=2, threads=2,
                  models_batched=[m], pml=0)
                a("1d only %s batched" % m, prop=p, shape=(4,), acc=2, nt=2, n_shots=2, nbm=2, threads=2,
                  models_batched=[m])
        a("2d python backend", prop=p, shape=(3, 3), acc=2, nt=1, n_shots=2, threads=2, python_backend="eager")
        a("2d python backend batched", prop=p, shape=(3, 2), acc=2, nt=1, n_shots=2, nbm=2, threads=2,
          python_backend="eager", pml=[1, 0, 0, 1])
        for st in ("none",):
            a("2d storage %s" % st, prop=p, shape=(3, 3), acc=2, nt=2, n_shots=2, threads=2, storage_mode=st,
              ik=dict(wrt=None))
        a("2d cpu storage, compressed", prop=p, shape=(3, 3), acc=2, nt=1, n_shots=2, threads=2,
          storage_compression=True, ik=dict(wrt=M))
        a("2d zero state", prop=p, shape=(3, 3), acc=2, nt=3, n_shots=2, threads=2, fields="none", pml=[1, 0, 0, 1],
          ik=dict(models="conc", wrt=["source_amplitudes", "source_amplitudes_y"]))
        import torch
        IG = -(2 ** 31)
        srcs = {c: torch.tensor([[[1, 1], [IG, IG]], [[0, 1], [1, 0]]]) for _, _, c in PROPS[p].srcs(2)}
        recs = {c: torch.tensor([[[IG, IG], [0, 1]], [[1, 1], [IG, IG]]]) for _, c in PROPS[p].recs(2)}
        a("2d ignored entries", prop=p, shape=(3, 3), acc=2, nt=2, nsrc=2, src=srcs, rec=recs, pml=0, n_shots=2,
          threads=2, ik=dict(models="conc") if not reg else None)
    return out
