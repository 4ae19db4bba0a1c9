from checks.common import *
from checks.scen import backends

PROPERTY = "C07"
TECHNIQUE = "symbolic execution of the C kernels (LLVM IR) and of the Python backend; z3 decides that both give equal results (translation validation)"
EXPLANATION = ("Both backends are executed symbolically through the public function on the same symbolic inputs and "
               "the solver decides that every output (and in some scenarios every gradient) is equal.")
BOUNDS = "1-3 dimensions, accuracies 2-8, grids up to 11 cells per side, 1-4 steps, up to 3 shots; python_backend='eager'"
ASSUMPTIONS = EXACT + ["jit and compile modes of the Python backend run the same step function"]


def scenarios(tier, seed):
    out = []

    def a(name, ik=None, **cfg):
        out.append(("%s %s" % (cfg["prop"], name), backends, dict(cfg=cfg, **(ik or {}))))
    for p in PROPS:
        reg = p in ("scalar", "scalar_born")
        for acc in (2, 4, 6, 8):
            n = 2 * acc + 1 if reg else 3 * (acc // 2) + 1
            a("1d acc%d" % acc, prop=p, shape=(n,), acc=acc, nt=2, pml=[2, 1])
            a("1d acc%d no layers" % acc, prop=p, shape=(n,), acc=acc, nt=2, pml=0)
            if p != "elastic" or acc < 8 or tier == "thorough":
                a("2d acc%d tall" % acc, prop=p, shape=(n, 3), acc=acc, nt=1, pml=1)
                a("2d acc%d wide" % acc, prop=p, shape=(3, n), acc=acc, nt=1, pml=[0, 1, 2, 1])
            for ax in range(3):
                sh = [2, 2, 2]
                sh[ax] = acc + 2
                w = [0] * 6
                w[2 * ax] = w[2 * ax + 1] = 1
                if p != "elastic" or acc <= 4 or tier == "thorough":
                    a("3d acc%d axis %d" % (acc, ax), prop=p, shape=sh, acc=acc, nt=1, pml=w)
        a("2d two steps", prop=p, shape=(4, 3), acc=2, nt=2, pml=[1, 0, 0, 1] if p == "elastic" else 1)
        a("2d concrete models several steps", prop=p, shape=(4, 3), acc=2, nt=5 if p != "elastic" or tier == "thorough" else 3, ik=dict(models="conc"))
        a("2d no layers", prop=p, shape=(4, 3), acc=4, nt=2 if p != "elastic" else 1, pml=0)
        a("3d layers", prop=p, shape=(3, 3, 3), acc=2, nt=1, pml=1)
        a("2d three shots", prop=p, shape=(3, 3), acc=2, nt=2 if reg else 1, n_shots=3, threads=2)
        a("2d batched", prop=p, shape=(3, 3), acc=2, nt=2 if reg else 1, n_shots=2, nbm=2, threads=2)
        a("3d two shots", prop=p, shape=(2, 3, 2), acc=2, nt=1, n_shots=2, threads=2, pml=[0, 0, 1, 0, 0, 0])
        for m in PROPS[p].models if len(PROPS[p].models) > 1 else ():
            a("2d only %s batched" % m, prop=p, shape=(3, 3), acc=2, nt=1, n_shots=2, nbm=2, threads=2,
              models_batched=[m])
        a("2d zero initial state", prop=p, shape=(3, 3), acc=2, nt=3, fields="none",
          ik=dict(models="conc") if p == "elastic" else None)
        a("2d no sources", prop=p, shape=(3, 3), acc=2, nt=1, nsrc=0)
        a("2d no receivers", prop=p, shape=(3, 3), acc=2, nt=1, nrec=0)
        a("2d several sources and receivers", prop=p, shape=(4, 4), acc=2, nt=2, nsrc=3, nrec=3, pml=0,
          ik=dict(models="conc") if p == "elastic" else None)
        a("2d interval 2 of 3 steps", prop=p, shape=(3, 3), acc=2, nt=3, pml=[1, 0, 0, 1],
          model_gradient_sampling_interval=2, ik=dict(models="conc"))
        import torch
        IG = -(2 ** 31)
        srcs = {c: torch.tensor([[[1, 1], [IG, IG], [0, 1]]]) for _, _, c in PROPS[p].srcs(2)}
        recs = {c: torch.tensor([[[IG, IG], [0, 1]]]) for _, c in PROPS[p].recs(2)}
        a("2d ignored entries", prop=p, shape=(3, 3), acc=2, nt=2, nsrc=3, src=srcs, rec=recs, pml=0,
          ik=dict(models="conc") if not reg else None)
        # internal time steps (the sampling in time is a fixed linear map)
        a("1d three internal steps", prop=p, shape=(4,), acc=2, nt=2, pml=1, max_vel=13.0,
          ik=dict(models="conc"))
        ik = dict(grads=True)
        a("1d gradients", prop=p, shape=(5,), acc=4, nt=2 if p != "elastic" else 1, pml=1, ik=ik)
        a("2d gradients", prop=p, shape=(3, 3), acc=2, nt=1, pml=[1, 0, 0, 1], ik=ik)
        a("3d gradients", prop=p, shape=(2, 3, 2), acc=2, nt=1, pml=[0, 1, 0, 0, 1, 0], ik=ik)
        a("2d gradients two shots", prop=p, shape=(3, 3), acc=2, nt=1, pml=[1, 0, 0, 1], n_shots=2, ik=ik,
          threads=2)
    return out
