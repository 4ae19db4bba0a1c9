from checks.common import *
from checks.scen import untouched

PROPERTY = "C26"
TECHNIQUE = "symbolic execution of the real kernels on the caller's buffers; z3 decides that their contents are unchanged"
EXPLANATION = ("Every input tensor is symbolic; after forward and backward the solver decides each of its cells still "
               "holds its original symbol, and storages of outputs, gradients and inputs are compared.")
BOUNDS = "1-3 dimensions, both backends, 0-2 steps, up to 2 shots, shared and batched models, with and without layers"
ASSUMPTIONS = EXACT


def scenarios(tier, seed):
    out = []

    def a(name, ik=None, **cfg):
        out.append(("%s %s" % (cfg["prop"], name), untouched, dict(cfg=cfg, **(ik or {}))))
    for p in PROPS:
        a("1d", prop=p, shape=(4,), acc=2, nt=2)
        a("1d acc8", prop=p, shape=(9,), acc=8, nt=1)
        a("2d", prop=p, shape=(3, 3), acc=2, nt=1)
        a("2d no layers", prop=p, shape=(3, 3), acc=2, nt=2 if p != "elastic" else 1, pml=0)
        a("3d", prop=p, shape=(2, 3, 2), acc=2, nt=1, pml=[1, 0, 0, 1, 0, 0])
        a("2d no layers batched", prop=p, shape=(3, 3), acc=4, nt=1, pml=0, n_shots=2, nbm=2, threads=2)
        a("2d two shots", prop=p, shape=(3, 3), acc=2, nt=1, pml=[0, 1, 1, 0], n_shots=2, threads=2)
        a("2d python", prop=p, shape=(3, 3), acc=2, nt=1, pml=[0, 1, 1, 0], python_backend="eager")
        a("2d python no layers", prop=p, shape=(3, 3), acc=4, nt=1, pml=0, python_backend="eager", n_shots=2)
        a("2d no gradient", prop=p, shape=(3, 3), acc=2, nt=2, pml=0, ik=dict(grad=False))
        a("2d zero steps", prop=p, shape=(3, 3), acc=2, nt=0, nsrc=0, pml=0, ik=dict(grad=False))
        a("2d zero steps python", prop=p, shape=(3, 3), acc=2, nt=0, nsrc=0, pml=0, python_backend="eager",
          ik=dict(grad=False))
        a("2d compressed", prop=p, shape=(3, 3), acc=2, nt=1, pml=0, storage_compression=True)
        a("2d no storage", prop=p, shape=(3, 3), acc=2, nt=1, pml=0, storage_mode="none", ik=dict(grad=False))
        a("2d interval", prop=p, shape=(3, 3), acc=2, nt=3, pml=0, model_gradient_sampling_interval=2,
          ik=dict(models="conc"))
        a("2d internal steps", prop=p, shape=(3, 3), acc=2, nt=2, pml=0, max_vel=7.0, ik=dict(grad=False, models="conc"))
        a("2d taper", prop=p, shape=(3, 3), acc=2, nt=4, pml=0, ik=dict(grad=False, models="conc"),
          time_taper=True, time_pad_frac=0.5, freq_taper_frac=0.5)
        import torch
        IG = -(2 ** 31)
        srcs = {c: torch.tensor([[[1, 1], [IG, IG], [0, 1]]]) for _, _, c in PROPS[p].srcs(2)}
        recs = {c: torch.tensor([[[IG, IG], [0, 1]]]) for _, c in PROPS[p].recs(2)}
        a("2d ignored", prop=p, shape=(3, 3), acc=2, nt=2, nsrc=3, src=srcs, rec=recs, pml=0, ik=dict(models="conc"))
    return out
