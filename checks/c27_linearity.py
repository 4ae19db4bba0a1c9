from checks.common import *
from checks.scen import linear, permute

PROPERTY = "C27"
TECHNIQUE = "symbolic execution of the real kernels on symbolic superpositions and permuted sources; z3 decides equality"
EXPLANATION = ("Outputs for a*x+y are compared by the solver with a*f(x)+f(y) for symbolic a, x, y; zero input must give "
               "zero; permuted source and receiver lists must give the same wavefields and permuted records.")
BOUNDS = "1-3 dimensions, both backends, up to 4 steps, up to 2 shots, up to 4 sources and receivers"
ASSUMPTIONS = EXACT


def scenarios(tier, seed):
    out = []

    def a(name, ik=None, f=linear, **cfg):
        out.append(("%s %s" % (cfg["prop"], name), f, dict(cfg=cfg, **(ik or {}))))
    for p in PROPS:
        reg = p in ("scalar", "scalar_born")
        for be in (False, "eager"):
            t = " python" if be else ""
            kw = dict(python_backend=be)
            a("1d" + t, prop=p, shape=(4,), acc=4, nt=2, **kw)
            a("2d" + t, prop=p, shape=(3, 3), acc=2, nt=1, **kw)
            a("2d four steps" + t, prop=p, shape=(3, 3), acc=2, nt=4, pml=[0, 1, 1, 0], ik=dict(models="conc"), **kw)
            a("2d acc6" + t, prop=p, shape=(4, 3), acc=6, nt=2, pml=0, ik=dict(models="conc"), **kw)
            a("3d" + t, prop=p, shape=(2, 3, 2), acc=2, nt=1, pml=[1, 0, 0, 1, 0, 0], **kw)
            a("3d three steps" + t, prop=p, shape=(2, 2, 2), acc=2, nt=3, pml=[1, 0, 0, 1, 0, 0],
              ik=dict(models="conc"), **kw)
            a("2d two shots" + t, prop=p, shape=(3, 3), acc=2, nt=2, n_shots=2, threads=2, pml=[1, 0, 0, 1],
              ik=dict(models="conc"), **kw)
            a("2d permuted" + t, f=permute, prop=p, shape=(4, 3), acc=2, nt=2, nsrc=4, nrec=4, pml=[1, 0, 0, 1],
              ik=None if reg else dict(models="conc"), **kw)
            a("1d permuted" + t, f=permute, prop=p, shape=(6,), acc=4, nt=2, nsrc=3, nrec=3, **kw)
            a("3d permuted" + t, f=permute, prop=p, shape=(3, 2, 2), acc=2, nt=2, nsrc=3, nrec=3, pml=0,
              n_shots=2, threads=2, ik=dict(models="conc"), **kw)
        a("1d internal steps", prop=p, shape=(4,), acc=2, nt=2, max_vel=13.0, ik=dict(models="conc"))
        a("1d internal steps and tapers", prop=p, shape=(4,), acc=2, nt=4, max_vel=9.0, ik=dict(models="conc"),
          time_taper=True, time_pad_frac=0.5, freq_taper_frac=0.5)
        a("2d interval", prop=p, shape=(3, 3), acc=2, nt=3, pml=0, model_gradient_sampling_interval=2,
          ik=dict(models="conc"))
    return out
