from checks.common import *
from checks.scen import threads

PROPERTY = "C25"
TECHNIQUE = ("symbolic execution of the real kernels with the memory accesses of every shot on every thread recorded; "
             "z3 decides that no assignment of shots to threads has conflicting accesses, and that results agree")
EXPLANATION = ("The kernels are executed symbolically with every shot on every thread. The accesses (buffer, offset, "
               "read/write, files included) of each shot on each thread become a formula in which the assignment of "
               "shots to threads and the address are unknowns; the solver decides that no two threads can access the "
               "same place with a write among them, so that every interleaving is equivalent to a sequential order, "
               "and that outputs and gradients of the executed orders equal those of one thread.")
BOUNDS = "1-3 dimensions, 2-4 shots, 2-4 threads (fewer, as many as and more than shots), 1-3 steps"
ASSUMPTIONS = EXACT + ["the parallel loops are over shots; 'omp simd' loops are executed in order",
                       "floating-point sums over threads are reals, so their order does not matter"]


def scenarios(tier, seed):
    out = []

    def a(name, T, ik=None, **cfg):
        out.append(("%s %s" % (cfg["prop"], name), threads, dict(cfg=cfg, T=T, **(ik or {}))))
    for p in PROPS:
        M = PROPS[p].models
        reg = p in ("scalar", "scalar_born")
        nil = dict(nil=M, amps="conc", fields="conc", wrt=M)
        k = dict(prop=p, shape=(3, 3), acc=2, nt=1, pml=[1, 0, 0, 1])
        a("1d", 2, prop=p, shape=(4,), acc=2, nt=2, n_shots=2)
        a("1d batched", 3, prop=p, shape=(4,), acc=4, nt=2, n_shots=3, nbm=3)
        a("2d two shots", 2, n_shots=2, **k)
        a("2d three shots on two threads", 2, n_shots=3, ik=nil, **dict(k, nt=2))
        a("2d two shots on three threads", 3, n_shots=2, ik=nil, **k)
        a("2d batched", 2, n_shots=2, nbm=2, **k)
        a("2d four shots on three threads", 3, n_shots=4, ik=nil, **dict(k, shape=(2, 3), pml=0))
        a("2d interval", 2, n_shots=2, ik=nil, model_gradient_sampling_interval=2, **dict(k, nt=3))
        a("2d chunks", 2, n_shots=2, ik=dict(nil, freq=1), **dict(k, nt=2))
        a("2d compressed", 2, n_shots=2, ik=nil, storage_compression=True, **k)
        a("2d host storage", 2, n_shots=2, ik=nil, storage_mode="cpu", storage_compression=True, **dict(k, nt=2))
        a("2d disk", 2, n_shots=2, ik=nil, storage_mode="disk", **dict(k, nt=2))
        a("2d disk compressed", 2, n_shots=3, ik=nil, storage_mode="disk", storage_compression=True, **dict(k, nt=2))
        a("2d forward only", 3, n_shots=3, ik=dict(wrt=[]), **k)
        a("3d", 2, prop=p, shape=(2, 2, 3), acc=2, nt=1, n_shots=2, pml=[1, 0, 0, 0, 0, 1])
        a("3d batched", 2, prop=p, shape=(2, 2, 2), acc=2, nt=1, n_shots=2, nbm=2, pml=0)
        a("1d chunks", 2, n_shots=3, ik=dict(nil, freq=2), **dict(k, shape=(4,), pml=1, nt=3))
        for m in M if len(M) > 1 else []:
            a("2d only %s" % m, 2, n_shots=2, ik=dict(nil=[m], models="conc", amps="conc", fields="conc", wrt=[m]),
              **dict(k, nt=2 if reg else 1))
            a("2d only %s batched" % m, 2, n_shots=2, nbm=2, models_batched=[m],
              ik=dict(nil=M, amps="conc", fields="conc", wrt=M), **k)
            a("1d only %s" % m, 2, n_shots=2, ik=dict(nil=[m], models="conc", amps="conc", fields="conc", wrt=[m]),
              **dict(k, shape=(4,), pml=1, nt=2))
            a("3d only %s" % m, 2, n_shots=2, ik=dict(nil=[m], models="conc", amps="conc", fields="conc", wrt=[m]),
              **dict(k, shape=(2, 3, 2), pml=[0, 1, 0, 0, 1, 0]))
        a("2d amplitudes", 2, n_shots=3, ik=dict(models="conc", wrt=[s[0] for s in PROPS[p].srcs(2)]), **dict(k, nt=2))
        if p == "scalar_born":
            a("2d scattered state", 2, n_shots=2, ik=dict(models="conc", wrt=["wavefield_sc_0"]), **dict(k, nt=2))
    return out
