from checks.common import *
from checks.scen import modes

PROPERTY = "C11"
TECHNIQUE = ("symbolic execution of the real kernels, storage code and PyTorch code for each storage mode; "
             "z3 decides equality of outputs and gradients")
EXPLANATION = ("The same symbolic propagation is executed with every storage mode, with and without compression (the "
               "compressor is represented by its contract: what is decompressed is what was compressed, see C20), "
               "and the solver decides that outputs and gradients are those of device storage. Files are symbolic "
               "byte arrays, so a snapshot read from a wrong offset or shot shows.")
BOUNDS = ("1-3 dimensions, up to 3 shots and threads, up to 6 steps, sampling intervals 1-3, callback frequencies "
          "1-4 (several kernel calls), subsets of differentiated inputs")
ASSUMPTIONS = EXACT + ["compression is lossless in the symbolic run; its error is bounded in C20"]


def scenarios(tier, seed):
    out = []

    def a(name, ik=None, **cfg):
        out.append(("%s %s" % (cfg["prop"], name), modes, dict(cfg=cfg, **(ik or {}))))
    for p in PROPS:
        a("1d two backward passes", prop=p, shape=(4,), acc=2, nt=2, n_shots=2, threads=2,
          ik=dict(twice=True, models="conc"))
        a("2d two backward passes", prop=p, shape=(2, 3), acc=2, nt=2, n_shots=2, threads=2, pml=0,
          ik=dict(twice=True, nil=PROPS[p].models, amps="conc", fields="conc", wrt=PROPS[p].models))
        M = PROPS[p].models
        reg = p in ("scalar", "scalar_born")
        nil = dict(nil=M, amps="conc", fields="conc", wrt=M)
        lin = dict(models="conc", wrt=[x for x in ("source_amplitudes", "source_amplitudes_y", "source_amplitudes_p")])
        a("1d one step", prop=p, shape=(4,), acc=2, nt=1)
        a("2d one step two shots", prop=p, shape=(3, 3), acc=2, nt=1, n_shots=2, threads=2, pml=[1, 0, 0, 1])
        a("2d several blocks", prop=p, shape=(3, 9), acc=2, nt=2, pml=0, ik=nil)
        a("3d one step", prop=p, shape=(2, 3, 2), acc=2, nt=1, pml=[1, 0, 0, 0, 0, 1])
        for nd, sh in ((1, (4,)), (2, (3, 3) if p != "elastic" else (2, 3)), (3, (2, 2, 3) if p != "elastic" else (2, 2, 2))):
            n = {1: 5, 2: 4, 3: 3}[nd] if reg else {1: 4, 2: 3, 3: 2}[nd]
            a("%dd models over %d steps, shots" % (nd, n), prop=p, shape=sh, acc=2, nt=n, n_shots=2, threads=2,
              pml=0 if nd == 3 else 1, ik=nil)
            a("%dd interval 2, shots" % nd, prop=p, shape=sh if nd < 3 or reg else (2, 2, 2), acc=2,
              nt=5 if reg else 4 if nd == 1 else 3, n_shots=2, threads=2, pml=0, model_gradient_sampling_interval=2, ik=nil)
            a("%dd chunks" % nd, prop=p, shape=sh, acc=2, nt=n, n_shots=2, threads=1, pml=0, ik=dict(nil, freq=2))
        a("2d chunks and interval", prop=p, shape=(3, 3) if reg else (2, 2), acc=2, nt=6 if reg else 5, n_shots=2, threads=2, pml=0,
          model_gradient_sampling_interval=2, ik=dict(nil, freq=2))
        a("2d chunks of one", prop=p, shape=(3, 3), acc=2, nt=3, n_shots=1, pml=[0, 1, 0, 0], ik=dict(nil, freq=1))
        a("2d chunks longer than the run", prop=p, shape=(3, 3), acc=2, nt=2, n_shots=2, pml=0, ik=dict(nil, freq=4))
        a("2d three batched shots", prop=p, shape=(2, 3), acc=2, nt=2, n_shots=3, nbm=3, threads=2, pml=0, ik=nil)
        for m in M if len(M) > 1 else []:
            a("2d only %s" % m, prop=p, shape=(3, 3), acc=2, nt=3 if reg else 2, n_shots=2, threads=2, pml=0,
              ik=dict(nil, nil=[m], wrt=[m], models="conc"))
        a("2d amplitudes only", prop=p, shape=(3, 3), acc=2, nt=3, pml=0, fields="none", ik=lin)
        if p == "scalar_born":
            a("2d state only", prop=p, shape=(3, 3), acc=2, nt=2, pml=0,
              ik=dict(models="conc", wrt=["wavefield_0", "wavefield_sc_0"]))
        if tier == "thorough":
            a("2d 9x10", prop=p, shape=(9, 10), acc=4, nt=2, n_shots=2, threads=2, ik=nil)
            a("3d 9x2x9", prop=p, shape=(9, 2, 9), acc=2, nt=2, n_shots=2, threads=2, pml=0, ik=nil)
            a("2d interval 3 chunks 2", prop=p, shape=(3, 3), acc=2, nt=8, n_shots=3, threads=3, pml=0,
              model_gradient_sampling_interval=3, ik=dict(nil, freq=2))
    return out
