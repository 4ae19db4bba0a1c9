from checks.common import *
from checks.scen import born

PROPERTY = "C05"
TECHNIQUE = "symbolic execution of the real C kernels (LLVM IR) and PyTorch code; z3 decides equality with the exact derivative"
EXPLANATION = ("scalar_born is executed symbolically through its public function; its background outputs are "
               "compared by the solver with scalar's outputs, its scattered outputs with the exact directional "
               "derivative of scalar's outputs (dual number along (scatter, scattered state)).")
BOUNDS = "1-3 dimensions, accuracies 2-8, grids up to 11 cells per side, 1-4 steps, up to 2 shots"
ASSUMPTIONS = EXACT + ["the scattering potential is zero in the absorbing layers (that is what the propagator "
                       "documents by padding it with zeros)"]


def scenarios(tier, seed):
    out = []

    def a(name, ik=None, **cfg):
        out.append((name, born, dict(cfg=cfg, **(ik or {}))))
    for acc in (2, 4, 6, 8):
        h = acc // 2
        a("1d acc%d" % acc, shape=(4 * h + 2,), acc=acc, nt=3, pml=[2, 1])
        a("2d acc%d tall" % acc, shape=(4 * h + 1, 3), acc=acc, nt=2, pml=1)
        a("2d acc%d wide" % acc, shape=(3, 4 * h + 1), acc=acc, nt=2, pml=[0, 1, 2, 1])
        a("3d acc%d z" % acc, shape=(2 * h + 1, 2, 2), acc=acc, nt=1, pml=1 if acc < 6 else [1, 0, 0, 1, 0, 0])
        a("3d acc%d y" % acc, shape=(2, 2 * h + 1, 2), acc=acc, nt=1, pml=[0, 0, 1, 1, 0, 0])
        a("3d acc%d x" % acc, shape=(2, 2, 2 * h + 1), acc=acc, nt=1, pml=[0, 0, 0, 0, 1, 1])
    a("2d no layers", shape=(5, 4), acc=2, nt=3, pml=0)
    a("2d no layers acc4", shape=(4, 5), acc=4, nt=2, pml=0)
    a("3d no layers", shape=(3, 3, 3), acc=2, nt=2, pml=0)
    a("3d layers", shape=(4, 4, 4), acc=2, nt=1, pml=1)
    a("2d two shots", shape=(4, 3), acc=2, nt=2, n_shots=2, threads=2)
    a("2d two shots batched v", shape=(4, 3), acc=2, nt=2, n_shots=2, nbm=2, threads=2, models_batched=["v"])
    a("2d two shots batched scatter", shape=(4, 3), acc=2, nt=2, n_shots=2, nbm=2, threads=2,
      models_batched=["scatter"])
    a("2d two shots batched both", shape=(4, 3), acc=2, nt=2, n_shots=2, nbm=2, threads=2)
    a("2d zero initial state", shape=(4, 3), acc=2, nt=4, fields="none")
    a("1d zero initial state", shape=(6,), acc=4, nt=5, fields="none")
    a("2d no source", shape=(4, 3), acc=2, nt=2, nsrc=0)
    a("2d python backend", shape=(4, 3), acc=2, nt=2, python_backend="eager")
    a("1d python backend acc4", shape=(7,), acc=4, nt=2, python_backend="eager")
    a("3d python backend", shape=(3, 3, 3), acc=2, nt=1, python_backend="eager")
    if tier == "thorough":
        a("2d acc2 four steps", shape=(4, 4), acc=2, nt=4, pml=1)
        a("3d acc4", shape=(5, 5, 5), acc=4, nt=1, pml=1)
        a("2d acc8 square", shape=(9, 9), acc=8, nt=1, pml=1)
        a("1d acc2 six steps", shape=(5,), acc=2, nt=6, pml=1)
        a("3d acc2 two steps", shape=(3, 3, 3), acc=2, nt=2, pml=1)
    return out
