from checks.common import *
from checks.survey import *

PROPERTY = "C13"
TECHNIQUE = "symbolic execution of the Python set-up code with symbolic locations, and of the kernels end to end; z3 decides"
EXPLANATION = ("Locations are symbolic integers: z3 decides on every path of the real set-up code that a call is refused exactly "
               "when an active location is outside the model or listed twice, and that otherwise the index handed to the "
               "kernels is that of the named cell.  End to end, sources and receivers in every cell act on that cell's value.")
BOUNDS = "1-3 dimensions, up to 2 shots and 3 locations, models up to 7 cells per side, accuracies 2-8, layers 0-2"
ASSUMPTIONS = EXACT + ["a location is ignored by setting all its coordinates to IGNORE_LOCATION, as documented"]
TASKS_PER_CHILD = 50


def scenarios(tier, seed):
    out = []
    for p in PROPS:
        def a(title, f, **k):
            out.append(("%s %s" % (p, title), f, k))
        for nd, shape in ((1, (5,)), (2, (4, 3)), (3, (3, 2, 4))):
            args_ = [(l, c) for _, l, c in PROPS[p].srcs(nd)] + list(PROPS[p].recs(nd))
            for k, (l, c) in enumerate(args_):
                acc = (2, 4, 6, 8)[k % 4]
                a("%dd %s" % (nd, l), locations, prop=p, shape=shape, arg=l, comp=c, n_shots=1, n=2, acc=acc,
                  pml=[(k + j) % 3 for j in range(2 * nd)])
                if nd < 3:
                    a("%dd %s one location, two shots" % (nd, l), locations, prop=p, shape=shape, arg=l, comp=c,
                      n_shots=2, n=1, acc=acc, pml=0)
            a("%dd survey_pad" % nd, locations, prop=p, shape=shape, arg=args_[0][0], comp=args_[0][1], n_shots=1,
              n=2 if nd < 3 else 1, pad=1, ign=False)
        a("1d three locations", locations, prop=p, shape=(5,), arg=args_[0][0] if p[0] == "s" else "source_locations_p",
          comp="", n_shots=1, n=3)
        def e(title, f, ik=None, **cfg):
            out.append(("%s %s" % (p, title), f, dict(cfg=dict(cfg, prop=p), **(ik or {}))))
        conc = dict(models="conc")
        for acc in (2, 4, 6, 8):
            e("1d receivers acc%d" % acc, receivers, shape=(acc + 1,), acc=acc, nt=2, pml=[1, 2], ik=conc)
        e("2d receivers", receivers, shape=(3, 4), acc=2, nt=2, pml=[1, 0, 2, 1], ik=conc, n_shots=2)
        e("2d receivers acc4", receivers, shape=(4, 3), acc=4, nt=3, pml=[0, 1, 1, 0], ik=conc)
        e("3d receivers", receivers, shape=(2, 3, 2), acc=2, nt=2, pml=[1, 0, 0, 2, 0, 1], ik=conc)
        e("2d receivers python", receivers, shape=(3, 4), acc=2, nt=2, pml=[1, 0, 2, 1], ik=conc, n_shots=2,
          python_backend="eager")
        e("3d receivers python", receivers, shape=(2, 3, 2), acc=4, nt=2, pml=[1, 0, 0, 2, 0, 1], ik=conc,
          python_backend="eager")
        for nd, shape, acc, pml in ((1, (5,), 4, [2, 1]), (2, (3, 4), 2, [1, 0, 2, 1]), (2, (4, 3), 4, 0),
                                    (3, (2, 3, 2), 2, [0, 1, 2, 0, 1, 1])):
            for _, _, c in PROPS[p].srcs(nd):
                e("%dd acc%d source %s" % (nd, acc, c), sources, shape=shape, acc=acc, pml=pml,
                  ik=dict(comp=c, fields="conc"))
                if acc == 2:
                    e("%dd acc%d source %s python" % (nd, acc, c), sources, shape=shape, acc=acc, pml=pml,
                      ik=dict(comp=c, fields="conc"), python_backend="eager")
    return out
