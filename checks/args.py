"""The public functions called with symbolic settings."""
import inspect
import sys

import torch

from engine import pysym, symtorch as S
from engine.adapters import PROPS, DIM, NOMINAL, MAXVEL
from engine.pysym import And, Or, Not, Eq, Ne, Le, Lt, If, Max, Min, Iff, Implies

SHAPE = {1: (7,), 2: (5, 6), 3: (4, 5, 6)}
IGN = -2 ** 31


def plain(f):
    f.plain = True
    return f


class CutAt:
    """stop when the code under test calls deepwave.common.<name> (value: its
    arguments by name), returns from setup_propagator (value: what it returns)
    or first calls a compiled kernel"""
    SETUP = ("models source_amplitudes wavefields source_locations receiver_locations grid_spacing dt nt "
             "n_batch step_ratio model_gradient_sampling_interval accuracy pml_width pml_freq max_vel "
             "freq_taper_frac time_pad_frac time_taper device dtype").split()

    def __init__(self, dw, where):
        self.dw, self.where = dw, where

    def __enter__(self):
        self.undo = []
        self.kernel = S.ENV.kernel
        if self.where == "kernel":
            class K:
                def __getattr__(s, n):
                    def call(*a):
                        raise pysym.Cut("kernel")
                    return call
            S.ENV.kernel = K()
            return self
        name = "setup_propagator" if self.where == "setup" else self.where
        orig = getattr(self.dw.common, name, None)
        if orig is None:
            raise pysym.Unsupported("deepwave.common.%s is not there" % name)
        sig = inspect.signature(orig)

        def stop(*a, **k):
            if self.where == "setup":
                r = orig(*a, **k)
                if len(r) != len(self.SETUP):
                    raise pysym.Unsupported("setup_propagator returns something else")
                raise pysym.Cut(dict(zip(self.SETUP, r)))
            b = sig.bind(*a, **k)
            b.apply_defaults()
            raise pysym.Cut(dict(b.arguments))
        for n, m in list(sys.modules.items()):
            if m is not None and (n == "deepwave" or n.startswith("deepwave.")):
                for k, v in list(vars(m).items()):
                    if v is orig:
                        self.undo.append((m, k))
                        setattr(m, k, stop)
        self.orig = orig
        return self

    def __exit__(self, *a):
        S.ENV.kernel = self.kernel
        for m, k in self.undo:
            setattr(m, k, self.orig)


def models(prop, nd, shape=None, nb=1):
    sh = ((nb,) if nb > 1 else ()) + tuple(shape or SHAPE[nd])
    return [torch.full(sh, NOMINAL[m], dtype=torch.float64) for m in PROPS[prop].models]


def default_kw(prop, nd, nt=3, n_shots=1, src=True, rec=True):
    P = PROPS[prop]
    kw = dict(accuracy=2, pml_width=1, pml_freq=0.5, max_vel=MAXVEL[prop])
    if src:
        for a, l, c in P.srcs(nd):
            kw[a] = torch.ones(n_shots, 1, nt, dtype=torch.float64)
            kw[l] = torch.ones(n_shots, 1, nd, dtype=torch.long)
    if rec:
        for l, c in P.recs(nd):
            kw[l] = torch.full((n_shots, 1, nd), 2, dtype=torch.long)
    return kw


def call(dw, prop, nd, where, dx=None, dt=0.125, mods=None, drop=(), **over):
    base = default_kw(prop, nd)
    for k in drop:
        base.pop(k)
    base.update(over)
    if dx is None:
        dx = [1.0, 1.5, 0.75][:nd]
    f = getattr(dw, prop)
    with CutAt(dw, where):
        return f(*(mods or models(prop, nd)), dx, dt, **base)


def srcs(prop, nd):
    """[(amplitude arg, location arg, limit of the coordinates)]"""
    out = []
    for a, l, c in PROPS[prop].srcs(nd):
        out.append((a, l, limit(prop, nd, c)))
    return out


def limit(prop, nd, c, shape=None):
    """number of valid coordinates per dimension of a component"""
    lim = list(shape or SHAPE[nd])
    if prop in ("acoustic", "elastic") and c in DIM[nd] and c:
        lim[DIM[nd].index(c)] -= 1
    return lim


def accepted_iff(cond, out, *values):
    """[(label, formula)]: accepted exactly when cond holds, and then the
    values (label, got, want) agree"""
    if out.raised:
        return [("refused although valid", Not(cond))]
    r = [("accepted although invalid", cond)]
    for lab, got, want in values:
        r.append((lab, Eq(got, want)))
    return r
