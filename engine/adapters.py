"""Uniform access to the four propagators through their public functions."""
import torch

DIM = {1: "x", 2: "yx", 3: "zyx"}


def _fields_scalar(nd):
    d = DIM[nd]
    return (["wavefield_0", "wavefield_m1"] + ["psi%s_m1" % c for c in d] +
            ["zeta%s_m1" % c for c in d])


def _fields_born(nd):
    d = DIM[nd]
    return (_fields_scalar(nd) + ["wavefield_sc_0", "wavefield_sc_m1"] +
            ["psi%s_sc_m1" % c for c in d] + ["zeta%s_sc_m1" % c for c in d])


def _fields_acoustic(nd):
    d = DIM[nd]
    return (["pressure_0"] + ["v%s_0" % c for c in d] + ["phi_%s_0" % c for c in d] +
            ["psi_%s_0" % c for c in d])


_EL = """vz vy vx sigmazz sigmayz sigmaxz sigmayy sigmaxy sigmaxx m_vzz m_vzy m_vzx
m_vyz m_vxz m_vyy m_vyx m_vxy m_vxx m_sigmazzz m_sigmayzy m_sigmaxzx m_sigmayzz
m_sigmaxzz m_sigmayyy m_sigmaxyy m_sigmaxyx m_sigmaxxx""".split()


def _letters(n):
    n = n.replace("m_sigma", "").replace("m_v", "").replace("sigma", "")
    if n[0] == "v":
        n = n[1:]
    return n


def _fields_elastic(nd):
    return [n + "_0" for n in _EL if all(c in DIM[nd] for c in _letters(n))]


class Prop:
    def __init__(self, name, models, fields, srcs, recs):
        self.name, self.models, self._fields = name, models, fields
        self._srcs, self._recs = srcs, recs

    def fields(self, nd):
        return self._fields(nd)

    def srcs(self, nd):
        """[(amplitude arg, location arg, component)]"""
        if self._srcs is None:
            return [("source_amplitudes", "source_locations", "")]
        return [("source_amplitudes_" + c, "source_locations_" + c, c)
                for c in self._srcs(nd)]

    def recs(self, nd):
        if self.name == "scalar":
            return [("receiver_locations", "")]
        if self.name == "scalar_born":
            return [("bg_receiver_locations", "bg"), ("receiver_locations", "")]
        return [("receiver_locations_" + c, c) for c in self._recs(nd)]

    def n_out(self, nd):
        return len(self.fields(nd)) + len(self.recs(nd))


def _comp(nd):
    return ["p"] + list(DIM[nd])


PROPS = {
    "scalar": Prop("scalar", ["v"], _fields_scalar, None, None),
    "scalar_born": Prop("scalar_born", ["v", "scatter"], _fields_born, None, None),
    "acoustic": Prop("acoustic", ["v", "rho"], _fields_acoustic, _comp, _comp),
    "elastic": Prop("elastic", ["lamb", "mu", "buoyancy"], _fields_elastic, _comp, _comp),
}

NOMINAL = {"v": 1.5, "scatter": 0.25, "rho": 1.25, "lamb": 2.0, "mu": 0.75,
           "buoyancy": 0.8}
MAXVEL = {"scalar": 2.0, "scalar_born": 2.0, "acoustic": 2.0, "elastic": 2.5}


_SCRATCH = []


def scratch():
    """a directory of this process's own for disk storage, removed at exit"""
    if not _SCRATCH:
        import atexit
        import shutil
        import tempfile
        _SCRATCH.append(tempfile.mkdtemp(prefix="dwdisk"))
        atexit.register(shutil.rmtree, _SCRATCH[0], True)
    return _SCRATCH[0]


class Cfg:
    """a propagation set-up; everything not given as a tensor is concrete"""

    def __init__(self, prop, shape, acc=2, pml=1, nt=2, n_shots=1, nbm=1, dx=None,
                 dt=0.125, nsrc=1, nrec=2, src=None, rec=None, fields="all",
                 comps=None, rcomps=None, threads=1, models_batched=None, **kw):
        self.prop, self.shape, self.acc, self.nt = prop, tuple(shape), acc, nt
        nd = self.nd = len(shape)
        self.pml = [pml] * (2 * nd) if isinstance(pml, int) else list(pml)
        self.n_shots, self.nbm = n_shots, nbm
        self.dx = dx if dx is not None else [1.0, 1.5, 0.75][:nd]
        self.dt, self.nsrc, self.nrec = dt, nsrc, nrec
        self.src, self.rec = src, rec
        self.fieldsel, self.comps, self.rcomps = fields, comps, rcomps
        self.threads, self.kw = threads, kw
        self.P = PROPS[prop]
        self.models_batched = models_batched

    @property
    def padded(self):
        return tuple(s + self.pml[2 * i] + self.pml[2 * i + 1]
                     for i, s in enumerate(self.shape))

    def field_names(self):
        f = self.P.fields(self.nd)
        if self.fieldsel == "all":
            return f
        if self.fieldsel == "none":
            return []
        return [x for x in f if x in self.fieldsel]

    def src_list(self):
        return [s for s in self.P.srcs(self.nd) if self.comps is None or s[2] in self.comps]

    def rec_list(self):
        return [r for r in self.P.recs(self.nd) if self.rcomps is None or r[1] in self.rcomps]

    def locs(self, n, off, comp):
        """distinct deterministic in-model cells per shot"""
        nd = self.nd
        lim = list(self.shape)
        if self.prop in ("acoustic", "elastic") and comp in DIM[nd]:
            lim[DIM[nd].index(comp)] -= 1      # half-cell shifted component
        tot = 1
        for l in lim:
            tot *= l
        if n > tot:
            raise ValueError("more locations than cells")
        out = []
        for s in range(self.n_shots):
            row = []
            for k in range(n):
                c = (off + 5 * s + 3 * k + 2) % tot
                while c in row:
                    c = (c + 1) % tot
                row.append(c)
            out.append([self._unr(c, lim) for c in row])
        return torch.tensor(out, dtype=torch.long).reshape(self.n_shots, n, nd)

    @staticmethod
    def _unr(c, shp):
        r = []
        for s in reversed(shp):
            r.append(c % s)
            c //= s
        return list(reversed(r))

    def inputs(self, ctx, nil=(), models="sym", amps="sym", fields="sym", nt=None):
        """build the input tensors; every tensor entry is symbolic unless the
        group is 'conc' (distinct concrete rationals) or its name is in nil
        (concrete base point + first-order direction variable)"""
        inp = {}
        nt = nt or self.nt
        for m in self.P.models:
            nb = self.nbm if self.models_batched is None or m in self.models_batched else 1
            shp = ((nb,) if nb > 1 else ()) + self.shape
            inp[m] = ctx.tensor(m, shp, NOMINAL[m],
                                "nil" if m in nil else models)
        for k, (a, l, c) in enumerate(self.src_list()):
            if self.nsrc == 0:
                continue
            inp[a] = ctx.tensor(a, (self.n_shots, self.nsrc, nt), 1,
                                "nil" if a in nil else amps)
            inp[l] = (self.src[c] if self.src is not None and c in self.src
                      else self.locs(self.nsrc, 1 + 2 * k, c))
        for k, (l, c) in enumerate(self.rec_list()):
            if self.nrec:
                inp[l] = (self.rec[c] if self.rec is not None and c in self.rec
                          else self.locs(self.nrec, 2 + 3 * k, c))
        for f in self.field_names():
            inp[f] = ctx.tensor(f, (self.n_shots,) + self.padded, 1,
                                "nil" if f in nil else fields)
        return inp

    def run(self, dw, inp, **over):
        """-> list of outputs (wavefields..., receivers...)"""
        P = self.P
        kw = dict(accuracy=self.acc, pml_width=self.pml, pml_freq=0.5,
                  max_vel=MAXVEL[self.prop])
        kw.update(self.kw)
        for k, v in inp.items():
            if k not in P.models:
                kw[k] = v
        if not any(k.startswith("source_amplitudes") for k in inp):
            kw.setdefault("nt", self.nt)
        kw.update(over)
        if kw.get("storage_mode") == "disk":
            kw.setdefault("storage_path", scratch())
        torch.set_num_threads(self.threads)
        f = getattr(dw, self.prop)
        return list(f(*[inp[m] for m in P.models], self.dx, self.dt, **kw))

    def out_names(self):
        return ["out:" + f for f in self.P.fields(self.nd)] + \
            ["rec:" + (c or "rec") for _, c in self.P.recs(self.nd)]

    def describe(self):
        return dict(propagator=self.prop, shape=self.shape, accuracy=self.acc,
                    pml=self.pml, nt=self.nt, shots=self.n_shots, model_batch=self.nbm,
                    **{k: str(v) for k, v in self.kw.items()})
