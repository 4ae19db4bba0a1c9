import ctypes
import gc
import importlib
import os
import shutil
import sys
import tempfile

import torch

from checks import args as A
from checks.common import *
from engine import pysym, symtorch as S

PROPERTY = "C21"
TECHNIQUE = ("symbolic execution of the Python storage life cycle: the operations of a history, the point that fails and the kind of failure are solver "
             "variables; every feasible history is explored, with the file system observed")
EXPLANATION = ("Histories of propagations with disk storage (start, back-propagate with and without keeping the graph, release, "
               "failing callbacks) are explored with symbolic operations and a symbolic fault that hits any allocation, directory creation, "
               "removal or kernel call. z3 decides which histories are feasible; along each, directories must be fresh, below the "
               "requested path, used by one propagation only, present while a kernel may use them and gone once the graph is released or has "
               "failed, and nothing else below the path may change.")
BOUNDS = "histories of 3 operations on two propagations (4 in thorough), one fault per history at any of the first 60 fault points, two shots"
ASSUMPTIONS = ["kernels are stand-ins that create and look for the files they are given (their own accesses to them are decided in C24 and C11)",
               "uuid4 does not repeat", "CPython releases objects when their last reference goes; a collection follows each operation"]
OPS = ["start", "backward and keep", "backward", "release oldest", "release newest", "start with failing callback",
       "backward with failing callback"]


class Fault(Exception):
    pass


class World:
    """a scratch directory, observed"""

    def __init__(self, fault, nested):
        self.fault, self.n = fault, 0
        self.active = False
        self.root = tempfile.mkdtemp(prefix="dwstore")
        self.path = os.path.join(self.root, "a")
        os.mkdir(self.path)
        os.mkdir(os.path.join(self.path, "deepwave_tmp_1_other"))
        for f in ("keep.txt", "shot_0.bin", "deepwave_tmp_1_other/shot_0.bin"):
            with open(os.path.join(self.path, f), "w") as h:
                h.write(f)
        if nested:
            self.path = os.path.join(self.path, "b", "c")
        self.before = self.tree()
        self.used = []
        self.bad = []

    def tree(self):
        out = {}
        for d, ds, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, "rb") as h:
                    out[p] = h.read()
            for x in ds:
                out[os.path.join(d, x)] = None
        return out

    def point(self, kind):
        """a point that may fail"""
        if not self.active:
            return
        k = self.n
        self.n += 1
        if self.fault is not None and k < 60 and bool(self.fault == k):
            self.fault = None
            raise (Fault(kind) if kind not in ("mkdir", "rmtree") else OSError(kind))

    def inside(self, p):
        p = os.path.realpath(os.fspath(p) if not isinstance(p, int) else "/")
        return p.startswith(self.root + os.sep)

    def __enter__(self):
        self.undo = []

        def patch(o, n, f):
            self.undo.append((o, n, getattr(o, n)))
            setattr(o, n, f)
        rm, mk, zeros = shutil.rmtree, os.mkdir, torch.zeros
        self.within = False

        def rmtree(p, *a, **k):
            if not self.inside(p):
                self.bad.append("removes " + str(p))
                return
            self.point("rmtree")
            self.within = True
            try:
                return rm(p, *a, **k)
            finally:
                self.within = False

        def guard(n, orig):
            def g(p, *a, **k):
                if not self.within and not self.inside(p):
                    self.bad.append("%s %s" % (n, p))
                    return
                return orig(p, *a, **k)
            return g

        def mkdir(p, *a, **k):
            if not self.active or "torchinductor" in str(p):
                return mk(p, *a, **k)
            if not self.inside(p):
                self.bad.append("creates " + str(p))
                raise OSError("outside")
            self.point("mkdir")
            return mk(p, *a, **k)

        def zz(*a, **k):
            self.point("allocation")
            return zeros(*a, **k)
        patch(shutil, "rmtree", rmtree)
        patch(os, "mkdir", mkdir)
        for n in ("remove", "unlink", "rmdir", "rename", "replace"):
            patch(os, n, guard(n, getattr(os, n)))
        patch(torch, "zeros", zz)
        self.kernel = S.ENV.kernel
        S.ENV.kernel = Kernels(self, self.kernel)
        return self

    def __exit__(self, *a):
        S.ENV.kernel = self.kernel
        for o, n, f in reversed(self.undo):
            setattr(o, n, f)
        shutil.rmtree(self.root, True)

    def own(self):
        """directories of ours that exist"""
        return sorted({os.path.dirname(f) for f in self.used if os.path.isdir(os.path.dirname(f))})


class Kernels:
    def __init__(self, world, real):
        self.world, self.real = world, real

    def __getattr__(self, name):
        w = self.world
        f = None if self.real is None else getattr(self.real, name)

        def call(*args):
            w.files = []
            for a in args:
                if isinstance(a, ctypes.Array) and a._type_ is ctypes.c_char_p:
                    w.files += [x.decode() for x in a]
            for x in w.files:
                d = os.path.dirname(x)
                if os.path.realpath(os.path.dirname(d)) != os.path.realpath(w.path):
                    w.bad.append("%s is not in a directory below the requested path" % x)
                if x not in w.used:
                    if d in w.before:
                        w.bad.append("an existing directory is used")
                    w.used.append(x)
                if not os.path.isdir(d):
                    w.bad.append("a kernel is given a file in a directory that is not there")
                    continue
                if not w.inside(x):
                    w.bad.append(x)
                elif f is None and "forward" in name:
                    with open(x, "a"):
                        pass
                elif f is None and not os.path.exists(x):
                    w.bad.append("a kernel is given a file that is not there any more")
            if len(set(w.files)) != len(w.files):
                w.bad.append("two snapshots share a file")
            w.point("kernel")
            if f is not None:
                f.argtypes = getattr(call, "argtypes", None)
                f.restype = getattr(call, "restype", None)
                return f(*args)
            return 0
        return call


def histories(ctx, dw, prop, length, faults, nested=False, ops=None, compress=False, callbacks=True, **cfgkw):
    nd = 1
    decl = {}
    use = list(range(len(OPS))) if ops is None else ops
    for k in range(length):
        decl["op%d" % k] = ("int", 0, len(use) - 1)
    decl["fault"] = ("int", 0, 60) if faults else None

    def run(inp):
        slots = []
        note = []

        def cb_fail(s):
            raise Fault("callback")

        def start(w, fail):
            kw = A.default_kw(prop, nd, nt=2, n_shots=2)
            mods = [m.requires_grad_() for m in A.models(prop, nd, (4,))]
            w.active = True
            n0 = len(w.used)
            extra = dict(backward_callback=cb_maybe) if callbacks else {}
            try:
                r = getattr(dw, prop)(*mods, [1.0], 0.125, storage_mode="disk", storage_path=w.path,
                                      storage_compression=compress, **kw, **extra,
                                      **(dict(forward_callback=cb_fail) if fail else {}))
            finally:
                w.active = False
            mine = sorted({os.path.dirname(x) for x in w.used[n0:]})
            slots.append([r[-1], mods, mine])

        failing = []

        def cb_maybe(s):
            if failing:
                raise Fault("callback")

        def step(w, op):
            op = OPS[op]
            if op.startswith("start"):
                if len(slots) < 2:
                    start(w, "failing" in op)
            elif slots and op.startswith("backward"):
                r, mods, mine = slots[0]
                if r is None:
                    return
                failing[:] = [1] if "failing" in op else []
                w.active = True
                try:
                    r.sum().backward(retain_graph="keep" in op)
                finally:
                    w.active = False
                    del failing[:]
                    if "keep" not in op:
                        slots[0][0] = r if sys.exc_info()[0] else r
            elif slots and op == "release oldest":
                slots.pop(0)
            elif slots and op == "release newest":
                slots.pop()

        with World(inp["fault"], nested) as w:
            for k in range(length):
                j = inp["op%d" % k]
                j = use[j.__index__() if isinstance(j, pysym.Num) else int(j)]
                if OPS[j] == "start with failing callback" and not callbacks:
                    continue
                dead = None
                gone = False
                broke = w.fault is None and faults
                try:
                    step(w, j)
                except (Fault, OSError):
                    gone = True
                except RuntimeError as e:
                    # a second backward through a released graph
                    if "second time" not in str(e):
                        raise
                gc.collect()
                alive = [d for s in slots for d in s[2]]
                have = w.own()
                if len(set(alive)) != len(alive):
                    note.append("two propagations share a directory (step %d)" % k)
                for d in alive:
                    if d not in have:
                        note.append("%s: the directory of a propagation that may still be differentiated is gone" % OPS[j])
                lost = w.fault is None and faults        # a failed removal may leave its directory
                extra = [d for d in have if d not in alive]
                if extra and not (lost and RM[0]):
                    note.append("%s: a directory outlives its propagation" % OPS[j])
                now = w.tree()
                for p, c in w.before.items():
                    if p not in now or now[p] != c:
                        note.append("%s: %s was changed" % (OPS[j], p[len(w.root):]))
                for p in now:
                    if p not in w.before and p.startswith(w.path + os.sep) and not any(
                            p == d or p.startswith(d + os.sep) for d in alive) and not (lost and RM[0]) and \
                            not (lost and p == w.path):
                        note.append("%s: leaves %s" % (OPS[j], p[len(w.root):]))
                if w.bad:
                    note += w.bad
                if note:
                    break
            slots.clear()
            gc.collect()
            if w.own() and not (RM[0] and faults):
                note.append("a directory outlives everything")
        return note
    torch.zeros(1, requires_grad=True).exp().sum().backward()
    importlib.import_module("torch._dynamo")      # backward passes import it lazily
    gc.collect()
    gc.freeze()                   # collections then only look at what histories create
    RM = [False]
    old = World.point

    def point(self, kind):
        try:
            old(self, kind)
        except OSError:
            RM[0] = RM[0] or kind == "rmtree"
            raise
    inner = run

    def run(inp):
        RM[0] = False
        World.point = point
        try:
            return inner(inp)
        finally:
            World.point = old

    def check(inp, out):
        if out.raised:
            return [("history ends with %s: %s" % (type(out.value).__name__, str(out.value)[:150]), False)]
        return [(n, False) for n in out.value[:2]] or [("history", True)]
    ctx.explore("history", decl, run, check, expect=("returned",))


histories.plain = True


def scenarios(tier, seed):
    out = []
    for p in PROPS:
        L = 3 if tier == "quick" else 4
        out.append((p + " histories", histories, dict(prop=p, length=L, faults=False)))
        out.append((p + " faults", histories, dict(prop=p, length=2, faults=True, ops=[0, 2, 5])))
        out.append((p + " nested path", histories, dict(prop=p, length=2, faults=False, nested=True)))
        out.append((p + " compressed", histories, dict(prop=p, length=2, faults=True, ops=[0, 1, 3], compress=True)))
    out.append(("scalar long", histories, dict(prop="scalar", length=4 if tier == "quick" else 5, faults=False, ops=[0, 1, 2, 3, 4])))
    out.append(("scalar faults in longer histories", histories, dict(prop="scalar", length=3, faults=True, ops=[0, 2, 3])))
    return out
