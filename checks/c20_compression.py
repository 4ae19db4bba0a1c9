import ctypes
import itertools
import os
import shutil
import subprocess
import tempfile
from fractions import Fraction

import torch

from engine import fp, llir, symtorch as S
from engine.llir import MemError
from engine.poly import Unsupported
from engine.smt import Inconclusive

PROPERTY = "C20"
TECHNIQUE = ("symbolic execution of the real compressor and decompressor (LLVM IR) in floating-point arithmetic modelled "
             "as rounded reals; z3 decides the error bound, finiteness and the range of every conversion")
EXPLANATION = ("simple_compress.c is executed on snapshots whose values are solver variables over all finite floats; every rounded "
               "operation is exact up to half an ulp plus half the smallest subnormal, overflow and division by zero make a "
               "value non-finite. z3 decides, for every value, that what is restored differs by at most 1/254 of the "
               "largest magnitude of the 8-wide block plus rounding, is finite, and that no conversion to a byte is out of range. Every "
               "access of the compressor stays in a buffer of the size StorageManager reserves.")
BOUNDS = ("1-3 dimensions, both types; blocks at every position of shapes with sides 1-17; up to four free values at a time in a block "
          "(the others zero), all of them where the block has at most four cells")
ASSUMPTIONS = ["rounding slack: 2.5e-4 (float) or 5e-13 (double) of the bound, and two smallest subnormals",
               "the truncation to a byte is relaxed to an arbitrary real within one below the value",
               "the Python/GPU backends do not compress; the CUDA kernel is not compiled here"]
NAMES = ["nz", "ny", "nx"]


def manager(dw, shape, dtype, mode=0):
    import deepwave.common as C
    dt = torch.float32 if dtype == "float" else torch.float64
    return C.StorageManager(tuple(shape), dt, 2, 3, 1, mode, True, "/nonexistent", torch.device("cpu"), False)


_MODS = {}


def module(nd, dtype):
    k = (nd, dtype)
    if k not in _MODS:
        defs = dict(DW_NDIM=nd, DW_DTYPE=dtype, DW_DEVICE="cpu")
        _MODS[k] = llir.Module(llir.compile_c(os.path.join(S.SRC, "simple_compress.c"), defs, [S.SRC]), "sc", track=True)
    return _MODS[k]


def fname(op, nd, dtype):
    return "simple_compress_%s_cpu_%dd_%s" % (op, nd, dtype)


def native(nd, dtype, cells, shape, room):
    """the real compressor and decompressor on concrete values"""
    import numpy as np
    d = tempfile.mkdtemp(prefix="dwsc")
    try:
        so = os.path.join(d, "sc.so")
        subprocess.check_call(["gcc", "-O1", "-w", "-shared", "-fPIC", "-I", S.SRC, "-DDW_NDIM=%d" % nd, "-DDW_DTYPE=" + dtype,
                               "-DDW_DEVICE=cpu", "-ffp-contract=off", os.path.join(S.SRC, "simple_compress.c"), "-o", so])
        lib = ctypes.CDLL(so)
        ty = np.float32 if dtype == "float" else np.float64
        a = np.array([float(c) for c in cells], dtype=ty)
        guard = 4096
        buf = np.full(room + guard, 0xA5, dtype=np.uint8)
        out = np.full(len(cells) + 64, np.nan, dtype=ty)
        P = lambda x: ctypes.c_void_p(x.ctypes.data)
        dims = [ctypes.c_size_t(n) for n in shape]
        lib[fname("compress", nd, dtype)](P(a), P(buf), *dims)
        over = bool((buf[room:] != 0xA5).any())
        lib[fname("decompress", nd, dtype)](P(buf), P(out), *dims)
        return a, out[:len(cells)], over
    finally:
        shutil.rmtree(d, True)


def blocks(shape):
    """cell index -> block"""
    out = {}
    strides = [1]
    for n in reversed(shape[1:]):
        strides.insert(0, strides[0] * n)
    for ix in itertools.product(*map(range, shape)):
        out[sum(i * s for i, s in zip(ix, strides))] = tuple(i // 8 for i in ix)
    return out


def judge(ctx, dtype, a, out, over, shape):
    """the property on concrete values"""
    p, e = fp.FORMATS[dtype]
    slack = Fraction(1, 1 << (p - 12))
    tiny = Fraction(1, 1 << (e - 1 + p - 1))
    bl = blocks(shape)
    ms = {}
    for k, b in bl.items():
        ms[b] = max(ms.get(b, 0), abs(Fraction(float(a[k]))))
    ctx.true("space reserved", not over)
    for k, b in bl.items():
        o = float(out[k])
        fin = o == o and abs(o) != float("inf")
        ctx.true("finite: %r became %r" % (float(a[k]), o), fin)
        if fin:
            d = abs(Fraction(o) - Fraction(float(a[k])))
            ctx.true("value %r of a block with maximum %r restored as %r" % (float(a[k]), float(ms[b]), o),
                     d <= ms[b] / 254 * (1 + slack) + 2 * tiny if ms[b] else d == 0)


def codec(ctx, dw, shape, dtype, free):
    """free: indices of the cells that are solver variables, others zero"""
    nd = len(shape)
    n = 1
    for s in shape:
        n *= s
    sm = manager(dw, shape, dtype)
    size = 4 if dtype == "float" else 8
    kind = str(size)
    names = ["v[%d]" % k for k in free]
    if ctx.mode == "conc":
        cells = [Fraction(0)] * n
        for k, nm in zip(free, names):
            cells[k] = ctx.env.get(nm, Fraction(1 + k, 3))
        a, out, over = native(nd, dtype, cells, shape, sm.shot_bytes_comp)
        judge(ctx, dtype, a, out, over, shape)
        return
    bl = blocks(shape)
    work = [[]]
    paths = 0
    while work:
        path = work.pop()
        paths += 1
        if paths > 64:
            raise Inconclusive("too many paths")
        F = fp.Fp(dtype, path)
        L = fp.Linked(F, [module(nd, dtype)])
        rt = fp.RT(F)
        L.attach(rt)
        rt.in_par = lambda: False
        vals = [F.lift(0) for _ in range(n)]
        for k, nm in zip(free, names):
            vals[k] = F.var(nm)
        src = rt.new_region("snapshot", size * n, kind, list(vals))
        dst = rt.new_region("compressed", sm.shot_bytes_comp, "raw")
        if size == 4:
            fl = rt.M4[dst.rid]
        else:
            fl = dst.cells
        res = rt.new_region("restored", size * n, kind)
        try:
            L[fname("compress", nd, dtype)](rt, src.rid << llir.SHIFT, dst.rid << llir.SHIFT, *shape)
            nfl = [k for k, x in enumerate(fl) if x is not None]
            nby = [k for k, x in enumerate(dst.bytes) if x is not None]
            clash = {k // size for k in nby} & set(nfl)
            ctx.true("maxima and bytes do not overlap", not clash)
            L[fname("decompress", nd, dtype)](rt, dst.rid << llir.SHIFT, res.rid << llir.SHIFT, *shape)
        except (IndexError, KeyError) as e:
            raise MemError("access outside the buffers of a %s snapshot: %s" % (shape, e))
        S.ENV.encoded.update((fname("compress", nd, dtype), fname("decompress", nd, dtype)))
        work += F.more
        q = ctx.paths
        z3 = F.z3

        def ask(label, cond, nm):
            r, m = F.check(cond, nm)
            q["asserted"] = q.get("asserted", 0) + 1
            if r == "unknown":
                raise Inconclusive(label)
            if r == "sat":
                env = {}
                for x in names:
                    t = m.eval(z3.Real(x), True)
                    env[x] = Fraction(t.numerator_as_long(), t.denominator_as_long()) if z3.is_rational_value(t) else \
                        Fraction(float(t.approx(30).as_fraction()))
                ctx.bad.append((label, env, "a value", "none"))
                return True
        stop = False
        for lab, cond, nm in F.ub:
            stop = stop or ask(lab, cond, nm)
        slack = Fraction(1, 1 << (F.p - 12))
        for k in range(n):
            if stop:
                break
            o, v = res.cells[k], vals[k]
            if o is None:
                ctx.true("cell %d is restored" % k, False)
                continue
            o = F.lift(o)
            mates = [vals[j] for j in free if bl[j] == bl[k]]
            if not mates:
                ctx.true("zero block stays zero at %d" % k, o.const() == 0)
                continue
            if k not in free and k % 7 and n > 30 and k % 41 or k not in free and n > 300 and k % 41:
                continue             # zeros in a block with other values: a sample of them is asked
            nm = v.names | o.names
            for x in mates:
                nm = nm | x.names
            m = z3.Real("m")
            cs = [z3.And(m >= x.t, m >= -x.t) for x in mates] + [z3.Or([z3.Or(m == x.t, m == -x.t) for x in mates])]
            stop = stop or ask("finite", z3.And(o.bad, *cs), nm)
            d = o.term() - v.term()
            for f in (Fraction(3, 2), 1):
                b = m * F.q(f * (1 + slack) / 254) + F.q(2 * F.tiny)
                stop = stop or ask("error bound", z3.And(z3.Or(d > b, -d > b), *cs), nm)
        for k in ("queries", "solver_s"):
            q[k] = q.get(k, 0) + F.stats[k]
    q["paths"] = q.get("paths", 0) + paths


codec.plain = True


def shapes(ctx, dw, dtype, shapes):
    """every access stays inside the reserved space, zero is restored"""
    for shape in shapes:
        codec(ctx, dw, shape, dtype, [])


shapes.plain = True


def scenarios(tier, seed):
    out = []
    sides = [1, 2, 7, 8, 9, 15, 16, 17]
    for dt in ("float", "double"):
        for n in range(1, 5):
            out.append(("%s 1d %d" % (dt, n), codec, dict(shape=[n], dtype=dt, free=list(range(n)))))
        out.append(("%s 2d 2x2" % dt, codec, dict(shape=[2, 2], dtype=dt, free=[0, 1, 2, 3])))
        out.append(("%s 3d 1x2x1" % dt, codec, dict(shape=[1, 2, 1], dtype=dt, free=[0, 1])))
        for n, fr in ((8, [0, 7]), (9, [7, 8]), (16, [7, 8, 15]), (17, [15, 16]), (17, [0, 8, 16])):
            out.append(("%s 1d %d cells %s" % (dt, n, fr), codec, dict(shape=[n], dtype=dt, free=fr)))
        out.append(("%s 2d 9x9" % dt, codec, dict(shape=[9, 9], dtype=dt, free=[7 * 9 + 7, 7 * 9 + 8, 8 * 9 + 7, 80])))
        out.append(("%s 3d 9x9x9" % dt, codec, dict(shape=[9, 9, 9], dtype=dt, free=[7 * 81 + 7 * 9 + 7, 8 * 81 + 8 * 9 + 7])))
        out.append(("%s shapes 1d" % dt, shapes, dict(dtype=dt, shapes=[[n] for n in range(1, 34)])))
        out.append(("%s shapes 2d" % dt, shapes, dict(dtype=dt, shapes=[[a, b] for a in sides for b in sides])))
        out.append(("%s shapes 3d" % dt, shapes, dict(dtype=dt, shapes=[[a, b, c] for a in (1, 7, 8, 9) for b in (1, 8, 9) for c in (1, 7, 8, 9, 17)])))
    return out
