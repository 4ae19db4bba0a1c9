"""LLVM-IR -> Python translation for symbolic execution of the compiled kernels.

compile_c() lowers one translation unit of /repo with clang to LLVM IR (fresh on
every run); Module translates every function in it to a Python function whose
integers/pointers are concrete Python ints and whose floating-point values are
exact symbolic scalars (engine.poly).  Memory is a set of regions; an address is
(region id << 40) + byte offset, so an access outside its region (or through
NULL) raises MemError: out-of-bounds accesses are detected, not modelled.
"""
import os
import re
import struct
import subprocess

from . import poly
from .poly import Poly, Unsupported, rat

SHIFT = 40
MASK = (1 << SHIFT) - 1

CLANG = ["clang", "-S", "-emit-llvm", "-O1", "-Xclang", "-disable-llvm-passes",
         "-fopenmp", "-ffp-contract=off", "-w", "-o", "-"]
PASSES = ("always-inline,function(sroa,simplifycfg,early-cse),cgscc(inline),"
          "function(sroa,early-cse<memssa>,instsimplify,simplifycfg,"
          "loop-mssa(licm))")


class MemError(Exception):
    """the executed kernel accesses memory outside every allocation"""


class CompileError(Exception):
    pass


def compile_c(path, defs, incdirs=(), extra=()):
    cmd = CLANG + ["-D%s=%s" % kv for kv in defs.items()]
    for i in incdirs:
        cmd += ["-I", i]
    cmd += list(extra) + [path]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise CompileError(p.stderr[-2000:])
    q = subprocess.run(["opt", "-S", "-strip-debug", "-passes=" + PASSES, "-o", "-"],
                       input=p.stdout, capture_output=True, text=True)
    if q.returncode:
        raise CompileError(q.stderr[-2000:])
    return q.stdout


# ---------------------------------------------------------------------------
# parsing helpers
# ---------------------------------------------------------------------------
def split_args(s):
    out, depth, cur, instr = [], 0, "", False
    for ch in s:
        if ch == '"':
            instr = not instr
        if not instr:
            if ch in "([{<":
                depth += 1
            elif ch in ")]}>":
                depth -= 1
            elif ch == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def match_paren(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == "(":
            d += 1
        elif s[j] == ")":
            d -= 1
            if d == 0:
                return j
    raise Unsupported("unbalanced: " + s[:80])


ATTR = {"noundef", "noalias", "nocapture", "readonly", "readnone", "nonnull",
        "zeroext", "signext", "immarg", "writeonly", "returned", "dead_on_unwind",
        "noalias", "inreg", "nofree", "noundef", "writable"}

SIZES = {"double": 8, "float": 4, "i64": 8, "i32": 4, "i16": 2, "i8": 1, "i1": 1,
         "ptr": 8}


def strip_meta(s):
    s = re.sub(r"(, ![\w.]+ ![\w.]+(\(.*\))?)+\s*$", "", s)
    s = re.sub(r", !srcloc.*$", "", s)
    return s


def type_size(ty, types=None):
    ty = ty.strip()
    if ty in SIZES:
        return SIZES[ty]
    m = re.match(r"\[(\d+) x (.*)\]$", ty)
    if m:
        return int(m.group(1)) * type_size(m.group(2), types)
    m = re.match(r"%[\w.\"]+$", ty)
    if m and types and ty in types:
        return struct_layout(types[ty], types)[1]
    m = re.match(r"\{(.*)\}$", ty)
    if m:
        return struct_layout(split_args(m.group(1)), types)[1]
    raise Unsupported("size of type " + ty)


def type_align(ty, types=None):
    m = re.match(r"\[(\d+) x (.*)\]$", ty)
    if m:
        return type_align(m.group(2), types)
    if ty in SIZES:
        return SIZES[ty]
    if types and ty in types:
        return max([type_align(t, types) for t in types[ty]] or [1])
    m = re.match(r"\{(.*)\}$", ty)
    if m:
        return max([type_align(t, types) for t in split_args(m.group(1))] or [1])
    return 8


def struct_layout(fields, types):
    off, offs, al = 0, [], 1
    for t in fields:
        a = type_align(t, types)
        al = max(al, a)
        off = (off + a - 1) // a * a
        offs.append(off)
        off += type_size(t, types)
    off = (off + al - 1) // al * al
    return offs, off


def take_type(s):
    """split a leading type off s -> (type, rest)"""
    s = s.strip()
    if s[0] in "[{<":
        close = {"[": "]", "{": "}", "<": ">"}[s[0]]
        d = 0
        for j, ch in enumerate(s):
            if ch == s[0]:
                d += 1
            elif ch == close:
                d -= 1
                if d == 0:
                    return s[:j + 1], s[j + 1:].strip()
    m = re.match(r"(%?[\w.\"]+)\s*(.*)$", s)
    return m.group(1), m.group(2).strip()


def strip_attrs(s):
    s = s.strip()
    while True:
        m = re.match(r"(\w+)(\([^()]*\))?\s+(.*)$", s)
        if m and (m.group(1) in ATTR or m.group(1) in ("align", "dereferenceable",
                  "dereferenceable_or_null", "range", "captures")):
            if m.group(1) == "align" and not m.group(2):
                m2 = re.match(r"align\s+\d+\s*(.*)$", s)
                s = m2.group(1)
                continue
            s = m.group(3)
            continue
        return s


BINI = {"add": "+", "sub": "-", "mul": "*"}
BINF = {"fadd": "+", "fsub": "-", "fmul": "*"}


class Region:
    __slots__ = ("rid", "name", "nbytes", "kind", "cells", "bytes", "orig", "obj",
                 "tokens")

    def __init__(self, rid, name, nbytes, kind):
        self.rid, self.name, self.nbytes, self.kind = rid, name, nbytes, kind
        self.cells = self.bytes = self.orig = self.obj = None
        self.tokens = None


class RT:
    """run-time state shared by the translated functions"""

    def __init__(self):
        self.M8, self.M4, self.M1 = {}, {}, {}
        self.regions = {}
        self.next = 1
        self.files = {}          # virtual files: name -> VFile
        self.open = {}
        self.fnext = 1
        self.tid = 0
        self.nthreads = 1
        self.push = 1
        self.schedule = None     # threads -> [(thread, first, end)]: order and assignment of the iterations
        self.cur = None
        self.local = 0
        self.dirs = {}
        self.it = 0              # iteration (chunk) being executed
        self.epoch = 0           # parallel regions executed so far
        self.track = None        # race tracking: list of (tid, kind, addr)
        self.conds = []          # nominal decisions on symbolic comparisons
        self.log = []
        self.steps = 0
        self.stats = {"kernel_calls": 0, "loads": 0}
        self.overrides = {}

    # -- regions ------------------------------------------------------------
    def new_region(self, name, nbytes, kind, cells=None):
        rid = self.next
        self.next += 1
        r = Region(rid, name, nbytes, kind)
        if kind == "8":
            r.cells = cells if cells is not None else [None] * (nbytes // 8)
            self.M8[rid] = r.cells
        elif kind == "4":
            r.cells = cells if cells is not None else [None] * (nbytes // 4)
            self.M4[rid] = r.cells
        elif kind == "1":
            r.cells = cells if cells is not None else [None] * nbytes
            self.M1[rid] = r.cells
        elif kind == "raw":
            r.tokens = {}
            r.cells = [None] * ((nbytes + 7) // 8)
            r.bytes = [None] * nbytes
            self.M8[rid] = r.cells
            self.M1[rid] = r.bytes
            self.M4[rid] = [None] * ((nbytes + 3) // 4)
        self.regions[rid] = r
        return r

    def drop(self, rid):
        self.M8.pop(rid, None)
        self.M4.pop(rid, None)
        self.M1.pop(rid, None)
        self.regions.pop(rid, None)

    def alloca(self, ty, n, size):
        if ty == "i8" or ty == "i1":
            kind = "1"
        elif ty in ("i32", "float"):
            kind = "4"
        else:
            kind = "8"
            m = re.match(r"\[\d+ x (.*)\]$", ty)
            while m:
                inner = m.group(1)
                if inner in ("i8", "i1"):
                    kind = "1"
                elif inner in ("i32", "float"):
                    kind = "4"
                m = re.match(r"\[\d+ x (.*)\]$", inner)
        r = self.new_region("alloca", size * n, kind)
        return r.rid << SHIFT

    def cstr(self, p):
        cells = self.M1[p >> SHIFT]
        o = p & MASK
        out = bytearray()
        while cells[o] != 0:
            out.append(cells[o] & 255)
            o += 1
        return out.decode()

    def fcmp(self, pred, a, b):
        va, vb = poly.value(a), poly.value(b)
        r = {"eq": va == vb, "ne": va != vb, "gt": va > vb, "ge": va >= vb,
             "lt": va < vb, "le": va <= vb}[pred[1:]]
        if poly.is_sym(a) or poly.is_sym(b):
            self.conds.append((pred, a, b, r))
        return r

    def select(self, c, x, y):
        return x if c else y

    def fptoi(self, x, to):
        if poly.is_sym(x):
            raise Unsupported("conversion of a symbolic float to an integer")
        return int(x)

    # -- OpenMP ---------------------------------------------------------------
    def fork(self, fn, args):
        n = max(1, self.push)
        self.push = 1
        if self.nthreads != 1:
            n = 1
        self.nthreads = n
        self.epoch += 1
        self.local = self.next   # memory created from here on belongs to one iteration
        plan = [(t, None, None) for t in range(n)]
        if self.schedule is not None:
            plan = self.plan = self.schedule(n)
        try:
            for k, (t, lo, hi) in enumerate(plan):
                self.tid = t
                self.it = k if lo is None else lo
                self.cur = None if lo is None else (lo, hi)
                g = self.new_region("gtid", 4, "4", [t])
                b = self.new_region("btid", 4, "4", [0])
                FUN = self.linked[fn]
                FUN(self, g.rid << SHIFT, b.rid << SHIFT, *args)
                self.drop(g.rid)
                self.drop(b.rid)
        finally:
            self.nthreads = 1
            self.tid = 0

    def static_init(self, plast, plow, pup, pstride, M):
        lo = M[plow >> SHIFT][0]
        hi = M[pup >> SHIFT][0]
        n = hi - lo + 1
        T, t = self.nthreads, self.tid
        if self.cur is not None:
            if n != max(h for _, _, h in self.plan):
                raise Unsupported("a parallel loop that is not over shots")
            a, b = self.cur
        else:
            q, r = divmod(n, T)
            parts, s = [], 0
            for k in range(T):
                c = q + (1 if k < r else 0)
                parts.append((s, s + c))
                s += c
            a, b = parts[t]
        M[plow >> SHIFT][0] = lo + a
        M[pup >> SHIFT][0] = lo + b - 1
        M[pstride >> SHIFT][0] = n
        self.M4[plast >> SHIFT][0] = int(b == n and b > a)

    # -- libc -----------------------------------------------------------------
    def fopen(self, name, mode):
        nm, md = self.cstr(name), self.cstr(mode)
        if "r" in md and nm not in self.files:
            return 0
        f = self.files.setdefault(nm, {})
        if "w" in md:
            f.clear()
        h = self.fnext
        self.fnext += 1
        end = max([o + n for o, (n, _) in f.items()] or [0])
        self.open[h] = [f, 0 if "a" not in md else end, md, nm]
        r = self.new_region("FILE", 8, "8", [h])
        return r.rid << SHIFT

    def _fh(self, p):
        try:
            h = self.M8[p >> SHIFT][(p & MASK) >> 3]
            return self.open[h]
        except (KeyError, IndexError):
            raise MemError("stdio call on an invalid FILE pointer")

    def fclose(self, p):
        st = self._fh(p)
        h = self.M8[p >> SHIFT][0]
        del self.open[h]
        return 0

    def track_file(self, name, w):
        if self.track is not None and self.in_par():
            d, b = os.path.split(name)
            k = self.dirs.setdefault(d, len(self.dirs))
            self.track.add((self.epoch, self.it, self.tid, w, ("file", k, b)))

    def fseek(self, p, off, whence):
        st = self._fh(p)
        f = st[0]
        end = max([o + n for o, (n, _) in f.items()] or [0])
        st[1] = off + (0 if whence == 0 else st[1] if whence == 1 else end)
        return 0

    def fwrite(self, src, size, n, p):
        st = self._fh(p)
        f = st[0]
        if "r" in st[2] and "+" not in st[2]:
            return 0
        if "a" in st[2]:
            st[1] = max([o + k for o, (k, _) in f.items()] or [0])
        tot = size * n
        self.track_file(st[3], 1)
        data = self.read_bytes(src, tot)
        self.vf_put(f, st[1], tot, data)
        st[1] += tot
        return n

    def fread(self, dst, size, n, p):
        st = self._fh(p)
        f = st[0]
        tot = size * n
        end = max([o + k for o, (k, _) in f.items()] or [0])
        got = max(0, min(tot, end - st[1]))
        chunk = self.vf_get(f, st[1], got)
        self.write_bytes(dst, got, chunk)
        st[1] += got
        return got // size if size else 0

    @staticmethod
    def vf_put(f, off, n, data):
        for o in list(f):
            k, d = f[o]
            if o < off + n and off < o + k:
                # partial overlap: keep the cells outside
                if d[0] == "cells":
                    for j, c in enumerate(d[1]):
                        co = o + 8 * j
                        if not (co < off + n and off < co + 8):
                            f[("x", co)] = None
                    keep = [(o + 8 * j, c) for j, c in enumerate(d[1])
                            if not (o + 8 * j < off + n and off < o + 8 * j + 8)]
                    for key in [k2 for k2 in f if isinstance(k2, tuple)]:
                        del f[key]
                    del f[o]
                    for co, c in keep:
                        f[co] = (8, ("cells", [c]))
                else:
                    del f[o]
        if n:
            f[off] = (n, data)

    @staticmethod
    def vf_get(f, off, n):
        if off in f and f[off][0] == n:
            return f[off][1]
        cells = []
        pos = off
        flat = {}
        for o, (k, d) in f.items():
            if d[0] == "cells":
                for j, c in enumerate(d[1]):
                    flat[o + 8 * j] = c
        while pos < off + n:
            cells.append(flat.get(pos, poly.var("file_garbage!%d" % len(poly.VARS))))
            pos += 8
        return ("cells", cells)

    def read_bytes(self, src, n):
        r = self.regions.get(src >> SHIFT)
        o = src & MASK
        if r is None or o + n > r.nbytes:
            raise MemError("read of %d bytes at offset %d of %s" % (n, o, rname(r)))
        if r.kind == "raw":
            return ("raw", {k - o: v for k, v in r.tokens.items() if o <= k < o + n},
                    r.bytes[o:o + n],
                    {k: r.cells[(o + 8 * k) >> 3] for k in range(n // 8)} if o % 8 == 0 else {})
        if r.kind == "8":
            return ("cells", r.cells[o >> 3:(o + n) >> 3])
        raise Unsupported("byte copy from region kind " + r.kind)

    def write_bytes(self, dst, n, data):
        r = self.regions.get(dst >> SHIFT)
        o = dst & MASK
        if r is None or o + n > r.nbytes:
            raise MemError("write of %d bytes at offset %d of %s" % (n, o, rname(r)))
        if n == 0:
            return
        if data[0] == "raw":
            if r.kind != "raw":
                raise Unsupported("raw bytes into typed region")
            self.raw_clear(r, o, n)
            for k, v in data[1].items():
                if k + v[2] <= n:
                    r.tokens[o + k] = v
            r.bytes[o:o + n] = data[2][:n]
            for k, c in data[3].items():
                if 8 * k + 8 <= n:
                    r.cells[(o + 8 * k) >> 3] = c
        else:
            cs = data[1]
            if r.kind == "8":
                for j, c in enumerate(cs[:n // 8]):
                    r.cells[(o >> 3) + j] = c
            else:
                raise Unsupported("cells into region kind " + r.kind)

    @staticmethod
    def raw_clear(r, o, n):
        for k in list(r.tokens):
            if k < o + n and o < k + r.tokens[k][2]:
                del r.tokens[k]

    def memcpy(self, d, s, n):
        if n == 0:
            return
        rs, rd = self.regions.get(s >> SHIFT), self.regions.get(d >> SHIFT)
        if rs is None or rd is None:
            raise MemError("memcpy through an invalid pointer")
        if rs.kind == rd.kind and rs.kind in "48" and n % int(rs.kind) == 0:
            k = int(rs.kind)
            so, do = (s & MASK), (d & MASK)
            if so + n > rs.nbytes or do + n > rd.nbytes:
                raise MemError("memcpy of %d bytes out of bounds" % n)
            rd.cells[do // k:(do + n) // k] = rs.cells[so // k:(so + n) // k]
            return
        if rs.kind == rd.kind == "1":
            so, do = (s & MASK), (d & MASK)
            if so + n > rs.nbytes or do + n > rd.nbytes:
                raise MemError("memcpy of %d bytes out of bounds" % n)
            rd.cells[do:do + n] = rs.cells[so:so + n]
            return
        self.write_bytes(d, n, self.read_bytes(s, n))

    def memset(self, d, v, n):
        if n == 0:
            return
        r = self.regions.get(d >> SHIFT)
        o = d & MASK
        if r is None or o + n > r.nbytes:
            raise MemError("memset of %d bytes at offset %d of %s" % (n, o, rname(r)))
        if r.kind == "raw":
            self.raw_clear(r, o, n)
            for j in range(o, o + n):
                r.bytes[j] = v
            return
        k = int(r.kind)
        if k > 1 and v != 0:
            raise Unsupported("memset with a non-zero value")
        for j in range(o // k, (o + n) // k):
            r.cells[j] = v

    def malloc(self, n, zero=False):
        r = self.new_region("malloc", n, "8", None)
        for j in range(len(r.cells)):
            r.cells[j] = 0 if zero else poly.var("malloc_garbage!%d" % len(poly.VARS))
        return r.rid << SHIFT


def rname(r):
    return "NULL/invalid pointer" if r is None else "%s (%d bytes)" % (r.name, r.nbytes)


def s64(x):
    return ((x + (1 << 63)) & ((1 << 64) - 1)) - (1 << 63)


def s32(x):
    return ((x + (1 << 31)) & ((1 << 32) - 1)) - (1 << 31)


def sN(x, n):
    return ((x + (1 << (n - 1))) & ((1 << n) - 1)) - (1 << (n - 1))


def sdiv(a, b):
    if b == 0:
        raise MemError("integer division by zero")
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def srem(a, b):
    return a - b * sdiv(a, b)


def u(a, n):
    return a & ((1 << n) - 1)


def fdiv(a, b):
    if type(b) is Poly:
        return poly.inv(b) * a
    if b == 0:
        raise Unsupported("floating-point division by zero")
    from fractions import Fraction
    return a * (Fraction(1) / b)


# ---------------------------------------------------------------------------
class Module:
    def __init__(self, text, name="", track=False):
        self.name = name
        self.text = text
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.sigs = {}
        self.decls = set()
        self.track = track
        self._parse()

    def _parse(self):
        lines = self.text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith("%") and " = type " in ln:
                nm, body = ln.split(" = type ", 1)
                m = re.match(r"\{(.*)\}\s*$", body.strip())
                if m:
                    self.types[nm.strip()] = split_args(m.group(1).strip())
            elif ln.startswith("@"):
                self.globals[ln.split(" = ", 1)[0].strip()] = ln.split(" = ", 1)[1]
            elif ln.startswith("declare "):
                m = re.search(r"@([\w.]+)\(", ln)
                if m:
                    self.decls.add(m.group(1))
            elif ln.startswith("define "):
                j = i
                body = []
                j += 1
                while lines[j] != "}":
                    body.append(lines[j])
                    j += 1
                m = re.search(r"@([\w.]+)\(", ln)
                fname = m.group(1)
                k = m.end() - 1
                e = match_paren(ln, k)
                params = []
                for p in split_args(ln[k + 1:e]):
                    ty, rest = take_type(p)
                    nm = re.findall(r"%[\w.]+", rest)
                    params.append((ty, nm[-1] if nm else None))
                if any(p[1] is None for p in params):
                    params = [(t, "%%%d" % q) for q, (t, _) in enumerate(params)]
                self.funcs[fname] = (params, body)
                self.sigs[fname] = [p[0] for p in params]
                i = j
            i += 1

    # -- code generation ----------------------------------------------------
    def python(self, fname):
        params, body = self.funcs[fname]
        cg = CodeGen(self, fname, params, body)
        return cg.emit()


class CodeGen:
    def __init__(self, mod, fname, params, body):
        self.mod, self.fname, self.params = mod, fname, params
        self.blocks = []           # (label, [instr])
        cur = None
        nparams = sum(1 for _ in params)
        pending = None
        for ln in body:
            if not ln.strip() or ln.lstrip().startswith(";"):
                continue
            m = re.match(r"([\w.\-$\"]+):", ln)
            if m:
                cur = (m.group(1), [])
                self.blocks.append(cur)
                continue
            if cur is None:
                cur = ("%entry", [])
                self.blocks.append(cur)
            s = ln.strip()
            if pending is not None:
                pending += " " + s
                if s.startswith("]"):
                    cur[1].append(strip_meta(pending))
                    pending = None
                continue
            if s.startswith("switch") and s.endswith("["):
                pending = s
                continue
            cur[1].append(strip_meta(s))
        # label of the entry block is the next unnamed number
        if self.blocks and self.blocks[0][0] == "%entry":
            nums = [int(p[1][1:]) for p in params if re.match(r"%\d+$", p[1])]
            self.blocks[0] = (str(max(nums) + 1) if nums else "0", self.blocks[0][1])
        self.idx = {lab: k for k, (lab, _) in enumerate(self.blocks)}
        self.out = []
        self.gl = {}

    def v(self, tok, ty=None):
        tok = tok.strip()
        if tok.startswith("%"):
            return "v_" + re.sub(r"\W", "_", tok[1:])
        if tok in ("true",):
            return "True"
        if tok in ("false",):
            return "False"
        if tok in ("null", "zeroinitializer"):
            return "0"
        if tok in ("undef", "poison"):
            return "0"
        if tok.startswith("@"):
            nm = tok[1:]
            if nm in self.mod.funcs or nm in self.mod.decls:
                return repr(nm)
            return "G(%r, %r)" % (self.mod.name, nm)
        if ty in ("double", "float") or re.match(r"0x[0-9A-F]+$", tok) or "e+" in tok or "e-" in tok:
            if tok.startswith("0x"):
                x = struct.unpack(">d", bytes.fromhex(tok[2:].zfill(16)))[0]
            else:
                x = float(tok)
            if ty == "float":
                r = rat_f32(x)
            else:
                r = rat(x)
            if type(r) is int:
                return "(%d)" % r
            return "F(%d,%d)" % (r.numerator, r.denominator)
        if re.match(r"-?\d+$", tok):
            return "(%s)" % tok
        m = re.match(r"getelementptr\s+(?:inbounds\s+)?(?:nuw\s+)?\((.*)\)$", tok)
        if m:
            return self.gep_expr(split_args(m.group(1)))
        raise Unsupported("operand %r" % tok)

    def gep_expr(self, parts):
        ty = parts[0].strip()
        pt, base = take_type(parts[1])
        base = strip_attrs(base)
        e = self.v(base)
        cur = ty
        first = True
        terms = []
        for p in parts[2:]:
            it, iv = take_type(p)
            if first:
                sz = type_size(cur, self.mod.types)
                first = False
            else:
                m = re.match(r"\[(\d+) x (.*)\]$", cur)
                if m:
                    cur = m.group(2)
                    sz = type_size(cur, self.mod.types)
                else:
                    fields = self.mod.types.get(cur)
                    if fields is None:
                        m = re.match(r"\{(.*)\}$", cur)
                        fields = split_args(m.group(1))
                    k = int(iv)
                    offs, _ = struct_layout(fields, self.mod.types)
                    terms.append(str(offs[k]))
                    cur = fields[k]
                    continue
            if re.match(r"-?\d+$", iv):
                k = int(iv) * sz
                if k:
                    terms.append("(%d)" % k)
            else:
                terms.append("%s*%d" % (self.v(iv), sz) if sz != 1 else self.v(iv))
        return "+".join([e] + terms)

    def mem(self, ty):
        k = SIZES.get(ty)
        if ty == "float":
            return "M4", 2
        if k == 8:
            return "M8", 3
        if k == 4:
            return "M4", 2
        if k == 1:
            return "M1", 0
        raise Unsupported("memory access of type " + ty)

    def goto(self, frm, to, ind):
        """phi assignments for edge frm->to, then the jump"""
        lhs, rhs = [], []
        for s in self.blocks[self.idx[to]][1]:
            m = re.match(r"(%[\w.]+) = phi (?:\w+ )*?(\S+|\[.*?\]) (\[.*)$", s)
            if not m or " = phi " not in s:
                break
            ty, rest = take_type(re.sub(r"^(fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+", "",
                                        s.split(" = phi ", 1)[1]))
            for pair in re.findall(r"\[\s*(.*?),\s*%([\w.\-$\"]+)\s*\]", rest):
                if pair[1] == frm:
                    lhs.append(self.v(m.group(1)))
                    rhs.append(self.v(pair[0], ty))
                    break
            else:
                raise Unsupported("phi without edge %s" % frm)
        o = []
        if lhs:
            keep = [(a, b) for a, b in zip(lhs, rhs) if a != b]
            if keep:
                o.append(ind + ", ".join(a for a, _ in keep) + " = " +
                         ", ".join(b for _, b in keep))
        o.append(ind + "b = %d" % self.idx[to])
        return o

    def emit(self):
        pre = ["def f(rt, %s):" % ", ".join(self.v(p[1]) for p in self.params)
               if self.params else "def f(rt):",
               " M8=rt.M8; M4=rt.M4; M1=rt.M1; G=rt.glob; CALL=rt.call",
               " AL=[]", " try:", "  b = 0", "  while True:"]
        chunks = [self.block(k) for k in range(len(self.blocks))]
        body = self.tree(chunks, 0, len(chunks), 3)
        post = [" finally:", "  for _r in AL: rt.drop(_r>>%d)" % SHIFT]
        return "\n".join(pre + body + post)

    def tree(self, chunks, lo, hi, ind):
        pad = " " * ind
        if hi - lo == 1:
            return [pad + x for x in chunks[lo]]
        mid = (lo + hi) // 2
        return ([pad + "if b < %d:" % mid] + self.tree(chunks, lo, mid, ind + 1) +
                [pad + "else:"] + self.tree(chunks, mid, hi, ind + 1))

    def block(self, k):
        lab, ins = self.blocks[k]
        out = []
        if k == len(self.blocks):
            return ["pass"]
        for s in ins:
            try:
                out += self.instr(s, lab)
            except Unsupported as e:
                out.append("raise Unsupported(%r)" % ("%s: %s" % (e, s[:160])))
        return out or ["pass"]

    def instr(self, s, lab):
        m = re.match(r"(%[\w.]+) = (.*)$", s)
        if m:
            dst, rest = self.v(m.group(1)), m.group(2)
        else:
            dst, rest = None, s
        op, _, a = rest.partition(" ")
        a = a.strip()
        if op == "tail" or op == "musttail" or op == "notail":
            op, _, a = a.partition(" ")
            a = a.strip()
        if op == "phi":
            return []
        if op in ("add", "sub", "mul", "shl", "and", "or", "xor", "sdiv", "udiv",
                  "srem", "urem", "ashr", "lshr"):
            flags = set()
            while True:
                m = re.match(r"(nsw|nuw|exact|disjoint)\s+(.*)$", a)
                if not m:
                    break
                flags.add(m.group(1))
                a = m.group(2)
            ty, rest = take_type(a)
            x, y = split_args(rest)
            x, y = self.v(x), self.v(y)
            n = int(ty[1:])
            if n == 1:
                o = {"and": "&", "or": "|", "xor": "^", "add": "^", "sub": "^",
                     "mul": "&"}[op]
                return ["%s = %s %s %s" % (dst, x, o, y)]
            if op in BINI:
                e = "%s %s %s" % (x, BINI[op], y)
                if "nsw" not in flags:
                    e = "sN(%s, %d)" % (e, n)
            elif op == "shl":
                e = "%s << %s" % (x, y)
                if "nsw" not in flags:
                    e = "sN(%s, %d)" % (e, n)
            elif op in ("and", "or", "xor"):
                e = "%s %s %s" % (x, {"and": "&", "or": "|", "xor": "^"}[op], y)
            elif op == "sdiv":
                e = "sdiv(%s, %s)" % (x, y)
            elif op == "srem":
                e = "srem(%s, %s)" % (x, y)
            elif op == "udiv":
                e = "sN(udiv(u(%s,%d), u(%s,%d)), %d)" % (x, n, y, n, n)
            elif op == "urem":
                e = "sN(urem(u(%s,%d), u(%s,%d)), %d)" % (x, n, y, n, n)
            elif op == "ashr":
                e = "%s >> %s" % (x, y)
            else:
                e = "sN(u(%s,%d) >> %s, %d)" % (x, n, y, n)
            return ["%s = %s" % (dst, e)]
        if op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "frem"):
            a = re.sub(r"^((fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+)+", "", a)
            ty, rest = take_type(a)
            if ty not in ("double", "float"):
                raise Unsupported("float op on " + ty)
            ops = [self.v(x, ty) for x in split_args(rest)]
            if op == "fneg":
                return ["%s = -%s" % (dst, ops[0])]
            if op == "fdiv":
                return ["%s = fdiv(%s, %s)" % (dst, ops[0], ops[1])]
            if op == "frem":
                raise Unsupported("frem")
            return ["%s = %s %s %s" % (dst, ops[0], BINF[op], ops[1])]
        if op == "icmp":
            a = re.sub(r"^samesign\s+", "", a)
            pred, _, rest = a.partition(" ")
            ty, rest = take_type(rest)
            x, y = split_args(rest)
            x, y = self.v(x), self.v(y)
            n = 64 if ty == "ptr" else int(ty[1:])
            o = {"eq": "==", "ne": "!=", "gt": ">", "ge": ">=", "lt": "<",
                 "le": "<="}
            if pred in ("eq", "ne"):
                return ["%s = %s %s %s" % (dst, x, o[pred], y)]
            if pred[0] == "s":
                return ["%s = %s %s %s" % (dst, x, o[pred[1:]], y)]
            return ["%s = u(%s,%d) %s u(%s,%d)" % (dst, x, n, o[pred[1:]], y, n)]
        if op == "fcmp":
            a = re.sub(r"^((fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+)+", "", a)
            pred, _, rest = a.partition(" ")
            ty, rest = take_type(rest)
            x, y = [self.v(q, ty) for q in split_args(rest)]
            return ["%s = rt.fcmp(%r, %s, %s)" % (dst, pred, x, y)]
        if op == "getelementptr":
            a = re.sub(r"^((inbounds|nuw|nusw)\s+)+", "", a)
            return ["%s = %s" % (dst, self.gep_expr(split_args(a)))]
        if op == "load":
            a = re.sub(r"^volatile\s+", "", a)
            parts = split_args(a)
            ty = parts[0]
            _, p = take_type(parts[1])
            p = self.v(strip_attrs(p))
            M, sh = self.mem(ty)
            o = []
            if self.mod.track:
                o.append("TR(rt, 0, %s, %d)" % (p, SIZES[ty]))
            off = "(%s&%d)>>%d" % (p, MASK, sh) if sh else "(%s&%d)" % (p, MASK)
            o.append("%s = %s[%s>>%d][%s]" % (dst, M, p, SHIFT, off))
            return o
        if op == "store":
            a = re.sub(r"^volatile\s+", "", a)
            parts = split_args(a)
            ty, val = take_type(parts[0])
            _, p = take_type(parts[1])
            p = self.v(strip_attrs(p))
            M, sh = self.mem(ty)
            o = []
            if self.mod.track:
                o.append("TR(rt, 1, %s, %d)" % (p, SIZES[ty]))
            off = "(%s&%d)>>%d" % (p, MASK, sh) if sh else "(%s&%d)" % (p, MASK)
            o.append("%s[%s>>%d][%s] = %s" % (M, p, SHIFT, off, self.v(val, ty)))
            return o
        if op == "alloca":
            a = re.sub(r"^inalloca\s+", "", a)
            parts = split_args(a)
            ty = parts[0]
            n = "1"
            if len(parts) > 1 and not parts[1].startswith(("align", "addrspace")):
                n = self.v(take_type(parts[1])[1])
            return ["%s = rt.alloca(%r, %s, %d); AL.append(%s)" %
                    (dst, ty, n, type_size(ty, self.mod.types), dst)]
        if op == "br":
            if a.startswith("label"):
                to = re.match(r"label %([\w.\-$\"]+)", a).group(1)
                return self.goto(lab, to, "")
            m = re.match(r"i1 (\S+), label %([\w.\-$\"]+), label %([\w.\-$\"]+)", a)
            c = self.v(m.group(1))
            return (["if %s:" % c] + self.goto(lab, m.group(2), " ") + ["else:"] +
                    self.goto(lab, m.group(3), " "))
        if op == "switch":
            m = re.match(r"(\w+) (\S+), label %([\w.\-$\"]+) \[(.*)\]", a)
            val = self.v(m.group(2))
            o = []
            first = True
            for cv, to in re.findall(r"\w+ (-?\d+), label %([\w.\-$\"]+)", m.group(4)):
                o.append("%s %s == %s:" % ("if" if first else "elif", val, cv))
                o += self.goto(lab, to, " ")
                first = False
            if first:
                return self.goto(lab, m.group(3), "")
            o.append("else:")
            return o + self.goto(lab, m.group(3), " ")
        if op == "ret":
            if a == "void":
                return ["return None"]
            ty, val = take_type(a)
            return ["return %s" % self.v(val, ty)]
        if op == "unreachable":
            return ["raise MemError('unreachable code reached')"]
        if op == "select":
            a = re.sub(r"^((fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+)+", "", a)
            c, x, y = split_args(a)
            _, c = take_type(c)
            tx, x = take_type(x)
            ty_, y = take_type(y)
            if tx in ("double", "float"):
                return ["%s = rt.select(%s, %s, %s)" % (dst, self.v(c), self.v(x, tx), self.v(y, ty_))]
            return ["%s = %s if %s else %s" % (dst, self.v(x, tx), self.v(c), self.v(y, ty_))]
        if op in ("zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui",
                  "fpext", "fptrunc", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            a = re.sub(r"^((nneg|nuw|nsw)\s+)+", "", a)
            ty, rest = take_type(a)
            if op == "freeze":
                return ["%s = %s" % (dst, self.v(rest, ty))]
            m = re.match(r"(.*) to (.*)$", rest)
            x, to = self.v(m.group(1), ty), m.group(2).strip()
            if op == "zext":
                if ty == "i1":
                    return ["%s = int(%s)" % (dst, x)]
                return ["%s = u(%s,%d)" % (dst, x, int(ty[1:]))]
            if op == "sext":
                if ty == "i1":
                    return ["%s = -int(%s)" % (dst, x)]
                return ["%s = %s" % (dst, x)]
            if op == "trunc":
                if to == "i1":
                    return ["%s = %s & 1" % (dst, x)]
                return ["%s = sN(%s,%d)" % (dst, x, int(to[1:]))]
            if op == "uitofp":
                return ["%s = u(%s,%d)" % (dst, x, int(ty[1:]) if ty != "i1" else 1)]
            if op in ("sitofp", "ptrtoint", "inttoptr", "fpext", "fptrunc"):
                return ["%s = %s" % (dst, x)]
            if op in ("fptosi", "fptoui"):
                return ["%s = rt.fptoi(%s, %r)" % (dst, x, to)]
            if op == "bitcast" and ty == to:
                return ["%s = %s" % (dst, x)]
            raise Unsupported(op + " " + ty + " to " + to)
        if op == "call":
            a = re.sub(r"^((fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|noundef|noalias|zeroext|signext|nonnull|fastcc)\s+)+", "", a)
            a = re.sub(r"^(dereferenceable(_or_null)?\(\d+\)|range\([^()]*\)|align \d+)\s+", "", a)
            rty, rest = take_type(a)
            rest = rest.strip()
            if rest.startswith("("):
                e = match_paren(rest, 0)
                rest = rest[e + 1:].strip()
            m = re.match(r"@([\w.]+)\(", rest)
            if not m:
                raise Unsupported("indirect call")
            callee = m.group(1)
            k = m.end() - 1
            e = match_paren(rest, k)
            args = []
            for p in split_args(rest[k + 1:e]):
                ty, val = take_type(p)
                if ty == "metadata":
                    continue
                val = strip_attrs(val)
                args.append((ty, self.v(val, ty)))
            return self.call(dst, callee, args)
        if op == "fence":
            return []
        raise Unsupported("instruction " + op)

    def call(self, dst, callee, args):
        A = [x for _, x in args]
        asg = (dst + " = ") if dst else ""
        c = callee
        if c.startswith(("llvm.lifetime", "llvm.experimental.noalias", "llvm.assume",
                         "llvm.dbg", "llvm.invariant", "llvm.donothing")):
            return []
        if c.startswith("llvm.smin."):
            return ["%smin(%s, %s)" % (asg, *A)]
        if c.startswith("llvm.smax."):
            return ["%smax(%s, %s)" % (asg, *A)]
        if c.startswith(("llvm.umin.", "llvm.umax.")):
            n = int(c.split(".i")[-1])
            return ["%ssN(%s(u(%s,%d), u(%s,%d)),%d)" % (asg, "min" if "umin" in c else "max",
                                                       A[0], n, A[1], n, n)]
        if c.startswith("llvm.abs."):
            return ["%sabs(%s)" % (asg, A[0])]
        if c.startswith("llvm.fmuladd") or c.startswith("llvm.fma."):
            return ["%s%s*%s + %s" % (asg, *A)]
        if c.startswith(("llvm.memcpy", "llvm.memmove")) or c in ("memcpy", "memmove"):
            o = []
            if self.mod.track:
                o += ["TR(rt, 0, %s, %s)" % (A[1], A[2]), "TR(rt, 1, %s, %s)" % (A[0], A[2])]
            return o + ["rt.memcpy(%s, %s, %s)" % tuple(A[:3])] + \
                ([asg + A[0]] if dst else [])
        if c.startswith("llvm.memset") or c == "memset":
            o = []
            if self.mod.track:
                o += ["TR(rt, 1, %s, %s)" % (A[0], A[2])]
            return o + ["rt.memset(%s, %s, %s)" % tuple(A[:3])] + ([asg + A[0]] if dst else [])
        if c == "__kmpc_global_thread_num" or c == "omp_get_thread_num":
            return ["%srt.tid" % asg] if dst else []
        if c == "omp_get_num_threads":
            return ["%srt.nthreads" % asg]
        if c in ("omp_get_max_threads",):
            return ["%smax(1, rt.push)" % asg]
        if c == "__kmpc_push_num_threads":
            return ["rt.push = %s" % A[2]]
        if c == "__kmpc_fork_call":
            return ["rt.fork(%s, [%s])" % (A[2], ", ".join(A[3:]))]
        if c.startswith("__kmpc_for_static_init_"):
            M = "M8" if "_8" in c else "M4"
            return ["rt.static_init(%s, %s, %s, %s, %s)" % (A[3], A[4], A[5], A[6], M)]
        if c.startswith("__kmpc_for_static_fini") or c.startswith("__kmpc_barrier"):
            return []
        if c in ("fopen", "fclose", "fseek", "fwrite", "fread", "malloc"):
            o = []
            if self.mod.track and c == "fwrite":
                o.append("TR(rt, 0, %s, %s*%s)" % (A[0], A[1], A[2]))
            if self.mod.track and c == "fread":
                o.append("TR(rt, 1, %s, %s*%s)" % (A[0], A[1], A[2]))
            return o + ["%srt.%s(%s)" % (asg, c, ", ".join(A))]
        if c in ("fseeko", "fseeko64"):
            return ["%srt.fseek(%s)" % (asg, ", ".join(A))]
        if c == "calloc":
            return ["%srt.malloc(%s*%s, True)" % (asg, A[0], A[1])]
        if c == "free":
            return ["rt.drop(%s>>%d)" % (A[0], SHIFT)]
        if c.startswith("llvm.fabs") or c in ("fabs", "fabsf"):
            return ["%s(%s if rt.fcmp('oge', %s, 0) else -%s)" % (asg, A[0], A[0], A[0])]
        if c.startswith(("llvm.maxnum", "llvm.minnum")) or c in ("fmax", "fmin", "fmaxf", "fminf"):
            g = "oge" if "max" in c else "ole"
            return ["%s(%s if rt.fcmp(%r, %s, %s) else %s)" % (asg, A[0], g, A[0], A[1], A[1])]
        return ["%sCALL(%r)(rt%s)" % (asg, c, "".join(", " + x for x in A))]


def rat_f32(x):
    """simplest rational that rounds to the float32 value x (x given as double)"""
    from fractions import Fraction
    f = Fraction(x)
    if f.denominator != 1:
        import numpy as np
        g = f.limit_denominator(100000)
        if float(np.float32(float(g))) == x:
            f = g
    return f.numerator if f.denominator == 1 else f


def TR(rt, w, addr, n):
    t = rt.track
    if t is not None and rt.in_par():
        if addr >> SHIFT >= rt.local:
            return
        if n % 8 == 0 and addr % 8 == 0:
            for k in range(n >> 3):
                t.add((rt.epoch, rt.it, rt.tid, w, addr + 8 * k))
        else:
            t.add((rt.epoch, rt.it, rt.tid, w, addr & ~7))
            t.add((rt.epoch, rt.it, rt.tid, w, (addr + max(n, 1) - 1) & ~7))


class Linked:
    """several modules linked together, functions translated on first use"""

    def __init__(self, modules):
        self.mods = modules
        self.where = {}
        for m in modules:
            for f in m.funcs:
                self.where[f] = m
        self.cache = {}
        self.srcs = {}
        self.encoded = []

    def sig(self, f):
        return self.where[f].sigs[f]

    def __contains__(self, f):
        return f in self.where

    def __getitem__(self, f):
        r = self.cache.get(f)
        if r is None:
            m = self.where.get(f)
            if m is None:
                raise Unsupported("call to unknown function " + f)
            src = m.python(f)
            ns = {"sN": sN, "u": u, "sdiv": sdiv, "srem": srem, "fdiv": fdiv,
                  "udiv": _udiv, "urem": _urem, "Unsupported": Unsupported,
                  "MemError": MemError, "TR": TR}
            from fractions import Fraction
            ns["F"] = _frac
            exec(compile(src, "<ir:%s>" % f, "exec"), ns)
            r = ns["f"]
            self.cache[f] = r
            self.encoded.append(f)
        return r

    def attach(self, rt):
        rt.linked = self
        globs = {}

        def G(mod, name):
            k = (mod, name)
            if k not in globs:
                globs[k] = make_global(rt, self, mod, name)
            return globs[k]
        rt.glob = G

        def CALL(name):
            o = rt.overrides.get(name)
            if o is None:
                for pat, fn in rt.override_pat:
                    if pat.match(name):
                        o = fn(name)
                        rt.overrides[name] = o
                        break
            return o or self[name]
        rt.call = CALL
        rt.override_pat = getattr(rt, "override_pat", [])


_FR = {}


def _frac(n, d):
    k = (n, d)
    r = _FR.get(k)
    if r is None:
        from fractions import Fraction
        r = _FR[k] = Fraction(n, d)
    return r


def _udiv(a, b):
    if b == 0:
        raise MemError("integer division by zero")
    return a // b


def _urem(a, b):
    if b == 0:
        raise MemError("integer division by zero")
    return a % b


def make_global(rt, linked, mod, name):
    m = [x for x in linked.mods if x.name == mod][0]
    body = m.globals.get("@" + name)
    if body is None:
        raise Unsupported("global @%s" % name)
    mm = re.search(r"\b(?:global|constant)\s+(.*)$", body)
    ty, rest = take_type(mm.group(1))
    a = re.match(r"\[(\d+) x (\w+)\]$", ty)
    if a and a.group(2) == "i8":
        s = re.match(r'c"(.*?)"', rest)
        if s:
            raw = s.group(1)
            bs, j = [], 0
            while j < len(raw):
                if raw[j] == "\\":
                    bs.append(int(raw[j + 1:j + 3], 16))
                    j += 3
                else:
                    bs.append(ord(raw[j]))
                    j += 1
        else:
            bs = [0] * int(a.group(1))
        return rt.new_region("@" + name, len(bs), "1", bs).rid << SHIFT
    if ty.startswith("%struct.ident_t"):
        return rt.new_region("@" + name, 24, "8", [0, 0, 0]).rid << SHIFT
    cg = CodeGen(m, "g", [], [])

    def flat(ty, rest):
        a = re.match(r"\[(\d+) x (.*)\]$", ty)
        if a:
            if rest.startswith("zeroinitializer"):
                n = type_size(ty, m.types) // type_size(base(ty), m.types)
                return [0] * n
            body = rest[1:rest.rindex("]")]
            out = []
            for p in split_args(body):
                t2, r2 = take_type(p)
                out += flat(t2, r2)
            return out
        tok = split_args(rest)[0] if rest else "0"
        return [eval(cg.v(tok, ty), {"F": _frac})]

    def base(ty):
        a = re.match(r"\[(\d+) x (.*)\]$", ty)
        return base(a.group(2)) if a else ty
    vals = flat(ty, rest)
    b = base(ty)
    kind = {8: "8", 4: "4", 1: "1"}[SIZES[b]]
    return rt.new_region("@" + name, SIZES[b] * len(vals), kind, vals).rid << SHIFT
