"""Symbolic execution of integer- and real-valued Python code.

`explore(decl, run, check)` runs `run` once per feasible path: numbers (and
entries of int64 tensors) are symbolic, every branch on them asks z3 which
directions are feasible and the exploration re-runs the code for each.  At the
end of a path `check` states what must hold there; z3 decides it for all values
that take the path.

* Python scalars: Num objects holding a z3 Int or Real.  The modules of the code
  under test see shadows of int / float / math that understand them (isinstance
  included).
* int64 tensors are real tensors whose symbolic entries are marks (a high bit
  pattern plus an index); a dispatch mode evaluates arithmetic and comparisons
  on them.  Comparisons fork, so their results are ordinary bool tensors.
"""
import builtins
import math
import sys
import time
from fractions import Fraction

_Z = None


def z3():
    global _Z
    if _Z is None:
        p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
        if p not in sys.path:
            sys.path.append(p)
        import z3 as _z
        _Z = _z
    return _Z


class Unsupported(Exception):
    pass


class Cut(BaseException):
    """stops the code under test at a point of interest"""

    def __init__(self, value):
        self.value = value


class Budget(Exception):
    pass


EX = None      # the current explorer


# ------------------------------------------------------------------ explorer
class Explorer:
    def __init__(self, max_paths=20000, timeout_ms=20000):
        z = z3()
        self.s = z.Solver()
        self.s.set("timeout", timeout_ms)
        self.work = [[]]
        self.stats = dict(paths=0, queries=0, unknown=0, solver_s=0.0, asserted=0)
        self.max_paths = max_paths
        self.fresh = 0

    def start(self, prefix, assume):
        self.prefix, self.trace = prefix, []
        self.s.reset()
        self.fresh = 0
        for a in assume:
            self.s.add(a)

    def sat(self, *extra):
        z = z3()
        t = time.time()
        self.stats["queries"] += 1
        r = self.s.check(*extra)
        self.stats["solver_s"] += time.time() - t
        if r == z.unknown:
            self.stats["unknown"] += 1
        return r

    def local(self, c):
        """c with only those assumptions that mention nothing but its own
        variables (fewer assumptions: unsat carries over)"""
        z = z3()

        def names(e, out, seen):
            if e.get_id() in seen:
                return out
            seen.add(e.get_id())
            if z.is_const(e) and e.decl().kind() == z.Z3_OP_UNINTERPRETED:
                out.add(e.decl().name())
            for x in e.children():
                names(x, out, seen)
            return out
        own = names(c, set(), set())
        t = time.time()
        parts = []
        todo = list(self.s.assertions())
        while todo:
            a = todo.pop()
            if z.is_and(a):
                todo += a.children()
            else:
                parts.append(a)
        r = z.unknown
        for mk in (z.Solver, lambda: z.Tactic("qfnra-nlsat").solver()):
            s = mk()
            s.set("timeout", 30000)
            s.add(*[a for a in parts if names(a, set(), set()) <= own])
            s.add(c)
            self.stats["queries"] += 1
            try:
                r = s.check()
            except z.Z3Exception:
                r = z.unknown
            if r == z.unsat:
                break
        self.stats["solver_s"] += time.time() - t
        return r

    def add(self, c):
        self.s.add(c)

    def fork(self, c):
        z = z3()
        c = z.simplify(c)
        if z.is_true(c):
            return True
        if z.is_false(c):
            return False
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            t = self.sat(c) != z.unsat
            f = self.sat(z.Not(c)) != z.unsat
            if t and f:
                self.work.append(self.trace + [False])
            v = t
        self.trace.append(v)
        self.s.add(c if v else z.Not(c))
        return v

    def value(self, e, limit=400):
        """the value of an int term, one path per value"""
        z = z3()
        e = z.simplify(e)
        for _ in range(limit):
            if z.is_int_value(e):
                return e.as_long()
            k = len(self.trace)
            if k < len(self.prefix) and isinstance(self.prefix[k], tuple):
                v = self.prefix[k]
                self.trace.append(v)
                neg, val = v
                if neg:
                    self.s.add(e != val)
                    continue
                self.s.add(e == val)
                return val
            if self.sat() != z.sat:
                raise Unsupported("cannot concretise")
            val = self.s.model().eval(e, model_completion=True).as_long()
            if self.sat(e != val) != z.unsat:
                self.work.append(self.trace + [(True, val)])
            self.trace.append((False, val))
            self.s.add(e == val)
            return val
        raise Unsupported("a number that must be concrete has too many values")

    def new_int(self, why):
        self.fresh += 1
        return z3().Int("%s!%d" % (why, self.fresh))

    def new_real(self, why):
        self.fresh += 1
        return z3().Real("%s!%d" % (why, self.fresh))


# ------------------------------------------------------------------ numbers
def rat(x):
    """exact z3 real for a Python number (floats by their simplest rational)"""
    z = z3()
    if isinstance(x, Fraction):
        return z.RealVal(str(x))
    if isinstance(x, float):
        from .poly import rat as prat
        return z.RealVal(str(Fraction(prat(x))))
    return z.RealVal(x)


def is_sym(x):
    return isinstance(x, (Num, SymBool)) or (_Z is not None and isinstance(x, _Z.ExprRef))


def term(x):
    """z3 term of a number / bool"""
    z = z3()
    if isinstance(x, (Num, SymBool)):
        return x.t
    if isinstance(x, z.ExprRef):
        return x
    if isinstance(x, bool):
        return z.BoolVal(x)
    if isinstance(x, builtins.int):
        return z.IntVal(x)
    return rat(x)


def _isint(t):
    return z3().is_int(t)


def _pair(a, b):
    z = z3()
    ta, tb = term(a), term(b)
    for k, t in enumerate((ta, tb)):
        if z.is_bool(t):
            t = z.If(t, z.IntVal(1), z.IntVal(0))
            if k:
                tb = t
            else:
                ta = t
    if _isint(ta) and _isint(tb):
        return ta, tb, True
    return (z.ToReal(ta) if _isint(ta) else ta), (z.ToReal(tb) if _isint(tb) else tb), False


class SymBool:
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return EX.fork(self.t)

    def __and__(self, o):
        return SymBool(z3().And(self.t, term(o)))

    def __or__(self, o):
        return SymBool(z3().Or(self.t, term(o)))

    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return SymBool(z3().Not(self.t))

    def __eq__(self, o):
        return SymBool(self.t == term(o))

    def __ne__(self, o):
        return SymBool(self.t != term(o))

    __hash__ = None


def num(t):
    z = z3()
    t = z.simplify(t)
    if z.is_int_value(t):
        return t.as_long()
    return Num(t)


_NUMERIC = (builtins.int, builtins.float, Fraction)


def _special(o):
    return isinstance(o, float) and (math.isinf(o) or math.isnan(o))


class Num:
    """a symbolic int or real"""

    def __init__(self, t):
        self.t = t

    @property
    def is_int(self):
        return _isint(self.t)

    def _ok(self, o):
        if type(o).__module__ == "numpy":
            raise Unsupported("symbolic number with a numpy value")
        return isinstance(o, (Num, SymBool) + _NUMERIC) and not _special(o)

    def _bin(self, o, f, rev=False):
        if _special(o):
            raise Unsupported("arithmetic with %r" % o)
        if not self._ok(o):
            return NotImplemented
        a, b, i = _pair(self, o)
        return num(f(b, a) if rev else f(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def _div(self, a, b):
        z = z3()
        a, b, _ = _pair(a, b)
        if EX.fork(b == 0):
            raise ZeroDivisionError("division by zero")
        if _isint(a):
            a, b = z.ToReal(a), z.ToReal(b)
        return num(a / b)

    def __truediv__(self, o):
        return self._div(self, o) if self._ok(o) else NotImplemented

    def __rtruediv__(self, o):
        if _special(o):
            raise Unsupported("arithmetic with %r" % o)
        return self._div(o, self) if self._ok(o) else NotImplemented

    def _fdiv(self, a, b):
        z = z3()
        a, b, i = _pair(a, b)
        if EX.fork(b == 0):
            raise ZeroDivisionError("division by zero")
        if not i:
            q = z.ToReal(z.ToInt(a / b))
        elif EX.fork(b > 0):
            q = a / b
        else:
            q = (-a) / (-b)
        return num(q), num(a - q * b)

    def __floordiv__(self, o):
        return self._fdiv(self, o)[0] if self._ok(o) else NotImplemented

    def __rfloordiv__(self, o):
        return self._fdiv(o, self)[0] if self._ok(o) else NotImplemented

    def __mod__(self, o):
        return self._fdiv(self, o)[1] if self._ok(o) else NotImplemented

    def __rmod__(self, o):
        return self._fdiv(o, self)[1] if self._ok(o) else NotImplemented

    def __divmod__(self, o):
        return self._fdiv(self, o)

    def __pow__(self, o):
        z = z3()
        if isinstance(o, Num):
            raise Unsupported("symbolic exponent")
        if o == 0.5:
            return sqrt(self)
        if o == builtins.int(o):
            n = builtins.int(o)
            r = z.IntVal(1) if self.is_int and not isinstance(o, float) else z.RealVal(1)
            for _ in range(abs(n)):
                r = r * self.t
            if n < 0:
                return num(z.RealVal(1)) / num(r)
            return num(r)
        raise Unsupported("power %r" % (o,))

    def __neg__(self):
        return num(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return num(z3().If(self.t >= 0, self.t, -self.t))

    def _cmp(self, o, f):
        if isinstance(o, float) and math.isinf(o):
            return f(0, 1) if o > 0 else f(1, 0)
        if isinstance(o, float) and math.isnan(o):
            return f(0, math.nan)
        if not self._ok(o):
            return NotImplemented
        a, b, _ = _pair(self, o)
        return SymBool(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __hash__(self):
        if not self.is_int:
            raise TypeError("unhashable: a symbolic real")
        return hash(EX.value(self.t))

    def __bool__(self):
        return EX.fork(self.t != 0)

    def __index__(self):
        if not self.is_int:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return EX.value(self.t)

    def __int__(self):
        return EX.value(as_int(self).t) if is_sym(as_int(self)) else as_int(self)

    def __float__(self):
        raise Unsupported("float() of a symbolic number outside the shadowed modules")

    def __floor__(self):
        if not self.is_int and SPLIT:
            return EX.value(z3().ToInt(self.t))
        return self if self.is_int else num(z3().ToInt(self.t))

    def __ceil__(self):
        return self if self.is_int else num(-z3().ToInt(-self.t))

    def __trunc__(self):
        return as_int(self)

    def __round__(self, nd=None):
        if self.is_int:
            return self
        if nd is not None:
            raise Unsupported("round to digits")
        z = z3()
        k = z.ToInt(self.t + z.Q(1, 2))              # ties go to the even neighbour
        return num(z.If(z.And(z.ToReal(k) == self.t + z.Q(1, 2), k % 2 == 1), k - 1, k))

    def is_integer(self):
        return True if self.is_int else SymBool(z3().IsInt(self.t))

    def item(self):
        return self

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        raise Unsupported("%s with a symbolic number" % func)

    def __repr__(self):
        return "<symbolic>"

    def __format__(self, spec):
        z = z3()
        if self.is_int and EX is not None and EX.sat() == z.sat:
            v = EX.s.model().eval(self.t, model_completion=True)
            if EX.sat(self.t != v) == z.unsat:
                return format(v.as_long(), spec)
        return "<symbolic>"

    __str__ = lambda self: self.__format__("")


def sqrt(x):
    z = z3()
    if not is_sym(x):
        return math.sqrt(x)
    t = term(x)
    if _isint(t):
        t = z.ToReal(t)
    if EX.fork(t < 0):
        raise ValueError("math domain error")
    r = EX.new_real("sqrt")
    EX.add(z.And(r >= 0, r * r == t))
    return Num(r)


def as_int(x):
    z = z3()
    if isinstance(x, SymBool):
        return num(z.If(x.t, z.IntVal(1), z.IntVal(0)))
    if x.is_int:
        return x
    return num(z.If(x.t >= 0, z.ToInt(x.t), -z.ToInt(-x.t)))


# ------------------------------------------------------------------ shadows
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, Num) and x.is_int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class Int(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        x = _untensor(x)
        if isinstance(x, (Num, SymBool)):
            return as_int(x)
        return builtins.int(x, *a)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, Num) and not x.is_int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class Float(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        x = _untensor(x)
        if isinstance(x, Num):
            return num(z3().ToReal(x.t)) if x.is_int else x
        return builtins.float(x)


class Math:
    def __getattr__(self, n):
        return getattr(math, n)

    @staticmethod
    def sqrt(x):
        return sqrt(x)

    @staticmethod
    def ceil(x):
        return x.__ceil__() if isinstance(x, Num) else math.ceil(x)

    @staticmethod
    def floor(x):
        return x.__floor__() if isinstance(x, Num) else math.floor(x)

    @staticmethod
    def trunc(x):
        return as_int(x) if isinstance(x, Num) else math.trunc(x)

    @staticmethod
    def fabs(x):
        return abs(x) if isinstance(x, Num) else math.fabs(x)

    @staticmethod
    def isfinite(x):
        return True if isinstance(x, Num) else math.isfinite(x)

    @staticmethod
    def isnan(x):
        return False if isinstance(x, Num) else math.isnan(x)

    @staticmethod
    def isinf(x):
        return False if isinstance(x, Num) else math.isinf(x)

    @staticmethod
    def prod(xs, start=1):
        for x in xs:
            start = start * x
        return start

    @staticmethod
    def hypot(*xs):
        return sqrt(sum(x * x for x in xs))


def _type(x, *a):
    if not a and isinstance(x, Num):
        return Int if x.is_int else Float
    return builtins.type(x, *a)


class Shadow:
    """int, float and math of the deepwave modules"""

    def __enter__(self):
        self.undo = []
        mods = [m for n, m in list(sys.modules.items())
                if (n == "deepwave" or n.startswith("deepwave.")) and m is not None]
        m_ = Math()
        for m in mods:
            for k, v in (("int", Int), ("float", Float), ("math", m_)):
                if k == "math" and "math" not in vars(m):
                    continue
                self.undo.append((m, k, vars(m).get(k, self)))
                setattr(m, k, v)
        import torch

        def conc(x):
            if isinstance(x, Num) and x.is_int:
                return EX.value(x.t)
            if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
                return type(x)(conc(y) for y in x)
            return x

        def wrap(f):
            def g(*a, **k):
                return f(*conc(a), **{n: conc(v) for n, v in k.items()})
            return g

        def tensor(f):
            import numpy as np

            def g(x, *a, **k):
                y = np.array(x, dtype=object) if isinstance(x, (list, tuple, Num)) else None
                if REALS and y is not None and builtins.any(isinstance(v, Num) and not v.is_int for v in y.reshape(-1)):
                    return real_tensor(list(y.reshape(-1)), y.shape, k.get("dtype"))
                return f(x, *a, **k)
            return g
        self.undo.append((torch, "tensor", torch.tensor))
        torch.tensor = tensor(torch.tensor)
        for n in ("empty", "zeros", "ones", "full", "arange", "linspace", "tensor", "rand", "randn"):
            self.undo.append((torch, n, getattr(torch, n)))
            setattr(torch, n, wrap(getattr(torch, n)))
        return self

    def __exit__(self, *a):
        for m, k, v in reversed(self.undo):      # the latest first
            if v is self:
                delattr(m, k)
            else:
                setattr(m, k, v)


# ------------------------------------------------------------------ tensors
BASE = 0x7A5C << 48
TAB = []


def mark(x):
    if not is_sym(x):
        return builtins.int(x)
    z = z3()
    t = z.simplify(term(x))
    if z.is_int_value(t):
        return t.as_long()
    TAB.append(t)
    return BASE + len(TAB) - 1


def unmark(v):
    if v >= BASE and v - BASE < len(TAB):
        return Num(TAB[v - BASE])
    return v


RBASE = {8: 0x7FFC << 48, 4: 0x7FE00000}      # quiet NaNs with a payload


def _float(t):
    import torch
    return t.dtype in (torch.float64, torch.float32)


def _bits(t):
    import torch
    return t.detach().contiguous().reshape(-1).view(torch.int64 if t.dtype == torch.float64 else torch.int32).numpy()


def has_marks(t):
    import torch
    if not isinstance(t, torch.Tensor) or t.numel() == 0:
        return False
    if t.dtype == torch.int64:
        return bool((t.detach().numpy() >= BASE).any())
    if not REALS or not _float(t):
        return False
    b = RBASE[t.element_size()]
    v = _bits(t)
    return bool(((v > b) & (v <= b + len(RTAB))).any())


REALS = []     # not empty: float tensors may hold symbolic entries
RTAB = []


def cells(t):
    if not _float(t):
        return [unmark(v) for v in t.detach().reshape(-1).tolist()]
    b = RBASE[t.element_size()]
    n = len(RTAB)
    return [Num(RTAB[i - b - 1]) if b < i <= b + n else v
            for i, v in zip(_bits(t).tolist(), t.detach().reshape(-1).tolist())]


def real_tensor(a, shape, dtype=None):
    """float tensor of numbers, symbolic ones as marks"""
    import numpy as np
    import torch
    dtype = dtype or torch.float64
    a = list(a)
    t = torch.tensor([0.0 if is_sym(x) else float(x) for x in a], dtype=dtype)
    z = z3()
    v = t.numpy().view(np.int64 if dtype == torch.float64 else np.int32)
    for k, x in enumerate(a):
        if is_sym(x):
            y = term(x)
            if _isint(y):
                y = z.ToReal(y)
            y = z.simplify(y)
            if z.is_rational_value(y):
                t[k] = float(Fraction(y.numerator_as_long(), y.denominator_as_long()))
                continue
            RTAB.append(y)
            v[k] = RBASE[t.element_size()] + len(RTAB)
    return t.reshape(tuple(shape))


# -- numbers with the infinities and NaN of floating point -------------------
NAN, INF = builtins.float("nan"), builtins.float("inf")


def _sp(x):
    return isinstance(x, builtins.float) and (math.isnan(x) or math.isinf(x))


def _sign(x):
    """-1, 0 or 1 (forks)"""
    return 0 if bool(x == 0) else 1 if bool(x > 0) else -1


def _nan(x):
    return isinstance(x, builtins.float) and math.isnan(x)


def f_add(a, b):
    if _sp(a) or _sp(b):
        if _nan(a) or _nan(b):
            return NAN
        if _sp(a) and _sp(b):
            return a + b
        return a if _sp(a) else b
    return a + b


def f_mul(a, b):
    if _sp(a) or _sp(b):
        if _nan(a) or _nan(b):
            return NAN
        k = _sign(a) * _sign(b)
        return NAN if k == 0 else k * INF
    return a * b


def f_div(a, b):
    if _nan(a) or _nan(b):
        return NAN
    if _sp(b):
        return NAN if _sp(a) else 0.0
    if bool(b == 0):
        k = _sign(a)
        return NAN if k == 0 else k * INF
    if _sp(a):
        return _sign(a) * _sign(b) * INF
    return a / b


def f_neg(a):
    return -a


def f_cmp(op):
    def g(a, b):
        if _nan(a) or _nan(b):
            return op == "ne"
        if (_sp(a) or _sp(b)) and (is_sym(a) or is_sym(b)):
            x, y = (0.0 if is_sym(a) else a), (0.0 if is_sym(b) else b)
            return _CMP[op](x, y)
        return _CMP[op](a, b)
    return g


def f_pick(a, b, op):
    """maximum / minimum as torch does them (NaN wins)"""
    if _nan(a) or _nan(b):
        return NAN
    return a if bool(f_cmp(op)(a, b)) else b


def f_sqrt(a):
    if _sp(a):
        return a if _nan(a) or a > 0 else NAN
    if bool(a < 0):
        return NAN
    if OPAQUE_SQRT and is_sym(a):
        z = z3()
        return Num(z.Function("sqrt", z.RealSort(), z.RealSort())(z.simplify(z.ToReal(a.t) if a.is_int else a.t, som=True)))
    return sqrt(a)


SPLIT = []             # not empty: floor() gives a number, one path for each
OPAQUE_SQRT = []       # not empty: square roots of tensors are an uninterpreted function


def f_exp(a):
    if not is_sym(a):
        return NAN if _nan(a) else INF if a > 709 else math.exp(a)
    return exp(a)


def exp(a):
    z = z3()
    t = term(a)
    t = z.simplify(z.ToReal(t) if _isint(t) else t)
    f = z.Function("exp", z.RealSort(), z.RealSort())
    e = f(t)
    # consequences of monotonicity, convexity and exp(0) = 1
    EX.add(z.And(e > 0, e >= 1 + t, z.Implies(t < 0, e < 1), z.Implies(t > 0, e > 1), z.Implies(t == 0, e == 1)))
    return Num(e)


def f_abs(a):
    return abs(a)


def f_uninterpreted(name):
    """a function about which only congruence is known; numbers are computed"""
    def g(a):
        if not is_sym(a):
            import torch
            return getattr(torch, name)(torch.tensor(builtins.float(a), dtype=torch.float64)).item()
        z = z3()
        t = term(a)
        return Num(z.Function(name, z.RealSort(), z.RealSort())(z.simplify(z.ToReal(t) if _isint(t) else t, som=True)))
    return g


def f_real(a):
    return num(z3().ToReal(term(a))) if is_sym(a) else builtins.float(a)


def f_floor(a):
    return f_real(a.__floor__()) if is_sym(a) else builtins.float(math.floor(a))


def f_ceil(a):
    return num(z3().ToReal(term(a.__ceil__()))) if is_sym(a) else builtins.float(math.ceil(a))


def f_round(a):
    return num(z3().ToReal(term(a.__round__()))) if is_sym(a) else builtins.float(builtins.round(a))


def to_int(a):
    if is_sym(a):
        z = z3()
        return num(z.If(a.t >= 0, z.ToInt(a.t), -z.ToInt(-a.t)))
    return builtins.int(a)


def f_pow(a, n):
    if is_sym(n) or _sp(a) or _sp(n):
        if not is_sym(a) and not is_sym(n):
            return a ** n
        raise Unsupported("power")
    if n == 0.5:
        return f_sqrt(a)
    if float(n) != int(n):
        if not is_sym(a):
            return a ** n
        raise Unsupported("power %r" % n)
    n = int(n)
    r = 1.0
    for _ in range(abs(n)):
        r = f_mul(r, a)
    return r if n >= 0 else f_div(1.0, r)


_FBIN = {"add": f_add, "sub": lambda a, b: f_add(a, f_neg(b)), "rsub": lambda a, b: f_add(b, f_neg(a)), "mul": f_mul,
         "div": f_div, "true_divide": f_div, "maximum": lambda a, b: f_pick(a, b, "ge"),
         "minimum": lambda a, b: f_pick(a, b, "le"), "pow": f_pow}
_FUN = {"neg": f_neg, "abs": f_abs, "sqrt": f_sqrt, "exp": f_exp,
        "sinc": f_uninterpreted("sinc"), "i0": f_uninterpreted("i0"), "cos": f_uninterpreted("cos"), "sin": f_uninterpreted("sin"),
        "floor": f_floor, "ceil": f_ceil, "round": f_round, "reciprocal": lambda a: f_div(1.0, a),
        "square": lambda a: f_mul(a, a), "sgn": lambda a: float(_sign(a)), "sign": lambda a: float(_sign(a)),
        "rsqrt": lambda a: f_div(1.0, f_sqrt(a))}


def _untensor(x):
    import torch
    if isinstance(x, torch.Tensor) and x.numel() == 1 and _raw(has_marks, x):
        return _raw(cells, x)[0]
    return x


_MODE = []


def _raw(f, *a):
    """f without the modes"""
    import torch
    with torch._C._DisableTorchDispatch(), torch._C.DisableTorchFunction():
        return f(*a)


def int_tensor(a, shape):
    import torch
    return torch.tensor([mark(x) for x in a], dtype=torch.long).reshape(shape)


MOVE = set("""clone copy copy_ view _unsafe_view reshape slice select unsqueeze squeeze expand cat stack
index index_select gather masked_select contiguous _to_copy to where unbind repeat flip index_put_
index_put alias detach lift_fresh permute transpose t as_strided narrow split split_with_sizes
masked_fill masked_fill_ fill_ zero_ zeros_like ones_like empty_like full_like new_empty new_zeros new_full
new_ones movedim resize_ set_ select_scatter slice_scatter scatter_ scatter scatter_add_ numel sym_size
sym_numel is_same_size size stride nonzero _local_scalar_dense diagonal take roll constant_pad_nd
_reshape_alias chunk unfold tril triu""".split())

_CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b,
        "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}
_BIN = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "rsub": lambda a, b: b - a,
        "mul": lambda a, b: a * b, "maximum": lambda a, b: Max(a, b),
        "minimum": lambda a, b: Min(a, b), "remainder": lambda a, b: a % b,
        "floor_divide": lambda a, b: a // b}
_UN = {"neg": lambda a: -a, "abs": abs}


NUMARG = set("""sub add mul rsub radd rmul lt le gt ge eq ne where clamp clamp_min clamp_max minimum
maximum floor_divide floordiv truediv rtruediv div divide itruediv pow rpow remainder mod subtract multiply isub iadd imul setitem""".split())


def _modes():
    import numpy as np
    import torch
    from torch.overrides import TorchFunctionMode
    from torch.utils._python_dispatch import TorchDispatchMode
    T = torch.Tensor

    def obj(x):
        if isinstance(x, torch.Tensor):
            a = np.empty(x.numel(), dtype=object)
            a[:] = cells(x) if x.dtype == torch.int64 or _float(x) else x.detach().reshape(-1).tolist()
            return a.reshape(tuple(x.shape))
        if isinstance(x, (bool, builtins.int, builtins.float, Num, np.number)):
            a = np.empty((), dtype=object)
            a[()] = x.item() if isinstance(x, np.number) else x
            return a
        return x

    def enc(a, shape=None):
        a = np.asarray(a, dtype=object)
        return torch.tensor([mark(x) for x in a.reshape(-1)],
                            dtype=torch.long).reshape(a.shape)

    def renc(a, dtype):
        a = np.asarray(a, dtype=object)
        return real_tensor(a.reshape(-1), a.shape, dtype)

    def each(f, *xs):
        xs = np.broadcast_arrays(*[obj(x) for x in xs])
        out = np.empty(xs[0].shape, dtype=object)
        for ix in np.ndindex(*out.shape):
            out[ix] = f(*[x[ix] for x in xs])
        return out

    def real(func, base, inplace, args, kwargs):
        """an operation on float tensors with symbolic entries"""
        def give(out, dtype=None):
            if inplace:
                args[0].copy_(renc(out, args[0].dtype))
                return args[0]
            ts = [x for x in args if isinstance(x, (torch.Tensor, bool, builtins.int, builtins.float))]
            d = dtype
            if d is None:
                d = ts[0].dtype if isinstance(ts[0], torch.Tensor) else None
                if len(ts) > 1:
                    d = torch.result_type(ts[0], ts[1])
            if d not in (torch.float64, torch.float32):
                raise Unsupported("%s with result type %s" % (func, d))
            return renc(out, d)
        if base in _CMP:
            out = each(lambda a, b: bool(f_cmp(base)(a, b)), args[0], args[1]).astype(bool)
            return torch.from_numpy(out) if out.shape else torch.tensor(bool(out))
        if base in _FBIN:
            al = kwargs.get("alpha", 1)
            b = args[1]
            f = _FBIN[base]
            if kwargs.get("rounding_mode"):
                raise Unsupported(str(func))
            if al != 1:
                return give(each(lambda x, y: f(x, f_mul(y, al)), args[0], b))
            return give(each(f, args[0], b))
        if base in _FUN:
            return give(each(_FUN[base], args[0]))
        if base in ("addcmul", "addcdiv"):
            v = kwargs.get("value", 1)
            g = f_mul if base == "addcmul" else f_div
            return give(each(lambda x, y, w: f_add(x, f_mul(g(y, w), v)), *args[:3]))
        if base in ("isnan", "isfinite", "isinf"):
            g = {"isnan": _nan, "isfinite": lambda x: not _sp(x), "isinf": lambda x: _sp(x) and not _nan(x)}[base]
            out = each(g, args[0]).astype(bool)
            return torch.from_numpy(out) if out.shape else torch.tensor(bool(out))
        if base == "nan_to_num":
            raise Unsupported(str(func))
        if base in ("clamp", "clamp_min", "clamp_max"):
            lo = args[1] if len(args) > 1 else kwargs.get("min")
            hi = args[2] if len(args) > 2 else kwargs.get("max")
            if base == "clamp_max":
                lo, hi = None, args[1]
            out = obj(args[0])
            if lo is not None:
                out = each(lambda x, y: f_pick(x, y, "ge"), args[0], lo)
            if hi is not None:
                out = np.vectorize(lambda x, y: f_pick(x, y, "le"), otypes=[object])(out, obj(hi))
            return give(out)
        if base in ("sum", "amax", "amin", "max", "min", "mean", "prod"):
            if base in ("max", "min") and len(args) > 1:
                raise Unsupported(str(func))
            a = obj(args[0])
            f = {"sum": f_add, "mean": f_add, "prod": f_mul, "amax": lambda p, q: f_pick(p, q, "ge"),
                 "max": lambda p, q: f_pick(p, q, "ge"), "amin": lambda p, q: f_pick(p, q, "le"),
                 "min": lambda p, q: f_pick(p, q, "le")}[base]
            dim = args[1] if len(args) > 1 else kwargs.get("dim")
            keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
            if dim is None or dim == []:
                ax = tuple(range(a.ndim))
            else:
                ax = tuple(d % a.ndim for d in ([dim] if isinstance(dim, builtins.int) else dim))
            oix = [d for d in range(a.ndim) if d not in ax]
            out = np.empty([a.shape[d] for d in oix], dtype=object)
            seen = set()
            for ix in np.ndindex(*a.shape):
                o = tuple(ix[d] for d in oix)
                out[o] = f(out[o], a[ix]) if o in seen else a[ix]
                seen.add(o)
            if base == "mean":
                k = a.size // max(out.size, 1)
                out = np.vectorize(lambda x: f_div(x, k), otypes=[object])(out)
            r = renc(out, kwargs.get("dtype") or args[0].dtype)
            if keep:
                r = r.reshape([1 if d in ax else n for d, n in enumerate(a.shape)])
            return r
        if base in ("any", "all") and len(args) == 1:
            it = (bool(f_cmp("ne")(v, 0)) for v in obj(args[0]).reshape(-1))
            return torch.tensor(builtins.any(it) if base == "any" else builtins.all(it))
        if base in ("slice_backward", "select_backward"):
            r = torch.zeros(args[1], dtype=args[0].dtype)
            d = args[2]
            ix = [slice(None)] * r.ndim
            ix[d] = slice(args[3], args[4], args[5]) if base == "slice_backward" else args[3]
            r[tuple(ix)] = args[0]
            return r
        if base == "_local_scalar_dense":
            return func(*args, **kwargs)
        if base in ("_to_copy", "to"):
            d = kwargs.get("dtype")
            if d is not None and d != args[0].dtype:
                if d == torch.int64:
                    return enc(np.vectorize(to_int, otypes=[object])(obj(args[0])))
                if d not in (torch.float64, torch.float32):
                    raise Unsupported("conversion of symbolic reals to %s" % d)
                return renc(obj(args[0]), d)
            return func(*args, **kwargs)
        if base == "copy" and inplace and isinstance(args[1], torch.Tensor) and args[1].dtype != args[0].dtype:
            if not _float(args[0]):
                raise Unsupported("conversion of symbolic reals to %s" % args[0].dtype)
            return func(args[0], renc(obj(args[1]), args[0].dtype))
        if base in MOVE or func.is_view or base in ("rot90", "zeros", "new_empty_strided", "empty_strided"):
            if base in ("nonzero", "scatter_add"):
                raise Unsupported(str(func))
            fs = {x.dtype for x in args if isinstance(x, torch.Tensor) and _float(x)}
            if base in ("where", "cat", "stack", "index_put", "masked_fill") and len(fs) > 1:
                raise Unsupported("%s with several float types" % func)
            if base == "index_put" and ((len(args) > 3 and args[3]) or kwargs.get("accumulate")):
                raise Unsupported("accumulating index_put")
            return func(*args, **kwargs)
        raise Unsupported("%s on symbolic reals" % func)

    class DMode(TorchDispatchMode):
        def __torch_dispatch__(self, func, types, args=(), kwargs=None):
            kwargs = kwargs or {}
            flat = list(args) + list(kwargs.values())
            flat = [y for x in flat for y in (x if isinstance(x, (list, tuple)) else [x])]
            if not any(has_marks(x) for x in flat):
                return func(*args, **kwargs)
            name = func._schema.name.split("::")[1]
            inplace = name.endswith("_") and not name.endswith("__")
            base = name[:-1] if inplace else name
            if any(isinstance(x, torch.Tensor) and _float(x) for x in flat):
                return real(func, base, inplace, args, kwargs)
            if name in ("__and__", "__or__"):
                raise Unsupported("bit operations on symbolic integers")
            if base in _CMP:
                a, b = np.broadcast_arrays(obj(args[0]), obj(args[1]))
                out = np.empty(a.shape, dtype=bool)
                for ix in np.ndindex(*a.shape):
                    out[ix] = bool(_CMP[base](a[ix], b[ix]))
                return torch.from_numpy(out) if out.shape else torch.tensor(bool(out))
            if base in _BIN:
                a, b = obj(args[0]), obj(args[1])
                al = kwargs.get("alpha", args[2] if len(args) > 2 else 1)
                if al != 1:
                    b = b * al
                a, b = np.broadcast_arrays(a, b)
                out = np.empty(a.shape, dtype=object)
                for ix in np.ndindex(*a.shape):
                    out[ix] = _BIN[base](a[ix], b[ix])
                r = enc(out)
                if inplace:
                    args[0].copy_(r)
                    return args[0]
                return r
            if base in _UN:
                a = obj(args[0])
                out = np.empty(a.shape, dtype=object)
                for ix in np.ndindex(*a.shape):
                    out[ix] = _UN[base](a[ix])
                r = enc(out)
                if inplace:
                    args[0].copy_(r)
                    return args[0]
                return r
            if base in ("clamp", "clamp_min", "clamp_max"):
                a = obj(args[0])
                lo = args[1] if len(args) > 1 else kwargs.get("min")
                hi = args[2] if len(args) > 2 else kwargs.get("max")
                if base == "clamp_max":
                    lo, hi = None, args[1]
                out = np.empty(a.shape, dtype=object)
                for ix in np.ndindex(*a.shape):
                    v = a[ix]
                    v = v if lo is None else Max(v, lo)
                    out[ix] = v if hi is None else Min(v, hi)
                r = enc(out)
                if inplace:
                    args[0].copy_(r)
                    return args[0]
                return r
            if base in ("min", "max", "amin", "amax", "aminmax", "sum", "prod"):
                a = obj(args[0])
                f = {"min": Min, "amin": Min, "max": Max, "amax": Max,
                     "sum": lambda p, q: p + q, "prod": lambda p, q: p * q}.get(base)
                dim = args[1] if len(args) > 1 else kwargs.get("dim")
                if base == "aminmax" or (base in ("min", "max") and dim is not None):
                    if base != "aminmax" or dim is not None:
                        raise Unsupported(str(func))
                    c = list(a.reshape(-1))
                    lo, hi = c[0], c[0]
                    for v in c[1:]:
                        lo, hi = Min(lo, v), Max(hi, v)
                    return enc(np.array(lo, dtype=object)), enc(np.array(hi, dtype=object))
                keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
                if dim is None or dim == []:
                    ax = tuple(range(a.ndim))
                else:
                    ax = tuple(d % a.ndim for d in ([dim] if isinstance(dim, int) else dim))
                out_ix = [d for d in range(a.ndim) if d not in ax]
                out = np.empty([a.shape[d] for d in out_ix], dtype=object)
                first = {}
                for ix in np.ndindex(*a.shape):
                    o = tuple(ix[d] for d in out_ix)
                    if o in first:
                        out[o] = f(out[o], a[ix])
                    else:
                        out[o] = a[ix]
                        first[o] = 1
                r = enc(out)
                if keep:
                    r = r.reshape([1 if d in ax else n for d, n in enumerate(a.shape)])
                return r
            if base in ("_unique2", "_unique"):
                c = list(obj(args[0]).reshape(-1))
                reps, inv = [], []
                for v in c:
                    for k, w in enumerate(reps):
                        if bool(v == w):
                            inv.append(k)
                            break
                    else:
                        inv.append(len(reps))
                        reps.append(v)
                cnt = [inv.count(k) for k in range(len(reps))]
                r = enc(np.array(reps + [None], dtype=object)[:-1])
                i = torch.tensor(inv).reshape(args[0].shape)
                return (r, i, torch.tensor(cnt)) if base == "_unique2" else (r, i)
            if base == "sort" or base == "argsort":
                a = obj(args[0])
                dim = args[1] if len(args) > 1 else kwargs.get("dim", -1)
                desc = args[2] if len(args) > 2 else kwargs.get("descending", False)
                if a.ndim != 1 or base != "sort":
                    raise Unsupported(str(func))
                order = []
                for k in range(len(a)):          # insertion sort, forks on comparisons
                    p = len(order)
                    while p > 0 and bool((a[order[p - 1]] < a[k]) if desc else (a[order[p - 1]] > a[k])):
                        p -= 1
                    order.insert(p, k)
                return enc(a[order]), torch.tensor(order)
            if base in ("any", "all"):
                a = obj(args[0])
                if len(args) > 1:
                    raise Unsupported(str(func))
                it = (bool(v != 0) for v in a.reshape(-1))
                return torch.tensor(builtins.any(it) if base == "any" else builtins.all(it))
            if base in ("diff",):
                a = obj(args[0])
                return enc(a[..., 1:] - a[..., :-1])
            if base in MOVE or name in MOVE or func.is_view:
                for x in (args[0],) if args and isinstance(args[0], torch.Tensor) else ():
                    dt = kwargs.get("dtype")
                    if dt is not None and dt != torch.int64 and base in ("_to_copy", "to"):
                        raise Unsupported("conversion of symbolic integers to %s" % dt)
                if base in ("nonzero", "scatter_add_", "constant_pad_nd") and base == "nonzero":
                    raise Unsupported(str(func))
                if base == "index" or base.startswith("index_put"):
                    for i in args[1]:
                        if has_marks(i):
                            raise Unsupported("symbolic index")
                return func(*args, **kwargs)
            raise Unsupported("%s on symbolic integers" % func)

    class FMode(TorchFunctionMode):
        def __torch_function__(self, func, types, args=(), kwargs=None):
            kwargs = kwargs or {}
            n = getattr(func, "__name__", "")
            if n in ("item", "__int__", "__index__", "__float__", "__bool__", "tolist", "__format__",
                     "__repr__", "__len__", "numpy") and args and isinstance(args[0], torch.Tensor) \
                    and n != "__len__" and _raw(has_marks, args[0]):
                c = _raw(cells, args[0])
                if n == "item":
                    return c[0]
                if n == "tolist":
                    import numpy as np
                    a = np.empty(len(c), dtype=object)
                    a[:] = c
                    return a.reshape(tuple(args[0].shape)).tolist()
                if n in ("__int__", "__index__"):
                    return builtins.int(EX.value(c[0].t))
                if n == "__bool__":
                    return bool(c[0] != 0)
                if n in ("__format__", "__repr__"):
                    return "<symbolic>"
                raise Unsupported(n)
            if n.strip("_") in NUMARG and any(isinstance(a, Num) for a in args):
                args = tuple(torch.tensor(mark(a)) if isinstance(a, Num) and a.is_int else
                             real_tensor([a], ()) if isinstance(a, Num) and REALS else a
                             for a in args)

            def conc(x):
                if isinstance(x, Num) and x.is_int:
                    return EX.value(x.t)
                if isinstance(x, slice):
                    return slice(conc(x.start), conc(x.stop), conc(x.step))
                if isinstance(x, (list, tuple)) and type(x) in (list, tuple, torch.Size):
                    return (list if isinstance(x, list) else tuple)(conc(y) for y in x)
                return x
            return func(*conc(args), **{k: conc(v) for k, v in kwargs.items()})

    return DMode, FMode


class _CutWarnings:
    pass


# ------------------------------------------------------------------ shapes
def shape_tensor(shape, dtype=None):
    """a float tensor whose shape is symbolic; any operation on its data stops
    the path with Cut('used')"""
    import torch

    class ShapeTensor(torch.Tensor):
        @property
        def shape(self):
            return self._shape

        @property
        def ndim(self):
            return len(self._shape)

        def dim(self):
            return len(self._shape)

        def numel(self):
            r = 1
            for s in self._shape:
                r = r * s
            return r

        def size(self, d=None):
            return self._shape if d is None else self._shape[d]

        @property
        def device(self):
            return torch.device("cpu")

        @property
        def dtype(self):
            return dtype or torch.float64

        @property
        def requires_grad(self):
            return False

        def __len__(self):
            return self._shape[0]

        @classmethod
        def __torch_function__(cls, func, types, args=(), kwargs=None):
            raise Cut("used")

    with torch._C.DisableTorchFunction():
        t = torch.Tensor._make_subclass(ShapeTensor, torch.zeros(0, dtype=dtype or torch.float64))
    t.__dict__["_shape"] = tuple(shape)
    return t


# ------------------------------------------------------------------ formulas that work on both
def And(*xs):
    xs = _list(xs)
    if any(is_sym(x) for x in xs):
        return z3().And(*[term(_b(x)) for x in xs])
    return all(xs)


def Or(*xs):
    xs = _list(xs)
    if any(is_sym(x) for x in xs):
        return z3().Or(*[term(_b(x)) for x in xs])
    return any(xs)


def _b(x):
    return x if is_sym(x) else bool(x)


def _list(xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)) or (
            len(xs) == 1 and hasattr(xs[0], "__next__")):
        return list(xs[0])
    return list(xs)


def Not(x):
    return z3().Not(term(x)) if is_sym(x) else not x


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if is_sym(a) or is_sym(b):
        return term(_b(a)) == term(_b(b))
    return bool(a) == bool(b)


def _ab(a, b):
    x, y, _ = _pair(a, b)
    return x, y


def Eq(a, b):
    if is_sym(a) or is_sym(b):
        x, y = _ab(a, b)
        return x == y
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) <= 1e-9 * max(1e-300, abs(a), abs(b))
    return a == b


def Ne(a, b):
    return Not(Eq(a, b))


def Lt(a, b):
    if is_sym(a) or is_sym(b):
        x, y = _ab(a, b)
        return x < y
    return a < b


def Le(a, b):
    if is_sym(a) or is_sym(b):
        x, y = _ab(a, b)
        return x <= y
    if isinstance(a, float) or isinstance(b, float):
        return a <= b + 1e-9 * max(abs(a), abs(b))
    return a <= b


def If(c, a, b):
    if is_sym(c):
        x, y = _ab(a, b)
        return num(z3().If(term(c), x, y))
    return a if c else b


def Min(a, b):
    return If(Lt(a, b), a, b)


def Max(a, b):
    return If(Lt(a, b), b, a)


# ------------------------------------------------------------------ exploring
class Out:
    """how a path ended"""

    def __init__(self, kind, value):
        self.kind, self.value = kind, value     # 'returned' / 'raised'

    @property
    def raised(self):
        return self.kind == "raised"


def declare(decl):
    """-> (inputs, assumptions); decl: name -> spec

    ('int', lo, hi) ('real', lo, hi) (bounds may be None)
    ('ints', shape, [per-last-coordinate (lo, hi)], ignore)  int64 tensor
    ('list', n, spec)  a list of n numbers
    ('reals', shape, lo, hi, dtype)  float tensor
    anything else: passed as it is
    """
    z = z3()
    inp, ass = {}, []

    def scalar(n, s):
        v = z.Int(n) if s[0] == "int" else z.Real(n)
        if s[1] is not None:
            ass.append(v >= (s[1] if s[0] == "int" else rat(s[1])))
        if s[2] is not None:
            ass.append(v <= (s[2] if s[0] == "int" else rat(s[2])))
        return Num(v)
    for n, s in decl.items():
        if isinstance(s, tuple) and s and s[0] in ("int", "real"):
            inp[n] = scalar(n, s)
        elif isinstance(s, tuple) and s and s[0] == "list":
            inp[n] = [scalar("%s[%d]" % (n, k), s[2]) for k in range(s[1])]
        elif isinstance(s, tuple) and s and s[0] == "reals":
            import numpy as np
            inp[n] = ([scalar("%s%s" % (n, list(ix)), ("real", s[2], s[3])) for ix in np.ndindex(*s[1])], s[1], s[4])
        elif isinstance(s, tuple) and s and s[0] == "ints":
            import numpy as np
            _, shape, rng, ign = s
            flat = []
            for ix in np.ndindex(*shape):
                v = z.Int("%s%s" % (n, list(ix)))
                lo, hi = rng[ix[-1]]
                c = z.And(v >= lo, v <= hi)
                if ign:
                    c = z.Or(c, v == -2 ** 31)
                ass.append(c)
                flat.append(Num(v))
            inp[n] = (flat, shape)
        else:
            inp[n] = s
    return inp, ass


def concrete(decl, env):
    """inputs at a counterexample"""
    import numpy as np
    import torch

    def scalar(n, s):
        v = env.get(n)
        if v is None:
            v = s[1] if s[1] is not None else (s[2] if s[2] is not None else 0)
        return builtins.int(v) if s[0] == "int" else builtins.float(v)
    inp = {}
    for n, s in decl.items():
        if isinstance(s, tuple) and s and s[0] in ("int", "real"):
            inp[n] = scalar(n, s)
        elif isinstance(s, tuple) and s and s[0] == "list":
            inp[n] = [scalar("%s[%d]" % (n, k), s[2]) for k in range(s[1])]
        elif isinstance(s, tuple) and s and s[0] == "reals":
            a = np.empty(s[1], dtype=np.float64)
            for ix in np.ndindex(*s[1]):
                a[ix] = scalar("%s%s" % (n, list(ix)), ("real", s[2], s[3]))
            inp[n] = torch.from_numpy(a).to(s[4])
        elif isinstance(s, tuple) and s and s[0] == "ints":
            a = np.empty(s[1], dtype=np.int64)
            for ix in np.ndindex(*s[1]):
                a[ix] = builtins.int(env.get("%s%s" % (n, list(ix)), s[2][ix[-1]][0]))
            inp[n] = torch.from_numpy(a)
        else:
            inp[n] = s
    return inp


def explore(decl, run, check, assume=None, max_paths=20000, budget=300, reals=False):
    REALS[:] = [1] if reals else []
    try:
        return _explore(decl, run, check, assume, max_paths, budget)
    finally:
        del REALS[:]


def _explore(decl, run, check, assume, max_paths, budget):
    """-> (list of (label, env, note), stats).  run(inp) executes the real code;
    check(inp, out) -> list of (label, formula)."""
    global EX
    import torch
    z = z3()
    ex = Explorer(max_paths)
    bad = []
    kinds = {}
    t0 = time.time()
    DMode, FMode = _modes()
    import warnings
    while ex.work:
        if ex.stats["paths"] >= max_paths or time.time() - t0 > budget:
            raise Budget("%d paths explored, more remain" % ex.stats["paths"])
        prefix = ex.work.pop()
        del TAB[:], RTAB[:]
        EX = ex
        raw, ass = declare(decl)
        ex.start(prefix, ass)
        inp = {}
        for k, v in raw.items():
            tens = isinstance(v, tuple) and isinstance(v[0], list) and isinstance(decl[k], tuple)
            inp[k] = v if not tens else int_tensor(*v) if len(v) == 2 else real_tensor(*v)
        if assume is not None:
            ex.add(term(assume({k: _view(v) for k, v in inp.items()})))
            if ex.sat() == z.unsat:
                continue
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with Shadow(), FMode(), DMode():
                    out = Out("returned", run(inp))
        except Cut as c:
            out = Out("returned", c.value)
        except Unsupported:
            raise
        except Exception as e:
            out = Out("raised", e)
        ex.stats["paths"] += 1
        k = "raised " + type(out.value).__name__ if out.raised else "returned"
        kinds[k] = kinds.get(k, 0) + 1
        for lab, f in check(inp, out):
            ex.stats["asserted"] += 1
            r = ex.sat(z.Not(term(_b(f))))
            if r == z.unsat:
                continue
            if r == z.unknown and ex.local(z.Not(term(_b(f)))) == z.unsat:
                continue
            if r == z.unknown:
                raise Budget("the solver gave no answer for %s" % lab)
            m = ex.s.model()
            env = {}
            for d in m.decls():
                v = m[d]
                if z.is_int_value(v):
                    env[d.name()] = Fraction(v.as_long())
                elif z.is_rational_value(v):
                    env[d.name()] = Fraction(v.numerator_as_long(), v.denominator_as_long())
                elif z.is_algebraic_value(v):
                    a = v.approx(20)
                    env[d.name()] = Fraction(a.numerator_as_long(), a.denominator_as_long())
            what = repr(out.value)[:200] if out.raised else "accepted"
            bad.append((lab, env, what))
            if len(bad) >= 3:
                ex.stats["kinds"] = kinds
                return bad, ex.stats
    ex.stats["kinds"] = kinds
    EX = None
    return bad, ex.stats


def _view(v):
    import torch
    return cells(v) if isinstance(v, torch.Tensor) and (v.dtype == torch.int64 or REALS and _float(v)) else v


def cells_of(v):
    """entries of an int tensor, symbolic or concrete"""
    import torch
    return _raw(cells, v)
