"""Exact symbolic scalar domain used by both executors.

A symbolic scalar is a rational multiple-of-monomials sum ("Poly") over named
variables, kept in normal form while code is executed symbolically; a concrete
scalar is a Python int or Fraction ("Q").  Floating-point literals/values in
the executed code are read as the simplest rational that rounds to them (so
1.0/12.0 is exactly 1/12): all claims made with this domain are claims in exact
real arithmetic.

Variables may be marked nilpotent (first-order): monomials of degree >= 2 in
nilpotent variables are dropped, which gives exact directional derivatives
(dual numbers) at an otherwise concrete point.

Division by a symbolic value introduces a variable i with the defining
constraint  i * den == 1, which is handed to the solver with every query.
"""
from fractions import Fraction
from math import gcd
import struct

VARS = []          # id -> (name, nominal Fraction, nilpotent)
BYNAME = {}
DEFS = {}          # var id of an inverse -> Poly it inverts
PAIR = {}          # var id of the inverse of a variable -> that variable
_INV = {}
_MONO = {}
_NIL = set()


ZERO = None           # what zero times a symbolic value gives, if that matters (C24)


class Unsupported(Exception):
    """the executed code does something this encoding cannot represent"""


def reset():
    VARS.clear(); BYNAME.clear(); DEFS.clear(); PAIR.clear(); _INV.clear(); OPAQUE.clear(); _OPQ.clear()
    _MONO.clear(); _NIL.clear()


def var(name, nominal=1, nil=False):
    if name in BYNAME:
        return BYNAME[name]
    i = len(VARS)
    VARS.append((name, Fraction(nominal), nil))
    if nil:
        _NIL.add(i)
    p = Poly({(i,): 1}, 1)
    BYNAME[name] = p
    return p


def var_id(p):
    (m,) = p.d.keys()
    (i,) = m
    return i


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _MONO.get(k)
    if r is None:
        r = tuple(sorted(a + b))
        if PAIR:
            for x in set(r):
                y = PAIR.get(x)
                if y is not None and y in r:      # x * (1/x) == 1
                    n = min(r.count(x), r.count(y))
                    l = list(r)
                    for _ in range(n):
                        l.remove(x)
                        l.remove(y)
                    r = tuple(l)
        if _NIL:
            n = 0
            for x in r:
                if x in _NIL:
                    n += 1
            if n > 1:
                r = False
        _MONO[k] = r
    return r


class Poly:
    __slots__ = ("d", "q", "_key")

    def __init__(self, d, q=1):
        self.d = d
        self.q = q
        self._key = None

    # -- arithmetic -----------------------------------------------------
    def __add__(self, o):
        if type(o) is not Poly:
            if not o:
                return self
            o = _const(o)
        q1, q2 = self.q, o.q
        if q1 == q2:
            if len(o.d) > len(self.d):
                self, o = o, self
            d = dict(self.d)
            get = d.get
            for m, c in o.d.items():
                s = get(m)
                if s is None:
                    d[m] = c
                else:
                    s += c
                    if s:
                        d[m] = s
                    else:
                        del d[m]
            q = q1
        else:
            g = gcd(q1, q2)
            f1, f2 = q2 // g, q1 // g
            q = q1 * f1
            d = {m: c * f1 for m, c in self.d.items()}
            get = d.get
            for m, c in o.d.items():
                s = get(m)
                if s is None:
                    d[m] = c * f2
                else:
                    s += c * f2
                    if s:
                        d[m] = s
                    else:
                        del d[m]
        if not d:
            return 0
        return Poly(d, q)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()}, self.q)

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if type(o) is not Poly:
            if not o:
                return 0 if ZERO is None else ZERO(self)
            if type(o) is int:
                if o == 1:
                    return self
                return Poly({m: c * o for m, c in self.d.items()}, self.q)
            n, D = o.numerator, o.denominator
            q = self.q
            if q != 1:
                g = gcd(n, q)
                if g != 1:
                    n //= g
                    q //= g
            if n == 1:
                return Poly(self.d, q * D)
            return Poly({m: c * n for m, c in self.d.items()}, q * D)
        d = {}
        get = d.get
        a, b = self.d, o.d
        if len(a) > len(b):
            a, b = b, a
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mono_mul(m1, m2)
                if m is False:
                    continue
                s = get(m)
                if s is None:
                    d[m] = c1 * c2
                else:
                    s += c1 * c2
                    if s:
                        d[m] = s
                    else:
                        del d[m]
        if not d:
            return 0
        return norm(Poly(d, self.q * o.q))

    __rmul__ = __mul__

    def __pow__(self, k):
        k = as_int(k)
        if k < 0:
            return inv(self) ** (-k)
        r = 1
        for _ in range(k):
            r = self * r
        return r

    def __truediv__(self, o):
        if type(o) is not Poly:
            return self * (Fraction(1) / Fraction(o))
        return self * inv(o)

    def __rtruediv__(self, o):
        return inv(self) * o

    def __bool__(self):
        raise Unsupported("truth value of a symbolic scalar")

    def __float__(self):
        raise Unsupported("float() of a symbolic scalar")

    # -- identity -------------------------------------------------------
    def key(self):
        if self._key is None:
            norm(self, True)
            self._key = (self.q, tuple(sorted(self.d.items())))
        return self._key

    def __eq__(self, o):
        if type(o) is not Poly:
            return False
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return show(self)


def norm(p, force=False):
    """divide out the common content (keeps the integers small)"""
    if p.q == 1:
        return p
    if not force and p.q.bit_length() < 48:
        return p
    g = p.q
    for c in p.d.values():
        g = gcd(g, c)
        if g == 1:
            return p
    p.d = {m: c // g for m, c in p.d.items()}
    p.q //= g
    return p


def _const(x):
    if type(x) is int:
        return Poly({(): x}, 1)
    return Poly({(): x.numerator}, x.denominator)


def simp(p):
    """Poly -> Q when it is constant"""
    if type(p) is Poly and len(p.d) == 1 and () in p.d:
        f = Fraction(p.d[()], p.q)
        return f.numerator if f.denominator == 1 else f
    return p


def as_int(k):
    if isinstance(k, int):
        return k
    f = Fraction(k)
    if f.denominator != 1:
        raise Unsupported("non-integer power of a symbolic scalar")
    return f.numerator


def inv(p):
    p = simp(p)
    if type(p) is not Poly:
        return Fraction(1) / Fraction(p)
    if _NIL:
        c0 = drop_nil(p)
        if type(c0) is not Poly:           # dual number around a constant
            if c0 == 0:
                raise Unsupported("division by a value whose nominal value is 0")
            r = Fraction(1) / Fraction(c0)
            return r - (p - c0) * (r * r)
    # factor out a monomial denominators: 1/(c*m) with m a product of
    # variables is the product of the variables' inverses
    if len(p.d) == 1:
        ((m, c),) = p.d.items()
        if m and len(m) > 1 or (m and (c != 1 or p.q != 1)):
            r = Fraction(p.q, c)
            for i in m:
                r = r * inv(Poly({(i,): 1}, 1))
            return r
        (i,) = m
        if i in DEFS:              # 1/(1/p) == p
            return DEFS[i]
    # normalise sign/scale so that 1/(2p) and 1/p share a variable
    norm(p, True)
    lead = min(p.d)
    f = Fraction(p.d[lead], p.q)
    base = p * (1 / f)
    norm(base, True)
    k = base.key()
    v = _INV.get(k)
    if v is None:
        nom = value(base)
        if nom == 0:
            raise Unsupported("division by a value whose nominal value is 0")
        v = var("inv!%d" % len(_INV), Fraction(1) / nom)
        DEFS[var_id(v)] = base
        if len(base.d) == 1 and base.q == 1:
            ((m, c),) = base.d.items()
            if c == 1 and len(m) == 1:
                PAIR[var_id(v)] = m[0]
                _MONO.clear()
        _INV[k] = v
    return v * (1 / f)


OPAQUE = {}        # var id -> (function name, argument)
_OPQ = {}


def opaque(fn, p):
    """fn(p) as a fresh variable (one per distinct argument); its nominal value
    is fn of the argument's nominal value"""
    import math
    p = simp(p)
    f = {"sqrt": math.sqrt, "exp": math.exp, "log": math.log, "sin": math.sin,
         "cos": math.cos}[fn]
    if type(p) is not Poly:
        return rat(f(float(p)))
    k = (fn, p.key())
    v = _OPQ.get(k)
    if v is None:
        v = var("%s!%d" % (fn, len(_OPQ)), Fraction(f(float(value(p)))))
        OPAQUE[var_id(v)] = (fn, p)
        _OPQ[k] = v
    return v


# -- floats ------------------------------------------------------------------
_RAT = {}


def rat(x):
    """the simplest rational that rounds to the double x (exact otherwise)"""
    r = _RAT.get(x)
    if r is not None:
        return r
    if x != x or x in (float("inf"), float("-inf")):
        raise Unsupported("non-finite float %r" % x)
    f = Fraction(x)
    if f.denominator != 1:
        g = f.limit_denominator(100000)
        if float(g) == x:
            f = g
    r = f.numerator if f.denominator == 1 else f
    _RAT[x] = r
    return r


def is_sym(x):
    return type(x) is Poly


# -- evaluation, differentiation ------------------------------------------------
def value(p, env=None):
    """exact value under env (var id -> Fraction), nominal by default"""
    if type(p) is not Poly:
        return Fraction(p)
    s = Fraction(0)
    for m, c in p.d.items():
        t = Fraction(c)
        for i in m:
            if env is not None and i in env:
                t *= env[i]
            elif env is not None and i in DEFS:
                t *= 1 / value(DEFS[i], env)
            else:
                t *= VARS[i][1]
        s += t
    return s / p.q


def fvalue(p, env):
    """float value under env: var id -> float (list/dict)"""
    if type(p) is not Poly:
        return float(p)
    s = 0.0
    for m, c in p.d.items():
        t = float(Fraction(c, p.q))
        for i in m:
            t *= env[i]
        s += t
    return s


def diff(p, vid):
    """exact partial derivative (through inverse definitions)"""
    if type(p) is not Poly:
        return 0
    out = {}
    chain = 0
    for m, c in p.d.items():
        k = m.count(vid)
        if k:
            i = m.index(vid)
            m2 = m[:i] + m[i + 1:]
            out[m2] = out.get(m2, 0) + c * k
    r = Poly({m: c for m, c in out.items() if c}, p.q) if any(out.values()) else 0
    for dv in {i for m in p.d for i in m if i in DEFS}:
        dd = diff(DEFS[dv], vid)
        if is_sym(dd) or dd:
            iv = Poly({(dv,): 1}, 1)
            chain = chain + _diff_direct(p, dv) * (-(iv * iv * dd))
    return simp(r + chain) if is_sym(r) or is_sym(chain) else r + chain


def _diff_direct(p, vid):
    out = {}
    for m, c in p.d.items():
        k = m.count(vid)
        if k:
            i = m.index(vid)
            m2 = m[:i] + m[i + 1:]
            out[m2] = out.get(m2, 0) + c * k
    out = {m: c for m, c in out.items() if c}
    return Poly(out, p.q) if out else 0


def gradient(ps, vids):
    """sum over k of y_k * d p_k / d vid, for every vid, in one pass.
    ps: list of (p, y).  Returns {vid: expr}.  No inverse variables allowed
    to depend on vids (checked)."""
    vs = set(vids)
    acc = {v: {} for v in vids}        # vid -> {mono: Fraction}
    accq = {v: 0 for v in vids}
    res = {v: 0 for v in vids}
    for p, y in ps:
        if type(p) is not Poly:
            continue
        if not is_sym(y) and not y:
            continue
        parts = {}
        for m, c in p.d.items():
            seen = None
            for j, i in enumerate(m):
                if i in vs:
                    if j and m[j - 1] == i:
                        continue
                    k = 1
                    while j + k < len(m) and m[j + k] == i:
                        k += 1
                    m2 = m[:j] + m[j + 1:]
                    dd = parts.get(i)
                    if dd is None:
                        dd = parts[i] = {}
                    dd[m2] = dd.get(m2, 0) + c * k
        for i, dd in parts.items():
            dd = {m: c for m, c in dd.items() if c}
            if dd:
                res[i] = res[i] + Poly(dd, p.q) * y
    return res


def subst(p, env):
    """replace variables (vid -> Poly/Q)"""
    if type(p) is not Poly:
        return p
    acc = 0
    same = {}
    for m, c in p.d.items():
        if any(i in env for i in m):
            t = Fraction(c, p.q)
            rest = []
            for i in m:
                if i in env:
                    t = t * env[i]
                else:
                    rest.append(i)
            if rest:
                t = t * Poly({tuple(rest): 1}, 1) if is_sym(t) else \
                    (Poly({tuple(rest): 1}, 1) * t if t else 0)
            acc = acc + t
        else:
            same[m] = c
    if same:
        acc = Poly(same, p.q) + acc
    return simp(acc) if is_sym(acc) else acc


def degree_split(p, vids):
    """p = sum over subsets: returns {mono restricted to vids: coefficient Poly}"""
    out = {}
    if type(p) is not Poly:
        return {(): p} if p else {}
    for m, c in p.d.items():
        a = tuple(i for i in m if i in vids)
        b = tuple(i for i in m if i not in vids)
        out.setdefault(a, {})[b] = c
    return {a: simp(Poly(d, p.q)) for a, d in out.items()}


def drop_nil(p):
    """value part (monomials without nilpotent variables)"""
    if type(p) is not Poly:
        return p
    d = {m: c for m, c in p.d.items() if not any(i in _NIL for i in m)}
    if not d:
        return 0
    return simp(Poly(d, p.q))


def variables(p):
    if type(p) is not Poly:
        return set()
    return {i for m in p.d for i in m}


def show(p, limit=6):
    if type(p) is not Poly:
        return str(p)
    ts = []
    for m, c in sorted(p.d.items())[:limit]:
        ts.append("%s*%s" % (Fraction(c, p.q), "*".join(VARS[i][0] for i in m) or "1"))
    if len(p.d) > limit:
        ts.append("... (%d terms)" % len(p.d))
    return " + ".join(ts)
