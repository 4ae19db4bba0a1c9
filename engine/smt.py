"""Solver back end: decides lists of equalities between symbolic scalars.

decide(obligations) sends every obligation lhs == rhs to z3 as a refutation
query (is there an assignment with lhs != rhs?).  Both sides are first cleared
of inverse variables (exactly, by multiplying with the denominators, which the
definitions require to be non-zero), then asserted as polynomials whose
monomials are opaque real variables: `unsat` of that linear abstraction implies
the equality for all reals.  Where the abstraction is satisfiable, the
polynomial (QF_NRA) query with the real products decides; a model of it, or an
explicit rational witness confirmed by the solver, is the counterexample.
"""
import random
import subprocess
import shutil
import time
from fractions import Fraction

from . import poly
from .poly import Poly, is_sym

Z3 = shutil.which("z3-new") or shutil.which("z3")
CVC5 = shutil.which("cvc5")
STATS = {"queries": 0, "obligations": 0, "trivial": 0, "solver_s": 0.0, "terms": 0,
         "nra_queries": 0, "cvc5_queries": 0, "cleared": 0, "concretised": 0, "rounding": 0}


class Explosion(Exception):
    pass


CLEAR_LIMIT = 60000


class Inconclusive(Exception):
    pass


class Solver:
    """one z3 process, push/pop per batch"""

    def __init__(self, cmd=None):
        self.p = subprocess.Popen(cmd or [Z3, "-in", "-smt2"], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                  text=True, bufsize=1 << 20)

    def ask(self, text, timeout_ms=120000):
        t = time.time()
        p = self.p
        # a writer thread avoids a pipe deadlock on large inputs
        import threading
        body = "(reset)\n(set-option :timeout %d)\n%s\n(check-sat)\n(echo \"--done\")\n" % (timeout_ms, text)

        def w():
            try:
                p.stdin.write(body)
                p.stdin.flush()
            except (BrokenPipeError, ValueError):
                pass
        th = threading.Thread(target=w)
        th.start()
        out = []
        while True:
            l = p.stdout.readline()
            if not l:
                raise Inconclusive("solver process ended: " + " ".join(out[-3:]))
            l = l.strip()
            if l == "--done":
                break
            out.append(l)
        th.join()
        STATS["queries"] += 1
        STATS["solver_s"] += time.time() - t
        if any("(error" in l for l in out):
            raise Inconclusive("solver error: " + " ".join(out)[:500])
        return out[-1] if out else "unknown"

    def more(self, cmd):
        self.p.stdin.write(cmd + '\n(echo "--done")\n')
        self.p.stdin.flush()
        out = []
        while True:
            l = self.p.stdout.readline()
            if not l:
                raise Inconclusive("solver process ended")
            if l.strip() == "--done":
                return out
            out.append(l.rstrip("\n"))

    def close(self):
        try:
            self.p.stdin.close()
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


_solver = None


def solver():
    global _solver
    if _solver is None or _solver.p.poll() is not None:
        _solver = Solver()
    return _solver


# -- inverse variables ---------------------------------------------------------
def clear_pair(a, b):
    """(a', b') without inverse variables with a == b <=> a' == b'"""
    while True:
        invs = [i for i in poly.variables(a) | poly.variables(b) if i in poly.DEFS]
        if not invs:
            return a, b
        i = max(invs)
        D = poly.DEFS[i]
        K = 0
        for p in (a, b):
            if is_sym(p):
                for m in p.d:
                    K = max(K, m.count(i))
        pw = [1]
        for _ in range(K):
            pw.append(D * pw[-1])

        def clr(p):
            if not is_sym(p):
                return p * pw[K]
            parts = {}
            for m, c in p.d.items():
                k = m.count(i)
                m2 = tuple(x for x in m if x != i)
                parts.setdefault(k, {})[m2] = c
            r = 0
            for k, d in parts.items():
                e = poly.simp(Poly(d, p.q))
                if size(e) * size(pw[K - k]) > 20 * CLEAR_LIMIT:
                    raise Explosion()
                r = r + e * pw[K - k]
            return poly.simp(r) if is_sym(r) else r
        a, b = clr(a), clr(b)
        if size(a) > CLEAR_LIMIT or size(b) > CLEAR_LIMIT:
            raise Explosion()


def _num(n):
    return str(n) if n >= 0 else "(- %d)" % -n


def _lin(p, names):
    """q*p as an SMT term over opaque monomials, and q"""
    if not is_sym(p):
        f = Fraction(p)
        return _num(f.numerator), f.denominator
    ts = []
    for m, c in p.d.items():
        if not m:
            ts.append(_num(c))
        else:
            n = names.get(m)
            if n is None:
                n = names[m] = "m%d" % len(names)
            ts.append(n if c == 1 else "(* %s %s)" % (_num(c), n))
    STATS["terms"] += len(ts)
    return (ts[0] if len(ts) == 1 else "(+ %s)" % " ".join(ts)), p.q


def _nonlin(p):
    if not is_sym(p):
        f = Fraction(p)
        return _num(f.numerator), f.denominator
    ts = []
    for m, c in p.d.items():
        fs = ["x%d" % i for i in m]
        if c != 1 or not fs:
            fs.insert(0, _num(c))
        ts.append(fs[0] if len(fs) == 1 else "(* %s)" % " ".join(fs))
    return (ts[0] if len(ts) == 1 else "(+ %s)" % " ".join(ts)), p.q


def _neq(a, b, term):
    (ta, qa), (tb, qb) = term(a), term(b)
    l = ta if qb == 1 else "(* %d %s)" % (qb, ta)
    r = tb if qa == 1 else "(* %d %s)" % (qa, tb)
    return "(not (= %s %s))" % (l, r)


def size(p):
    return len(p.d) if is_sym(p) else 1


def decide(obls, batch_terms=60000, rng=None, want=1):
    """obls: list of (lhs, rhs, label).  Returns list of counterexamples
    (label, env {var name: Fraction}, lhs value, rhs value); [] = all hold."""
    bad = []
    batch = []
    n = 0
    for o in obls:
        STATS["obligations"] += 1
        if not is_sym(o[0]) and not is_sym(o[1]) and o[0] == o[1]:
            STATS["trivial"] += 1
            continue
        batch.append(o)
        n += size(o[0]) + size(o[1])
        if n > batch_terms:
            bad += _batch(batch, rng, want)
            batch, n = [], 0
            if len(bad) >= want:
                return bad
    if batch:
        bad += _batch(batch, rng, want)
    return bad


def _batch(batch, rng, want):
    names = {}
    cl = []
    extra = []
    for a, b, lab in batch:
        d = a - b
        if not is_sym(d) and d == 0:
            cl.append((a, b))      # equal with the inverses as opaque atoms
            continue
        STATS["cleared"] += 1
        try:
            cl.append(clear_pair(a, b))
        except Explosion:
            # concretise the variables the inverses depend on (three points)
            STATS["concretised"] += 1
            vs = set()
            todo = [i for i in poly.variables(a) | poly.variables(b) if i in poly.DEFS]
            while todo:
                i = todo.pop()
                for j in poly.variables(poly.DEFS[i]):
                    (todo.append if j in poly.DEFS else vs.add)(j)
            rr = rng or random.Random(2)
            for _ in range(3):
                env = {i: poly.VARS[i][1] * Fraction(rr.randint(24, 48), 32) for i in vs}
                for i in sorted(i for i in poly.DEFS):
                    D = poly.DEFS[i]
                    if all(j in env for j in poly.variables(D)):
                        env[i] = 1 / poly.value(D, env)
                cl.append((poly.subst(a, env), poly.subst(b, env)))
                extra.append((len(cl) - 1, (a, b, lab)))
    neqs = [_neq(a, b, lambda p: _lin(p, names)) for a, b in cl]
    txt = ["(set-logic QF_LRA)"]
    txt += ["(declare-const %s Real)" % n for n in names.values()]
    txt.append("(assert (or false %s))" % "\n ".join(neqs))
    r = solver().ask("\n".join(txt))
    if r == "unsat":
        return []
    if r != "sat":
        raise Inconclusive("z3 answered %s on a batch of %d equalities" % (r, len(batch)))
    bad = []
    orig = []
    it = iter(batch)
    ex = dict(extra)
    for k in range(len(cl)):
        orig.append(ex[k] if k in ex else None)
    rest = [o for o in batch if o not in [e for _, e in extra]] if extra else list(batch)
    it = iter(rest)
    orig = [o if o is not None else next(it) for o in orig]
    for (a0, b0, lab), (a, b) in zip(orig, cl):
        d = a - b
        d = poly.simp(d) if is_sym(d) else d
        if not is_sym(d) and d == 0:
            continue
        if rounding_only(d, a, b, LOOSE.get(lab)):
            continue
        w = _witness(a0, b0, a, b, rng)
        if w is None:
            continue
        bad.append((lab,) + w)
        if len(bad) >= want:
            break
    return bad


LOOSE = {}       # label -> tolerance, for results of single-precision constants


def rounding_only(d, a, b, loose=None):
    """the difference stems from the rounding of floating-point constants: every
    coefficient of d is below 1e-12 of the same monomial's coefficient (or below
    1e-15 of the largest), and the solver confirms the resulting bound on |d|
    over the box |x| <= 2 max(1, |nominal|)"""
    def co(p):
        if not is_sym(p):
            return {(): Fraction(p)}
        return {m: Fraction(c, p.q) for m, c in p.d.items()}
    ca, cb, cd = co(a), co(b), co(d)
    big = max([abs(c) for c in ca.values()] + [abs(c) for c in cb.values()])
    e1, e2 = Fraction(1, 10 ** 12), Fraction(1, 10 ** 15)
    if loose is not None:
        e1 = e2 = Fraction(loose)
    lim = {}
    for m, c in cd.items():
        lim[m] = max(e1 * max(abs(ca.get(m, 0)), abs(cb.get(m, 0))), e2 * big)
        if abs(c) > lim[m]:
            return False
    ms = list(cd)
    box = []
    for m in ms:
        B = Fraction(1)
        for i in m:
            B *= 2 * max(1, abs(poly.VARS[i][1]))
        box.append(B)
    tol = sum(lim[m] * B for m, B in zip(ms, box))
    r = lambda f: "(/ %s %d)" % (_num(f.numerator), f.denominator)
    txt = ["(set-logic QF_LRA)"]
    for k, (m, B) in enumerate(zip(ms, box)):
        txt.append("(declare-const m%d Real)" % k)
        txt.append("(assert (and (<= (- %s) m%d) (<= m%d %s)))" % (r(B), k, k, r(B)))
    e = ["(* %s m%d)" % (r(cd[m]), k) for k, m in enumerate(ms)]
    e = e[0] if len(e) == 1 else "(+ %s)" % " ".join(e)
    txt.append("(define-fun d () Real %s)" % e)
    txt.append("(assert (or (> d %s) (< d (- %s))))" % (r(tol), r(tol)))
    if solver().ask("\n".join(txt)) != "unsat":
        return False
    STATS["rounding"] += 1
    return True


def _witness(a0, b0, a, b, rng):
    """rational assignment separating a0 and b0 (largest relative gap of a few
    candidates), confirmed by the solver on the polynomial query"""
    rng = rng or random.Random(1)
    vs = sorted(poly.variables(a0) | poly.variables(b0) | poly.variables(a) | poly.variables(b))
    for i in list(vs):
        if i in poly.DEFS:
            vs = sorted(set(vs) | poly.variables(poly.DEFS[i]))
    free = [i for i in vs if i not in poly.DEFS]
    best = None
    for k in range(12):
        env = {}
        for i in free:
            nom = poly.VARS[i][1]
            if k == 0:
                env[i] = nom
            elif nom == 0:
                env[i] = Fraction(rng.randint(-64, 64), 64)
            else:
                env[i] = nom * Fraction(rng.randint(24, 48), 32)
        try:
            va, vb = poly.value(a0, env), poly.value(b0, env)
        except ZeroDivisionError:
            continue
        if va != vb:
            gap = abs(va - vb) / (abs(va) + abs(vb))
            if best is None or gap > best[0]:
                best = (gap, env, va, vb)
    if best is None:
        # equal at every sampled point: let the solver search
        txt = ["(set-logic QF_NRA)"]
        txt += ["(declare-const x%d Real)" % i for i in free]
        txt.append("(assert %s)" % _neq(a, b, _nonlin))
        STATS["nra_queries"] += 1
        r = solver().ask("\n".join(txt))
        if r == "unsat":
            return None
        raise Inconclusive("z3 answered %s for a polynomial difference without a rational witness" % r)
    gap, env, va, vb = best
    txt = ["(set-logic QF_NRA)"]
    for i in free:
        txt.append("(define-fun x%d () Real (/ %s %d))" % (i, _num(env[i].numerator), env[i].denominator))
    txt.append("(assert %s)" % _neq(a, b, _nonlin))
    STATS["nra_queries"] += 1
    r = solver().ask("\n".join(txt))
    if r != "sat":
        raise Inconclusive("z3 answered %s on an explicit counterexample" % r)
    return ({poly.VARS[i][0]: env[i] for i in free}, va, vb)


def cvc5_check(smt2, timeout_s=60):
    t = time.time()
    r = subprocess.run([CVC5, "--lang", "smt2", "--tlimit=%d" % (timeout_s * 1000), "-"],
                       input=smt2, capture_output=True, text=True)
    STATS["cvc5_queries"] += 1
    STATS["solver_s"] += time.time() - t
    return r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "unknown"
