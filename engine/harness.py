"""Check harness: symbolic contexts, obligations, concrete replay, evidence.

A check module defines  PROPERTY, META and scenarios(tier, seed) -> list of
(name, function, kwargs); a scenario function takes a context and states
obligations with ctx.equal / ctx.grad / ctx.true.  The same function runs

* symbolically (SymCtx): tensors hold symbolic values, obligations go to the
  solver;
* concretely (ConcCtx): tensors hold the counterexample's values, the compiled
  kernels are built natively from the working tree, and every obligation is
  evaluated on the real code (gradients against finite differences).
"""
import importlib
import json
import os
import random
import subprocess
import sys
import time
import traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ------------------------------------------------------------------ contexts
class Ctx:
    def note(self, **kw):
        pass


class SymCtx(Ctx):
    mode = "sym"

    def __init__(self, rng):
        from . import symtorch, poly
        self.S, self.poly, self.rng = symtorch, poly, rng
        self.vids = {}
        self.obl = []
        self.truths = []
        self.bad = []
        self.paths = {}
        self.notes = {}
        self.covered = set()

    def explore(self, label, decl, run, check, assume=None, expect=(), budget=300, reals=False):
        """every feasible path of run() for symbolic numbers, see pysym"""
        from . import pysym
        bad, st = pysym.explore(decl, run, check, assume, budget=budget, reals=reals)
        for k in ("paths", "queries", "unknown", "solver_s", "asserted"):
            self.paths[k] = self.paths.get(k, 0) + st[k]
        for k in expect:
            n = sum(v for q, v in st["kinds"].items() if q.startswith(k))
            if not n and not bad:
                raise pysym.Unsupported("%s: no path ends as '%s' (%s)" % (label, k, st["kinds"]))
        for lab, env, what in bad:
            e = {"%s.%s" % (label, k): v for k, v in env.items()}
            self.bad.append(("%s: %s" % (label, lab), e, what, "the specified result"))

    def tensor(self, name, shape, nominal=1, kind="sym", requires_grad=False):
        import numpy as np
        S, P = self.S, self.poly
        shape = tuple(shape)
        a = np.empty(shape, dtype=object)
        ids = []
        for ix in np.ndindex(*shape):
            base = base_value(name, ix, nominal)
            if kind == "conc":
                a[ix] = base
                ids.append(None)
            elif kind == "nil":
                v = P.var("d%s%s" % (name, list(ix)), 0, True)
                a[ix] = v + base
                ids.append(P.var_id(v))
            else:
                v = P.var("%s%s" % (name, list(ix)), base)
                a[ix] = v
                ids.append(P.var_id(v))
        t = S.encode(a)
        self.vids[name] = ids
        if requires_grad:
            t.requires_grad_()
        return t

    def equal(self, label, a, b, tol=None, loose=None):
        a, b = _flat(self.S, a), _flat(self.S, b)
        if len(a) != len(b):
            self.truths.append((label + ": sizes %d and %d" % (len(a), len(b)), False))
            return
        for k, (x, y) in enumerate(zip(a, b)):
            self.obl.append((x, y, "%s[%d]" % (label, k)))
            if loose is not None:
                from . import smt
                smt.LOOSE[self.obl[-1][2]] = loose

    def true(self, label, cond):
        self.truths.append((label, bool(cond)))

    def cotangents(self, outs, kind="sym"):
        return [self.tensor("y%d" % k, o.shape, 1, kind) for k, o in enumerate(outs)]

    def grad(self, label, run, inp, wrt, outs=None, ykind="sym", conc_names=()):
        """autograd gradient == exact derivative of the values the forward
        computes, for every cotangent"""
        import torch
        S, P = self.S, self.poly
        xs = [inp[w] for w in wrt]
        for x in xs:
            x.requires_grad_()
        res = run(**inp)
        sel = [r for k, r in enumerate(res) if (outs is None or k in outs) and r.numel()
               and r.requires_grad]
        self.note_max("outputs_differentiated", len(sel))
        ys = self.cotangents(sel, ykind)
        with_y = []
        for o, y in zip(sel, ys):
            with_y += list(zip(S.cells(o), S.cells(y)))
        gs = torch.autograd.grad(sel, xs, ys, allow_unused=True)
        vids = [v for w in wrt for v in self.vids[w]]
        exp = gradient_through(P, with_y, vids)
        nz = 0
        for w, g, x in zip(wrt, gs, xs):
            ids = self.vids[w]
            got = [0] * len(ids) if g is None else S.cells(g)
            if g is not None and g.shape != x.shape:
                self.truths.append(("%s: gradient shape of %s" % (label, w), False))
                continue
            for k, (v, gg) in enumerate(zip(ids, got)):
                e = P.drop_nil(exp.get(v, 0))
                gg = P.drop_nil(gg)
                if P.is_sym(e) or e != 0:
                    nz += 1
                self.obl.append((gg, e, "%s d/d%s[%d]" % (label, w, k)))
        self.note_add("nonzero_derivatives", nz)
        return res, gs

    def jvp(self, run, inp, dirs):
        """(outputs, directional derivatives) of run at inp along dirs; every
        direction is a tensor of the shape of the input it perturbs"""
        import numpy as np
        S, P = self.S, self.poly
        eps = P.var("eps!", 0, True)
        vid = P.var_id(eps)
        i2 = dict(inp)
        for k, d in dirs.items():
            a = S.decode(inp[k].detach()) + S.decode(d.detach()) * eps
            i2[k] = S.encode(a)
        res = run(**i2)
        base, der = [], []
        for r in res:
            a = S.cells(r)
            b0 = np.empty(len(a), dtype=object)
            d0 = np.empty(len(a), dtype=object)
            for k, x in enumerate(a):
                b0[k] = P.drop_nil(x)
                d0[k] = gradient_through(P, [(x, 1)], [vid]).get(vid, 0)
            base.append(S.encode(b0.reshape(r.shape)))
            der.append(S.encode(d0.reshape(r.shape)))
        return base, der

    def note_max(self, k, v):
        self.notes[k] = max(self.notes.get(k, 0), v)

    def races(self, label, n_shots):
        """no assignment of the shots to threads lets two threads access the
        same memory concurrently, one of them writing.  The accesses of shot s
        on thread t were recorded for every s and t; the assignment and the
        address are the solver's."""
        from . import pysym, smt
        z3 = pysym.z3()
        acc = {}
        for k, (fn, track, rn) in enumerate(self.S.ENV.races):
            for ep, s, t, w, a in track:
                acc.setdefault((fn, ep), {}).setdefault((s, t), (set(), set()))[w].add(self.place(fn, a, rn))
        self.S.ENV.races.clear()
        for (fn, ep), m in sorted(acc.items()):
            T = 1 + max(t for _, t in m)
            full = {(s, t) for s in range(n_shots) for t in range(T)}
            if set(m) != full:
                from .poly import Unsupported
                raise Unsupported("%s: not every shot was seen on every thread" % fn)
            ids = {}
            for r, w in m.values():
                for a in r | w:
                    ids.setdefault(a, len(ids))
            back = {v: k for k, v in ids.items()}
            sol = z3.Solver()
            sol.set("timeout", 120000)
            tau = [z3.Int("thread_of_shot_%d" % s) for s in range(n_shots)]
            sol.add(*[z3.And(x >= 0, x < T) for x in tau])
            addr = z3.Int("address")

            def among(xs):
                xs = sorted(ids[x] for x in xs)
                out = []
                for x in xs:
                    if out and out[-1][1] == x:
                        out[-1][1] = x + 1
                    else:
                        out.append([x, x + 1])
                return z3.Or([z3.And(addr >= a, addr < b) for a, b in out]) if out else z3.BoolVal(False)
            W = {k: among(w) for k, (r, w) in m.items()}
            A = {k: among(r | w) for k, (r, w) in m.items()}
            conf = []
            for s in range(n_shots):
                for u in range(n_shots):
                    if s != u:
                        for t in range(T):
                            for v in range(T):
                                if t != v:
                                    conf.append(z3.And(tau[s] == t, tau[u] == v, W[s, t], A[u, v]))
            sol.add(z3.Or(conf))
            t0 = time.time()
            r = sol.check()
            smt.STATS["queries"] += 1
            smt.STATS["solver_s"] += time.time() - t0
            self.paths["asserted"] = self.paths.get("asserted", 0) + len(conf)
            if r == z3.unknown:
                raise smt.Inconclusive("race query")
            if r == z3.sat:
                mo = sol.model()
                self.bad.append(("race: %s: %s" % (label, fn), {}, "%s with shots on threads %s" % (
                    back[mo.eval(addr).as_long()], [mo.eval(x, True).as_long() for x in tau]), "no concurrent access"))
                return

    def place(self, fn, a, rn):
        """an address that is the same in every execution of the kernel: the
        number of the buffer and the offset (buffers are numbered in the order
        of the arguments)"""
        from . import llir
        if isinstance(a, tuple):
            return a
        return (a >> llir.SHIFT, a & llir.MASK, rn.get(a >> llir.SHIFT, "local"))

    def note_add(self, k, v):
        self.notes[k] = self.notes.get(k, 0) + v


def base_value(name, ix, nominal):
    """deterministic distinct 'generic' values around nominal (dyadic, short)"""
    import zlib
    h = zlib.crc32(("%s%s" % (name, list(ix))).encode())
    if callable(nominal):
        return Fraction(nominal(*ix))
    f = Fraction(48 + h % 31, 64)          # 0.75 .. 1.22
    if isinstance(nominal, tuple):         # signed data
        nominal = nominal[0] * (1 if (h >> 8) & 1 else -1)
    return Fraction(nominal) * f


def _flat(S, a):
    import torch
    if isinstance(a, torch.Tensor):
        if a.dtype == torch.float64:
            return S.cells(a.detach())
        return a.detach().reshape(-1).tolist()
    if isinstance(a, (list, tuple)):
        r = []
        for x in a:
            r += _flat(S, x)
        return r
    return [a if not isinstance(a, float) else S.rat(a)]


def gradient_through(P, with_y, vids):
    """sum y * dp/dvid through the definitions of inverse variables"""
    need = set(vids)
    invs = set()
    stack = set()
    for p, _ in with_y:
        stack |= {i for i in P.variables(p) if i in P.DEFS}
    while stack:
        i = stack.pop()
        if i in invs:
            continue
        invs.add(i)
        stack |= {j for j in P.variables(P.DEFS[i]) if j in P.DEFS}
    # keep only inverses that depend on the vids
    g = P.gradient(with_y, list(need | invs))
    for i in sorted(invs, reverse=True):
        a = g.get(i, 0)
        if not P.is_sym(a) and a == 0:
            continue
        iv = P.Poly({(i,): 1}, 1)
        ad = -(a * iv * iv)
        D = P.DEFS[i]
        sub = P.gradient([(D, ad)], [v for v in P.variables(D) if v in need or v in invs])
        for v, e in sub.items():
            g[v] = g.get(v, 0) + e
    return g


class ConcCtx(Ctx):
    """concrete evaluation on the real code at a counterexample"""
    mode = "conc"

    def __init__(self, env):
        self.env = env
        self.fail = []
        self.notes = {}
        self.labels = 0

    def tensor(self, name, shape, nominal=1, kind="sym", requires_grad=False):
        import numpy as np
        import torch
        a = np.empty(shape, dtype=np.float64)
        for ix in np.ndindex(*shape):
            base = base_value(name, ix, nominal)
            if kind == "sym":
                base = self.env.get("%s%s" % (name, list(ix)), base)
            elif kind == "nil":
                base = base + self.env.get("d%s%s" % (name, list(ix)), 0) * 0
            a[ix] = float(base)
        t = torch.from_numpy(a)
        if requires_grad:
            t.requires_grad_()
        return t

    def explore(self, label, decl, run, check, assume=None, expect=(), budget=300, reals=False):
        from . import pysym
        import warnings
        mine = {k[len(label) + 1:]: v for k, v in self.env.items() if k.startswith(label + ".")}
        if not mine and any(isinstance(s, tuple) for s in decl.values()):
            return
        inp = pysym.concrete(decl, mine)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = pysym.Out("returned", run(inp))
        except pysym.Cut as c:
            out = pysym.Out("returned", c.value)
        except Exception as e:
            out = pysym.Out("raised", e)
        for lab, f in check(inp, out):
            self.true("%s: %s with %s (%s)" % (
                label, lab, {k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in inp.items()
                             if isinstance(decl[k], tuple)},
                repr(out.value)[:150] if out.raised else "accepted"), f)

    def equal(self, label, a, b, tol=1e-9, loose=None):
        tol = max(tol or 1e-9, loose or 0)
        import numpy as np
        x, y = _cflat(a), _cflat(b)
        self.labels += 1
        if len(x) != len(y):
            self.fail.append("%s: sizes %d and %d" % (label, len(x), len(y)))
            return
        if not len(x):
            return
        s = max(1e-300, np.abs(x[np.isfinite(x)]).max(initial=0),
                np.abs(y[np.isfinite(y)]).max(initial=0))
        d = np.abs(x - y)
        bad = ~(d <= (tol or 1e-9) * s)
        if bad.any():
            k = int(np.nonzero(bad)[0][0])
            self.fail.append("%s: entry %d is %r, expected %r" % (label, k, float(x[k]), float(y[k])))

    def true(self, label, cond):
        self.labels += 1
        if not cond:
            self.fail.append(label)

    def cotangents(self, outs, kind="sym"):
        return [self.tensor("y%d" % k, o.shape, 1, kind) for k, o in enumerate(outs)]

    def grad(self, label, run, inp, wrt, outs=None, ykind="sym", conc_names=()):
        import torch
        xs = [inp[w] for w in wrt]
        for x in xs:
            x.requires_grad_()
        res = run(**inp)
        idx = [k for k, r in enumerate(res) if (outs is None or k in outs) and r.numel()
               and r.requires_grad]
        sel = [res[k] for k in idx]
        ys = self.cotangents(sel, ykind)
        gs = torch.autograd.grad(sel, xs, ys, allow_unused=True)

        def val(name, t):
            i2 = {k: (v.detach() if isinstance(v, torch.Tensor) else v) for k, v in inp.items()}
            i2[name] = t
            with torch.no_grad():
                r = run(**i2)
            return sum(float((r[k] * y).sum()) for k, y in zip(idx, ys))
        for w, g, x in zip(wrt, gs, xs):
            base = x.detach().clone()
            got = torch.zeros_like(base) if g is None else g.detach()
            fd = torch.zeros_like(base).reshape(-1)
            for k in range(base.numel()):
                sc = max(abs(float(base.reshape(-1)[k])), 0.1)
                h = 2e-3 * sc
                def at(m):
                    t = base.clone()
                    t.view(-1)[k] += m * h
                    return val(w, t)
                fd[k] = (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * h)
            self.equal("%s gradient with respect to %s (finite differences)" % (label, w),
                       got.reshape(-1), fd, tol=2e-6)
        return res, gs

    def jvp(self, run, inp, dirs):
        import torch
        with torch.no_grad():
            base = run(**inp)

            def at(h):
                i2 = dict(inp)
                for k, d in dirs.items():
                    i2[k] = inp[k] + h * d
                return run(**i2)
            h = 2e-3
            p1, m1, p2, m2 = at(h), at(-h), at(2 * h), at(-2 * h)
            der = [(8 * (a - b) - (c - d)) / (12 * h) for a, b, c, d in zip(p1, m1, p2, m2)]
        return base, der

    def note_max(self, k, v):
        pass

    def races(self, *a):
        pass

    def note_add(self, k, v):
        pass


def _cflat(a):
    import numpy as np
    import torch
    if isinstance(a, torch.Tensor):
        return a.detach().reshape(-1).double().numpy()
    if isinstance(a, (list, tuple)):
        r = [_cflat(x) for x in a]
        return np.concatenate(r) if r else np.zeros(0)
    return np.array([float(a)])


# ------------------------------------------------------------------ running
def _load_check(mod):
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    return importlib.import_module("checks." + mod)


def run_symbolic(mod, name, fn, kw, seed):
    """worker: one scenario; returns a result dict"""
    from . import symtorch as S, poly, smt, llir, pysym
    import contextlib
    t0 = time.time()
    c0 = time.process_time()
    dw = S.load()
    S.reset()
    S.ENV.races.clear()
    S.ENV.encoded.clear()
    S.ENV.on_call = None
    S.ENV.schedule = None
    S.ENV.track = False
    st0 = dict(smt.STATS)
    smt.LOOSE.clear()
    a0 = dict(S.STATS)
    rng = random.Random("%s/%s" % (seed, name))
    ctx = SymCtx(rng)
    res = {"name": name, "status": "ok", "bad": []}
    try:
        try:
            with contextlib.nullcontext() if getattr(fn, "plain", False) else S.SymMode():
                fn(ctx, dw, **kw)
        except (llir.MemError, S.AbiError) as e:
            res.update(status="crash", error="%s: %s" % (type(e).__name__, e),
                       tb=traceback.format_exc()[-1500:])
        except (poly.Unsupported, pysym.Unsupported, pysym.Budget) as e:
            res.update(status="unsupported", error=str(e), tb=traceback.format_exc()[-2500:])
        except Exception as e:
            res.update(status="exception", error="%s: %s" % (type(e).__name__, e),
                       tb=traceback.format_exc()[-2500:])
        res["exec_s"] = time.time() - t0
        if res["status"] == "ok":
            for lab, c in ctx.truths:
                if not c:
                    res["bad"].append((lab, {}, "", ""))
            for lab, env, a, b in ctx.bad:
                res["bad"].append((lab, {k: str(v) for k, v in env.items()}, a, b))
            bad = smt.decide(ctx.obl, rng=rng)
            for lab, env, a, b in bad:
                res["bad"].append((lab, {k: str(v) for k, v in env.items()},
                                   str(float(a)), str(float(b))))
            # vacuity twin: the same obligations with one side perturbed by an
            # unconstrained variable must be refutable
            if ctx.obl and not res["bad"]:
                k = rng.randrange(len(ctx.obl))
                a, b, lab = ctx.obl[k]
                tw = smt.decide([(a + poly.var("twin!", 1), b, "twin")], rng=rng)
                if not tw:
                    res.update(status="vacuous", error="reachability twin was not refuted")
                res["twin"] = bool(tw)
    except smt.Inconclusive as e:
        res.update(status="inconclusive", error=str(e))
    res["stats"] = {k: smt.STATS[k] - st0[k] for k in st0}
    res["stats"]["kernel_calls"] = S.STATS["kernel_calls"] - a0["kernel_calls"]
    res["stats"]["aten_ops"] = S.STATS["aten_sym"] - a0["aten_sym"]
    for k, q in (("queries", "queries"), ("solver_s", "solver_s"), ("asserted", "obligations")):
        res["stats"][q] += ctx.paths.get(k, 0)
    res["stats"]["python_paths"] = ctx.paths.get("paths", 0)
    res["stats"]["undecided_branch_queries"] = ctx.paths.get("unknown", 0)
    res["conds"] = len(S.CONDS)
    res["n_obl"] = len(ctx.obl) + len(ctx.truths) + ctx.paths.get("asserted", 0)
    res["variables"] = len(poly.VARS)
    res["notes"] = ctx.notes
    res["encoded"] = sorted(S.ENV.encoded)
    res["wall"] = time.time() - t0
    if ctx.obl:
        a, b, lab = ctx.obl[len(ctx.obl) // 2]
        res["sample"] = {"obligation": lab, "lhs": poly.show(a, 3), "rhs": poly.show(b, 3)}
    return res


def _worker(args):
    mod, name, seed, tier = args
    import signal
    m = _load_check(mod)
    for n, fn, kw in m.scenarios(tier, seed):
        if n == name:
            try:
                return run_symbolic(mod, n, fn, kw, seed)
            except BaseException as e:      # never lose a worker silently
                return {"name": name, "status": "error", "bad": [],
                        "error": "%s: %s" % (type(e).__name__, e),
                        "tb": traceback.format_exc()[-2500:], "stats": {},
                        "conds": 0, "n_obl": 0, "variables": 0, "notes": {},
                        "encoded": [], "wall": 0, "exec_s": 0}
    raise KeyError(name)


# ------------------------------------------------------------------ replay
def replay_file(mod, name, seed, tier, env, what):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    import hashlib
    h = hashlib.sha1(("%s %s %s" % (mod, name, what)).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (mod, h))
    with open(p, "w") as f:
        json.dump({"check": mod, "scenario": name, "seed": seed, "tier": tier,
                   "what": what, "values": env}, f, indent=1)
    return p


def replay(path, asan=False, timeout=600, tsan=False):
    """run the scenario concretely in a subprocess; returns (verdict, text),
    verdict in reproduced / clean / error"""
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    if asan:
        lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True,
                             text=True).stdout.strip()
        e.update(LD_PRELOAD=lib, ASAN_OPTIONS="detect_leaks=0:exitcode=99:detect_odr_violation=0",
                 DW_REPLAY_ASAN="1")
    cmd = []
    if tsan:
        lib = subprocess.run(["gcc", "-print-file-name=libtsan.so"], capture_output=True,
                             text=True).stdout.strip()
        e.update(LD_PRELOAD=lib, TSAN_OPTIONS="exitcode=0 report_signal_unsafe=0 history_size=4",
                 DW_REPLAY_TSAN="1", OMP_NUM_THREADS="1")
        import shutil
        if shutil.which("setarch"):
            cmd = ["setarch", "-R"]
    try:
        r = subprocess.run(cmd + [sys.executable, "-m", "engine.replay", path], cwd=HERE,
                           env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "error", "replay timed out"
    out = r.stdout + r.stderr
    if tsan:
        for blk in out.split("=================="):
            if "ThreadSanitizer: data race" in blk and "_omp_fn" in blk:
                ls = [x.strip() for x in blk.splitlines() if "#0" in x or "#1" in x]
                return "reproduced", "ThreadSanitizer: data race: " + "; ".join(ls[:4])[:400]
    for l in r.stdout.splitlines():
        if l.startswith("REPRODUCED"):
            return "reproduced", l
        if l.startswith("CLEAN"):
            return "clean", l
    if "AddressSanitizer" in out:
        ls = [l for l in out.splitlines() if "ERROR: AddressSanitizer" in l]
        return "reproduced", ls[0] if ls else "AddressSanitizer report"
    if r.returncode < 0:
        return "reproduced", "the real code died with signal %d" % -r.returncode
    return "error", out[-1500:]


# ------------------------------------------------------------------ main
def known_findings(prop):
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                # finding: property=<id> key=<key> <text>
                key = [w for w in l.split() if w.startswith("key=")][0][4:]
                out.append((key, l.split("key=" + key, 1)[1].strip()))
    return out


def setup():
    """the tools that the checks need are there"""
    import shutil
    import torch
    miss = [t for t in ("clang", "gcc", "z3-new") if shutil.which(t) is None]
    print("torch", torch.__version__, "missing:", miss or "nothing")
    return 1 if miss else 0


def main(mod):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    m = _load_check(mod)
    prop = m.PROPERTY
    scen = [(n, f, k) for n, f, k in m.scenarios(tier, seed) if only is None or only in n]
    import multiprocessing as mp
    ctxm = mp.get_context("forkserver")
    ctxm.set_forkserver_preload(["torch", "torch.autograd", "torch.fx", "z3", "engine.symtorch", "engine.smt", "engine.harness"])
    jobs = [(mod, n, seed, tier) for n, _, _ in scen]
    verbose = "-v" in sys.argv
    results = []
    judge = Judge(prop, mod, seed, tier)
    budget = float(os.environ.get("DW_BUDGET", "800" if tier == "quick" else "20000"))
    procs = int(os.environ.get("DW_PROCS", "8"))
    with ctxm.Pool(min(procs, max(1, len(jobs))), maxtasksperchild=getattr(m, "TASKS_PER_CHILD", 6)) as pool:
        it = pool.imap_unordered(_worker, jobs)
        for _ in jobs:
            left = budget - (time.time() - t0)
            try:
                r = it.next(timeout=max(1, left))
            except mp.TimeoutError:
                results.append({"name": "(time)", "status": "timeout", "bad": [],
                                "error": "the time budget of %ds ran out" % budget,
                                "stats": {}, "conds": 0, "n_obl": 0, "variables": 0,
                                "notes": {}, "encoded": [], "wall": 0, "exec_s": 0})
                judge(results[-1])
                pool.terminate()
                break
            results.append(r)
            if verbose:
                print("%-50s %-11s exec %.1fs wall %.1fs obl %d vars %d %s %s" % (
                    r["name"], r["status"], r.get("exec_s", 0), r["wall"], r["n_obl"],
                    r["variables"], r["notes"], r.get("error", "")), flush=True)
                if r["status"] not in ("ok",):
                    print(r.get("tb", ""))
            judge(r)
            if judge.violations and "--all" not in sys.argv:
                pool.terminate()
                break
    return finish(m, prop, tier, seed, results, t0, scen, mod, judge)


class Judge:
    """replays each candidate violation on the real code"""

    def __init__(self, prop, mod, seed, tier):
        self.prop, self.mod, self.seed, self.tier = prop, mod, seed, tier
        self.known = known_findings(prop)
        self.violations, self.errors, self.seen_known = [], [], {}

    def __call__(self, r):
        cands = []
        if r["status"] in ("crash", "exception"):
            cands.append((r["error"], {}, r["status"] == "crash"))
        elif r["status"] != "ok":
            self.errors.append((r["name"], r["status"], r.get("error"), r.get("tb", "")))
        for lab, env, a, b in r["bad"][:3]:
            cands.append(("%s: %s instead of %s" % (lab, a, b), env, False))
        for k, (what, env, crash) in enumerate(cands):
            p = replay_file(self.mod, r["name"], self.seed, self.tier, env, what)
            v, txt = replay(p, asan=crash, tsan=what.startswith("race:"))
            if v == "clean" and crash:
                v, txt = replay(p, asan=False)
            if v == "reproduced":
                kf = [x for x in self.known if x[0] in ("%s|%s" % (r["name"], what)).replace(" ", "_")
                      or x[0] in txt.replace(" ", "_")]
                if kf:
                    self.seen_known[kf[0][0]] = kf[0][1]
                else:
                    self.violations.append((r["name"], what, p, txt))
                return
            if k == len(cands) - 1:
                self.errors.append((r["name"], "counterexample did not reproduce (%s)" % v,
                                    what, txt))


def finish(m, prop, tier, seed, results, t0, scen, mod, judge):
    violations, errors = judge.violations, judge.errors
    for k, txt in judge.known:
        print("KNOWN-FINDING: property=%s %s" % (prop, txt))
    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    ok = [r for r in results if r["status"] == "ok" and not r["bad"]]
    enc = sorted({e for r in results for e in r["encoded"]})
    samples = [dict(scenario=r["name"], **r["sample"]) for r in results if r.get("sample")][:6]
    cov = {
        "explanation": getattr(m, "EXPLANATION", ""),
        "evaluations": tot.get("obligations", 0) + sum(r["n_obl"] for r in results if not r["stats"]),
        "distinct_nontrivial": tot.get("obligations", 0) - tot.get("trivial", 0),
        "rule": "one case = one solver obligation (an equality or assertion over all values of the "
                "symbolic inputs of a scenario); non-trivial = not between two equal constants",
        "samples": samples,
        "scenarios": len(results), "scenarios_decided": len(ok),
        "undecided": [e[:3] for e in errors][:20],
        "scenario_names": [r["name"] for r in results][:200],
        "functions_encoded": enc,
        "bounds": getattr(m, "BOUNDS", ""),
        "solver_queries": tot.get("queries", 0),
        "solver_s": round(tot.get("solver_s", 0), 3),
        "solver_terms": tot.get("terms", 0),
        "python_paths": tot.get("python_paths", 0),
        "undecided_branch_queries": tot.get("undecided_branch_queries", 0),
        "nonlinear_queries": tot.get("nra_queries", 0),
        "equal_up_to_rounding_of_constants": tot.get("rounding", 0),
        "symbolic_variables": sum(r["variables"] for r in results),
        "kernel_executions": tot.get("kernel_calls", 0),
        "tensor_operations": tot.get("aten_ops", 0),
        "path_conditions_fixed_by_nominal_values": sum(r["conds"] for r in results),
        "vacuity_twins_refuted": sum(1 for r in results if r.get("twin")),
        "symbolic_exec_s": round(sum(r.get("exec_s", 0) for r in results), 2),
    }
    for k in {k for r in results for k in r["notes"]}:
        cov[k] = sum(r["notes"].get(k, 0) for r in results)
    ev = {"property": prop, "tier": tier, "seed": seed,
          "level": getattr(m, "LEVEL", "other"), "coverage": cov,
          "assumptions": getattr(m, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    if hasattr(m, "extend_evidence"):
        m.extend_evidence(ev, results)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for n, what, p, txt in violations:
        print("violation in scenario %s: %s\n  replay on the real code: %s" % (n, what, txt))
    if violations:
        print("VIOLATION property=%s replay=%s" % (prop, violations[0][2]))
        return 1
    for e in errors[:8]:
        print("UNDECIDED %s: %s: %s\n%s" % e)
    if errors and (os.environ.get("DW_STRICT") or len(ok) < max(1, 0.5 * len(scen))):
        return 3
    print("%s: %d of %d scenarios decided, %d obligations (%d non-trivial), %d solver queries, %.1fs solver, %.1fs wall: held"
          % (prop, len(ok), len(scen), cov["evaluations"], cov["distinct_nontrivial"],
             cov["solver_queries"], cov["solver_s"], ev["wall_s"]))
    return 0
