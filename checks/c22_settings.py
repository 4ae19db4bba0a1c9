from checks.common import *
from checks import args as A
from checks.args import *

PROPERTY = "C22"
TECHNIQUE = "symbolic execution of the Python argument checks (all branches, z3 path conditions) from the public functions"
EXPLANATION = ("Each public function is executed with one setting symbolic; z3 decides for every path that the call is "
               "refused exactly when the setting violates its documented restriction and that the value used is the one given.")
BOUNDS = "numbers unbounded (tensor sizes up to 6); sequences up to 7 entries; 1-3 dimensions"
ASSUMPTIONS = ["numbers are exact integers and reals; NaN and infinities are not covered",
               "one setting at a time, the others at valid values"]
TASKS_PER_CHILD = 200
INTS = ("int", None, None)
REALS = ("real", None, None)


def setting(ctx, dw, prop, nd, name, spec, where, valid, value=None, drop=(), extra=None, expect=("returned", "raised"),
            arg=None, pos=False):
    def run(inp):
        kw = dict(extra or {})
        kw[name] = inp[name]
        return A.call(dw, prop, nd, where, drop=drop, **kw)

    def check(inp, out):
        x = inp[name]
        vals = []
        if not out.raised and value is not None:
            vals = value(x, out.value)
        return accepted_iff(valid(x, nd), out, *vals)
    ctx.explore(name, {name: spec}, run, check, expect=expect)


def same(key):
    return lambda x, v: [("%s is passed on" % key, v[key], x)]


def each(key, n=None):
    def f(x, v):
        got = v[key]
        want = x if isinstance(x, list) else [x] * n
        if len(got) != len(want):
            return [("length of " + key, len(got), len(want))]
        return [("%s[%d] is passed on" % (key, k), g, w) for k, (g, w) in enumerate(zip(got, want))]
    return f


class Str:
    """a symbolic string"""

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        z = pysym.z3()
        return pysym.EX.fork(self.t == z.StringVal(o)) if isinstance(o, str) else False

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __str__(self):
        return "<symbolic>"


def sources_match(ctx, dw, prop, nd, dims):
    """source amplitudes of a symbolic shape"""
    a, l, c = PROPS[prop].srcs(nd)[0]
    n_shots, n_src = 2, 2
    loc = torch.tensor([[[1] * nd, [0] * nd]] * n_shots)
    # the other sources are left out, so this one decides the sizes
    drop = [k for s in PROPS[prop].srcs(nd) for k in s[:2]] + [k for k, _ in PROPS[prop].recs(nd)]
    sym = {"s%d" % k: ("int", 0, 5) for k in range(dims)}

    def run(inp):
        sh = [inp["s%d" % k] for k in range(dims)]
        amp = (pysym.shape_tensor(sh) if any(pysym.is_sym(s) for s in sh)
               else torch.ones(sh, dtype=torch.float64))
        return A.call(dw, prop, nd, "extract_survey", drop=drop, **{a: amp, l: loc})

    def check(inp, out):
        ok = dims == 3 and And(Eq(inp["s0"], n_shots), Eq(inp["s1"], n_src))
        return accepted_iff(ok, out)
    ctx.explore("source shape %d" % dims, sym, run, check,
                expect=("returned", "raised") if dims == 3 else ("raised",))


def nt_given(ctx, dw, prop, nd, with_sources):
    drop = () if with_sources else [k for s in PROPS[prop].srcs(nd) for k in s[:2]]

    def run(inp):
        ex = {}
        if not with_sources:
            ex[PROPS[prop].fields(nd)[0]] = torch.zeros(
                [1] + [s + 2 for s in A.SHAPE[nd]], dtype=torch.float64)
        return A.call(dw, prop, nd, "set_source_amplitudes", drop=drop, nt=inp["nt"], **ex)

    def check(inp, out):
        ok = Eq(inp["nt"], 3) if with_sources else Le(0, inp["nt"])
        vals = [] if out.raised else [("nt is passed on", out.value["nt"], inp["nt"])]
        return accepted_iff(ok, out, *vals)
    ctx.explore("nt", {"nt": INTS}, run, check, expect=("returned", "raised"))


def callback_freq(ctx, dw, prop, nd, backend):
    def run(inp):
        kw = {"python_backend": backend} if backend else {}
        A.call(dw, prop, nd, "kernel", callback_frequency=inp["f"], **kw)
        return None

    def check(inp, out):
        return accepted_iff(Lt(0, inp["f"]), out)
    ctx.explore("callback_frequency", {"f": INTS}, run, check, expect=("returned", "raised"))


def storage(ctx, dw, prop, nd):
    modes = ("device", "cpu", "disk", "none")

    def run(inp):
        m = inp["mode"]
        if isinstance(m, pysym.Num):
            m = Str(pysym.z3().String("storage_mode"))
        A.call(dw, prop, nd, "kernel", storage_mode=m, storage_path="/nonexistent-dir")

    def check(inp, out):
        if isinstance(inp["mode"], pysym.Num):
            z = pysym.z3()
            s = z.String("storage_mode")
            return accepted_iff(z.Or(*[s == z.StringVal(m) for m in modes]), out)
        return accepted_iff(True, out)
    if ctx.mode == "sym":
        ctx.explore("storage_mode", {"mode": INTS}, run, check, expect=("returned", "raised"))
    # concrete spellings, also used to confirm what was found
    for m in modes + ("Device", "gpu", "", "non", "disk ", "ram", "memory"):
        try:
            with pysym_quiet():
                A.call(dw, prop, nd, "kernel", storage_mode=m, storage_path="/nonexistent-dir")
            ok = True
        except pysym.Cut:
            ok = True
        except Exception:
            ok = False
        ctx.true("storage_mode %r" % m, ok == (m in modes))


class pysym_quiet:
    def __enter__(self):
        import warnings
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter("ignore")

    def __exit__(self, *a):
        self.w.__exit__(*a)


def wrong_types(ctx, dw, prop, nd):
    """settings of the wrong type or arrangement are refused (fixed cases)"""
    amp, loc, _ = PROPS[prop].srcs(nd)[0]
    rec = PROPS[prop].recs(nd)[0][0]
    bad = [dict(accuracy=4.0), dict(accuracy="4"), dict(accuracy=[4]), dict(pml_width="a"), dict(pml_width=None),
           dict(pml_width=[1.5] * 2 * nd), dict(pml_freq="a"), dict(max_vel="a"), dict(nt=2.0), dict(nt=3.5),
           dict(model_gradient_sampling_interval=1.0), dict(freq_taper_frac="x"), dict(time_pad_frac="x"),
           dict(freq_taper_frac=float("nan")), dict(time_pad_frac=float("nan")),
           dict(callback_frequency=1.0), dict(survey_pad=[1.0] * 2 * nd), dict(survey_pad=-1), dict(dx="a"),
           dict(survey_pad=[None] * (2 * nd + 1)), dict(survey_pad=[1] * (2 * nd - 1)),
           {loc: None}, {amp: None}, dict(survey_pad=1, origin=[0] * nd),
           {amp: torch.ones(1, 1, 3, dtype=torch.float32)}, {loc: torch.ones(1, 1, nd + 1, dtype=torch.long)},
           {loc: torch.ones(1, 1, nd, dtype=torch.float64) * 1.5},
           {rec: torch.ones(2, 1, nd, dtype=torch.long)}, {rec: torch.ones(1, nd, dtype=torch.long)},
           {rec: torch.ones(1, 2, nd, dtype=torch.long)}, {rec: torch.full((1, 1, nd), -1)}]
    good = [dict(), dict(accuracy=8), dict(pml_width=[2] * 2 * nd), dict(pml_width=0), dict(survey_pad=None),
            dict(survey_pad=[None] * 2 * nd), dict(survey_pad=[1, None] * nd), dict(dx=1.0), dict(dx=1),
            dict(pml_width=torch.tensor(2)), dict(freq_taper_frac=1), dict(time_pad_frac=0)]
    m = A.models(prop, nd)
    short = list(m)
    short[-1] = short[-1][..., :-1]
    if len(m) > 1:
        bad.append(dict(mods=short))
        bad.append(dict(mods=[m[0]] + [x.float() for x in m[1:]]))
    bad.append(dict(mods=A.models(prop, nd, nb=3)))
    for want, cases in ((False, bad), (True, good)):
        for k, c in enumerate(cases):
            try:
                with pysym_quiet():
                    A.call(dw, prop, nd, "kernel", **c)
                ok = True
            except pysym.Cut:
                ok = True
            except pysym.Unsupported:
                raise
            except Exception:
                ok = False
            ctx.true("%s %s" % ("accepts" if want else "refuses", {a: (tuple(b.shape) if hasattr(b, "shape") else b)
                                                                   for a, b in c.items() if a != "mods"} or "models %d" % k),
                     ok == want)


for _f in (setting, sources_match, nt_given, callback_freq, storage, wrong_types):
    _f.plain = True


def survey(x, nd):
    return And(*[Le(0, v) for v in (x if isinstance(x, list) else [x])])


def scenarios(tier, seed):
    out = []
    for p in PROPS:
        def a(title, f, **k):
            out.append(("%s %s" % (p, title), f, dict(prop=p, **k)))
        for nd in (1, 2, 3):
            d = "%dd " % nd
            a(d + "accuracy", setting, nd=nd, name="accuracy", spec=INTS, where="setup", value=same("accuracy"),
              valid=lambda x, nd: Or(*[Eq(x, v) for v in (2, 4, 6, 8)]))
            a(d + "pml_width", setting, nd=nd, name="pml_width", spec=INTS, where="extract_survey",
              value=each("pml_width", 2 * nd), valid=lambda x, nd: Le(0, x))
            a(d + "pml_width real", setting, nd=nd, name="pml_width", spec=REALS, where="extract_survey",
              valid=lambda x, nd: And(Le(0, x), pysym.z3().IsInt(x.t) if pysym.is_sym(x) else x == int(x)))
            for n in (2 * nd - 1, 2 * nd, 2 * nd + 1):
                a(d + "pml_width list of %d" % n, setting, nd=nd, name="pml_width", spec=("list", n, INTS),
                  where="extract_survey", value=each("pml_width"),
                  valid=lambda x, nd: And(len(x) == 2 * nd, *[Le(0, v) for v in x]),
                  expect=("returned", "raised") if n == 2 * nd else ("raised",))
            a(d + "grid_spacing", setting, nd=nd, name="dx", spec=REALS, where="cfl_condition_n",
              value=lambda x, v, nd=nd: each("grid_spacing", nd)(x, v), valid=lambda x, nd: Lt(0, x))
            for n in range(0, nd + 2):
                a(d + "grid_spacing list of %d" % n, setting, nd=nd, name="dx", spec=("list", n, REALS),
                  where="cfl_condition_n", value=each("grid_spacing"),
                  valid=lambda x, nd: And(len(x) == nd, *[Lt(0, v) for v in x]),
                  expect=("returned", "raised") if n == nd else ("raised",))
            a(d + "survey_pad", setting, nd=nd, name="survey_pad", spec=INTS, where="extract_models", valid=survey)
            for n in (2 * nd - 1, 2 * nd, 2 * nd + 1):
                a(d + "survey_pad list of %d" % n, setting, nd=nd, name="survey_pad", spec=("list", n, INTS),
                  where="get_survey_extents_one_side" if n == 2 * nd else "extract_models",
                  valid=lambda x, nd: And(len(x) == 2 * nd, survey(x, nd)),
                  expect=("returned", "raised") if n == 2 * nd else ("raised",))
            a(d + "fixed cases", wrong_types, nd=nd)
            a(d + "storage_mode", storage, nd=nd)
        nd = 2
        a("pml_freq", setting, nd=nd, name="pml_freq", spec=REALS, where="setup", value=same("pml_freq"),
          valid=lambda x, nd: Le(0, x))
        a("max_vel", setting, nd=nd, name="max_vel", spec=REALS, where="cfl_condition_n",
          value=lambda x, v: [("max_vel is passed on", v["max_abs_vel"], If(Lt(x, 0), -x, x))],
          valid=lambda x, nd: Ne(x, 0))
        a("interval", setting, nd=nd, name="model_gradient_sampling_interval", spec=INTS, where="setup",
          value=same("model_gradient_sampling_interval"), valid=lambda x, nd: Le(0, x))
        for f in ("freq_taper_frac", "time_pad_frac"):
            a(f, setting, nd=nd, name=f, spec=REALS, where="setup", value=same(f),
              valid=lambda x, nd: And(Le(0, x), Le(x, 1)))
        for n in (1, 2, 3, 4):
            a("source amplitudes %d dims" % n, sources_match, nd=nd, dims=n)
        a("nt with sources", nt_given, nd=nd, with_sources=True)
        a("nt without sources", nt_given, nd=nd, with_sources=False)
        for b in (None, "eager"):
            a("callback_frequency %s" % (b or "compiled"), callback_freq, nd=nd, backend=b)
    return out
