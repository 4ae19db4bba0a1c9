"""python -m engine.replay FILE: evaluate a counterexample on the real code."""
import ctypes
import json
import os
import shutil
import subprocess
import sys
import tempfile
from fractions import Fraction

sys.dont_write_bytecode = True


SHIM = r"""
/* parallel regions as real threads that are created and joined, so that the
   sanitizer sees exactly the ordering OpenMP guarantees */
#include <pthread.h>
#include <stdlib.h>
#pragma GCC visibility push(hidden)
static __thread int me, team = 1;
struct job { void (*fn)(void *); void *data; int id, n; };
static void *run(void *p) {
  struct job *j = p; me = j->id; team = j->n; j->fn(j->data); return 0; }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
  if (!n) n = 1;
  pthread_t *t = malloc(n * sizeof *t);
  struct job *j = malloc(n * sizeof *j);
  for (unsigned i = 0; i < n; ++i) {
    j[i].fn = fn; j[i].data = data; j[i].id = i; j[i].n = n;
    pthread_create(&t[i], 0, run, &j[i]);
  }
  for (unsigned i = 0; i < n; ++i) pthread_join(t[i], 0);
  free(t); free(j);
}
int omp_get_thread_num(void) { return me; }
int omp_get_num_threads(void) { return team; }
int omp_get_max_threads(void) { return team; }
"""


def native(asan, tsan=False):
    """a library object that builds the kernels it is asked for from source"""
    from . import symtorch as S
    d = tempfile.mkdtemp(prefix="dwnative")
    import atexit
    atexit.register(shutil.rmtree, d, True)
    flags = ["-O1", "-fopenmp", "-fPIC", "-shared", "-ffp-contract=off",
             "-ftrivial-auto-var-init=pattern"]
    if asan:
        flags += ["-fsanitize=address", "-fno-omit-frame-pointer", "-g"]
    if tsan:
        flags += ["-fsanitize=thread", "-g"]
        with open(os.path.join(d, "shim.c"), "w") as f:
            f.write(SHIM)
        subprocess.check_call(["gcc", "-c", "-fPIC", "-O1", "-fsanitize=thread", os.path.join(d, "shim.c"), "-o",
                               os.path.join(d, "shim.o")])
    libs = {}

    class Native:
        def __getattr__(self, name):
            if name.startswith("_"):
                raise AttributeError(name)
            m = S.NAME.match(name)
            k = m.groups()[:4]
            if k not in libs:
                prop, nd, acc, dt = k
                objs = []
                defs = ["-DDW_NDIM=" + nd, "-DDW_DTYPE=" + dt, "-DDW_DEVICE=cpu"]
                so = os.path.join(d, "_".join(k) + ".so")
                cmds = []
                for tu, a in ((prop, acc), ("storage_utils", "2"), ("simple_compress", "2")):
                    o = os.path.join(d, tu + "_".join(k) + ".o")
                    cmds.append(subprocess.Popen(
                        ["gcc", "-c", "-w"] + [f for f in flags if f != "-shared"] + defs +
                        ["-DDW_ACCURACY=" + a, os.path.join(S.SRC, tu + ".c"), "-o", o]))
                    objs.append(o)
                for c in cmds:
                    if c.wait():
                        raise RuntimeError("gcc failed")
                subprocess.check_call(["gcc"] + [f for f in flags if not tsan or f != "-fopenmp"] + objs +
                                      ([os.path.join(d, "shim.o")] if tsan else []) + ["-o", so, "-lm"])
                libs[k] = ctypes.CDLL(so)
            return getattr(libs[k], name)
    return Native()


def main(path):
    from . import harness, pysym, symtorch as S
    spec = json.load(open(path))
    m = harness._load_check(spec["check"])
    fn = kw = None
    for n, f, k in m.scenarios(spec["tier"], spec["seed"]):
        if n == spec["scenario"]:
            fn, kw = f, k
    if fn is None:
        print("no such scenario")
        return 2
    dw = S.load()
    S.ENV.kernel = native(bool(os.environ.get("DW_REPLAY_ASAN")), bool(os.environ.get("DW_REPLAY_TSAN")))
    env = {k: Fraction(v) for k, v in spec["values"].items()}
    ctx = harness.ConcCtx(env)
    try:
        fn(ctx, dw, **kw)
    except pysym.Unsupported as e:
        print("unsupported: %s" % e)
        return 3
    except Exception as e:
        import traceback
        traceback.print_exc()
        print("REPRODUCED %s: the real code raised %s: %s" % (spec["scenario"], type(e).__name__,
                                                        str(e).replace("\n", " ")[:300]))
        return 1
    if ctx.fail:
        print("REPRODUCED %s: %s" % (spec["scenario"], "; ".join(ctx.fail[:3])))
        return 1
    print("CLEAN %s: %d obligations hold on the real code" % (spec["scenario"], ctx.labels))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
