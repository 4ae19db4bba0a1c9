"""scenario functions shared by the checks"""
from engine.adapters import Cfg, PROPS, DIM


def floats(inp):
    return [k for k in inp if inp[k].dtype.is_floating_point]


def grad(ctx, dw, cfg, wrt="all", outs=None, ykind="sym", **ik):
    """autograd == exact derivative"""
    c = Cfg(**cfg)
    inp = c.inputs(ctx, **ik)
    if wrt == "all":
        w = floats(inp)
    elif wrt == "all_linear":
        w = [x for x in floats(inp) if x not in c.P.models]
    else:
        w = [x for x in wrt if x in inp]
    ctx.grad(c.prop, lambda **i: c.run(dw, i), inp, w, outs=outs, ykind=ykind)


EXACT = ["values are exact reals: floating-point rounding is not modelled; float literals and "
         "parameters are the simplest rationals that round to them",
         "float32 kernels are the same source with another DW_DTYPE and are not executed",
         "the internal time step ratio is 1 (max_vel is given) unless a scenario says otherwise",
         "branches on symbolic data in the Python code are taken as for the nominal values"]
