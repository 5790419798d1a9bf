"""Symbolic inputs for the analysed functions and summaries of their behaviour."""
from .interp import *
from . import terms as tm
from .models_io import Models, dev_state


class Summary:
    pass


def sym_args(I, body, st, names=None):
    """arguments of a function: references point to memory holding symbols"""
    args = []
    cells = {}
    for i in range(body['argc']):
        ty = I.w.ty(body['locals'][1 + i][0])
        nm = (names[i] if names else None) or body['locals'][1 + i][1] or 'arg%d' % i
        args.append(mk_arg(I, st, nm, ty, cells))
    return args, cells


def mk_arg(I, st, nm, ty, cells):
    if ty.k == 'ref':
        if ty.d.get('mut'):
            v = sym(nm, ty.to)
            a = ('arg', nm)
            st.mem[a] = v
            cells[nm] = a
            return mk('ref', (a, ()), ty)
        return mk('valref', (sym(nm, ty.to),), ty)
    return sym(nm, ty)


def analyse(world, path, given=None, assume_pc=None, root=None, models=Models, prep=None):
    """summary of a function for symbolic arguments"""
    r = root or world.root(path)
    if r is None:
        raise KeyError(path)
    body = world.body(r)
    I_ = Interp(world, models)
    st = St({}, TRUE)
    args, cells = sym_args(I_, body, st)
    if given:
        for i, v in given.items():
            args[i] = v
    if prep:
        prep(I_, st, args, cells)
    if assume_pc is not None:
        st.pc = assume_pc(args, st, cells)
    s = Summary()
    s.pc0 = st.pc
    s.args, s.cells, s.I, s.body = args, cells, I_, body
    s.mem0 = dict(st.mem)
    s.ret = I_.call_body(body, args, st, None)
    s.st = st
    s.pc = st.pc
    s.events = I_.events
    s.name = path
    s.unknown = I_.unknown
    return s
