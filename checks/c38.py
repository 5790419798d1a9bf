"""C38: no transfer position, written byte, branch condition or result of an operation contains the stream position the
device had before the call."""
from .c13 import *
from .c13 import ACCESS


def is_pos0(a):
    return a.op == 'app' and a.a[0] == 'pos0'


def depends(v):
    """the initial stream position, if a value depends on it"""
    if v is TRUE or v is FALSE or v is None:
        return None
    if isinstance(v, B):
        return next((d for d in (depends(tm.ATOMS[x]) for x in tm.bsupport(v)) if d is not None), None)
    return next((a for a in all_terms(v) if is_pos0(a)), None)


def check(ctx):
    ctx.rule('offset and data of every transfer, every branch condition and every result are terms without the initial stream position')
    w = ctx.world()
    roots = device_roots(w)
    items = [(p, i) for p in roots for i in range(len(scenarios(ctx, p)))]
    ctx.each(items, part)
    ctx.floor('operations', len(roots), 20)
    ctx.ok(ctx.counts.get('transfers', 0) >= 60, 'floor:transfers', 'at least 60 transfers are examined, found %d' % ctx.counts.get('transfers', 0))


def part(ctx, item):
    p, i = item
    sc = scenarios(ctx, p)[i]
    s = ctx.summary(p, sc)
    key = '%s/%s' % (p, ','.join('%s' % (x,) for x in sc.key if x))
    S = ok_of(s) if s.ret.ty is not None and s.ret.ty.k == 'adt' and s.ret.ty.path.endswith('result::Result') else s.pc
    for e, path in flat(s.events):
        ctx.ok(e.kind not in ('opaque-call', 'unknown'), '%s:known:%s' % (key, e.fn), 'every call is understood', e.where())
        if e.kind not in ACCESS and e.kind not in ('read', 'write'):
            continue
        k = '%s:%s:%s' % (key, e.kind, e.fn)
        ctx.count('accesses')
        free(ctx, e.guard, TRUE, k + ':guard', 'whether the device is accessed', e.where())
        if e.kind in ('read', 'write'):
            ctx.count('transfers')
            C = S & e.guard
            for x, what in (('off', 'the place of the transfer'), ('n', 'the length of the transfer')):
                if e.d.get(x) is not None:
                    free(ctx, e.d[x], C, k + ':' + x, what, e.where())
    free(ctx, s.ret, s.pc, key + ':result', 'the result of %s' % p)
    free(ctx, s.pc, TRUE, key + ':panic', 'whether %s panics' % p)
    for j in disk_args(ctx.world(), ctx.root(p)):
        if not (isinstance(s.args[j], T) and s.args[j].op != 'ref'):
            free(ctx, post(s, j), s.pc, key + ':object', 'the disk object after %s' % p)
    for m in s.st.mem:
        if isinstance(m, tuple) and m[0] == 'dev':
            free(ctx, models_io.part(s.st.mem[m], 1), S, key + ':content', 'the content of the device after %s' % p)


def free(ctx, v, C, key, what, where=None):
    """v does not depend on the initial position on the branches in C"""
    if C is FALSE:
        return
    d = depends(v)
    if d is not None and not isinstance(v, B):
        d = depends(deepv(assume(v, C), C))
        if d is not None:
            _, (v,) = settle(C, v)
            d = depends(v)
    ctx.ok(d is None, key, '%s does not depend on where the stream position was' % what, where)
