"""C14: every possible panic (overflow, index, unwrap, division, allocation size), every call without a model and every
loop without a bound in the functions that read a device or decode bytes, with the condition on which it is reached."""
from .c13 import *
from .disk import *

DECODE = ('gpt::mbr::ProtectiveMBR::from_bytes', 'gpt::mbr::PartRecord::from_bytes',
          '<gpt::disk::LogicalBlockSize as core::convert::TryFrom<u64>>::try_from')
MUST = (OPEN, OPENPATH, READ_HEADER, READ_HEADER_PATH, TABLE, TABLE_PATH, 'gpt::mbr::ProtectiveMBR::from_disk', 'gpt::mbr::read_bootcode', 'gpt::mbr::read_disk_signature', 'gpt::disk::read_disk') + DECODE


def readers(w):
    """exported functions that read a device without writing to it, and the decoders of bytes"""
    g = Graph(w)
    out = {p for p in DECODE if w.root(p) is not None}
    for r in w.roots:
        if not r['exported'] or r['derived'] or r['inst'] not in w.bodies or disk_args(w, r):
            continue
        es = {effect(w, s) for s, p in g.reach(r['inst'])}
        if es & {'read', 'open'} and not es & {'write', 'unknown'}:
            out.add(r['path'])
    return sorted(out)


def check(ctx):
    ctx.rule('no panic, unmodelled call or unbounded loop is reachable in a function that reads a device; sizes of buffers stay below 2^63')
    w = ctx.world()
    rs = readers(w)
    for p in MUST:
        ctx.ok(p in rs, 'reader:' + p, '%s only reads' % p)
    items = [(p, sc) for p in rs for sc in range(len(scenarios(ctx, p)))]
    ctx.each(items, part)
    ctx.floor('readers', len(rs), 12)


def part(ctx, item):
    p, i = item
    sc = scenarios(ctx, p)[i]
    s = ctx.summary(p, sc)
    key = '%s/%s' % (p, ','.join('%s' % (x,) for x in sc.key if x))
    lin = Lin()
    n = 0
    for e, path in flat(s.events):
        n += 1
        k = '%s:%s:%s' % (key, e.d.get('what', e.kind), e.fn)
        if e.kind == 'panic':
            ctx.count('possible panics')
            g = reach(e, path)
            cube = lin.sat(g)
            ctx.ok(cube is None, k, '%s cannot panic (%s): %s' % (p, e.what, cube_text(cube)[-300:] if cube else ''), e.where())
        elif e.kind == 'alloc':
            # a size above the largest object makes the allocation panic
            for v, g in outcomes(e.n, e.guard):
                v = known(v, g)
                ctx.ok(tm.prange(v)[1] < 1 << 63 or lin.sat(within(g, path) & le(I(1 << 63), v)) is None, k, 'the size of a buffer stays below 2^63', e.where())
        elif e.kind == 'loop':
            ctx.ok(e.d.get('bound') is not None, k, 'the loop ends', e.where())
            ctx.count('loops')
        else:
            ctx.ok(e.kind not in ('opaque-call', 'unknown', 'nonterminating'), k, 'every call is understood', e.where())
    ctx.count('events', n)


def outcomes(v, g):
    """the values of a gated number with their conditions"""
    out = {}
    todo = [(v, g)]
    while todo:
        v, g = todo.pop()
        if g is FALSE:
            continue
        y = atom_of(v)
        if y is not None and y.op == 'ite':
            v = y
        if v.op == 'ite':
            todo += [(v.a[1], g & v.a[0]), (v.a[2], g & ~v.a[0])]
        else:
            out[v] = out.get(v, FALSE) | g
    return out.items()


def known(v, g):
    """v with the numbers that g fixes"""
    from engine.interp import _replace
    yes, _ = tm.literals(g)
    for i in tm.bsupport(g):
        at = tm.ATOMS[i]
        if yes >> i & 1 and at.op == 'eq0':
            p = at.a[0]
            if len(p.a[1]) == 1 and len(p.a[1][0][0]) == 1 and p.a[0] % p.a[1][0][1] == 0:
                v = _replace(v, p.a[1][0][0][0], I(-p.a[0] // p.a[1][0][1]))
    return v


def reach(e, path):
    """condition on which an event happens, as far as it is arithmetic: with the ranges of the loop variables"""
    return within(e.guard, path)


def within(g, path):
    for L in path:
        k = P(L.lv)
        g = g & L.guard & ge0(k)
        if L.bound is not None:
            hi = tm.prange(L.bound)[1]
            g = g & lt(k, L.bound)
            if hi < tm.INF:
                g = g & lt(k, I(int(hi)))
    return forget(g, lambda at: at.op != 'ge0' and not (at.op == 'eq0' and not mentions_bytes(at)))


def mentions_bytes(at):
    return any(x.op == 'app' and x.a[0] in ('devbyte', 'crc', 'elem') for x in all_terms(at))
