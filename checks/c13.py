"""C13: for every device access of every exported operation, the condition on which the access fails and the operation
still returns success."""
from engine.effects import *

from .persist import *

ACCESS = ('open', 'tell', 'seek', 'read', 'write', 'flush', 'sync', 'setlen')


def device_roots(w):
    """exported functions from which a device access is reachable"""
    g = Graph(w)
    out = set()
    for r in w.roots:
        if not r['exported'] or r['derived'] or r['inst'] not in w.bodies:
            continue
        if any(effect(w, s) is not None for s, p in g.reach(r['inst'])):
            out.add(r['path'])
    return sorted(out)


def scenarios(ctx, p):
    """the cases in which an operation is analysed"""
    w = ctx.world()
    if p in (ADD, AT, REPLACE):
        return [scen(i) for i in cases(ctx, ops=(p,))]
    if p in (WRITE, WRITE_TAKE):
        return [scenario(i) for i in variants(ctx, ops=(p,), lbs=(512, 4096) if ctx.tier == 'thorough' else (512,))]
    if disk_args(w, ctx.root(p)):
        return [Scen(lb=lb, primary=a, backup=b) for lb in (512, 4096) for a, b in STATES]
    if 'open' in p.rsplit('::', 1)[-1] or p == 'gpt::disk::read_disk':
        return [Scen(lb=lb, only_valid_headers=o) for lb in (512, 4096) for o in (0, 1)]
    return [Scen(lb=lb) for lb in (512, 4096)]


def check(ctx):
    ctx.rule('success & the access fails is contradictory, for every device access; tolerated: saving and restoring the stream position around a header read; opening reports the error in the header slot')
    w = ctx.world()
    roots = device_roots(w)
    for p in ('gpt::GptConfig::open', 'gpt::GptConfig::create', 'gpt::GptConfig::open_from_device', 'gpt::GptConfig::create_from_device', ADD, AT, REPLACE, WRITE, WRITE_TAKE,
              'gpt::header::read_header_from_arbitrary_device', 'gpt::mbr::ProtectiveMBR::from_disk', 'gpt::mbr::ProtectiveMBR::overwrite_lba0', 'gpt::mbr::ProtectiveMBR::update_conservative'):
        ctx.ok(p in roots, 'operation:' + p, '%s accesses the device' % p)
    items = [(p, i) for p in roots for i in range(len(scenarios(ctx, p)))]
    ctx.each(items, part)
    ctx.floor('operations', len(roots), 20)
    ctx.ok(ctx.counts.get('accesses', 0) >= 100, 'floor:accesses', 'at least 100 device accesses are examined, found %d' % ctx.counts.get('accesses', 0))


def slots(v, S):
    """conditions on which a returned disk object reports an invalid header"""
    from .c28 import disk_result
    r = disk_result(v)
    if r is None:
        return []
    d = assume(r[1], S)
    return [is_variant(fld(d, nm + '_header'), 'Err') for nm in ('primary', 'backup')]


def part(ctx, item):
    p, i = item
    sc = scenarios(ctx, p)[i]
    s = ctx.summary(p, sc)
    key = '%s/%s' % (p, ','.join('%s' % (x,) for x in sc.key if x))
    evs = [(e, path) for e, path in flat(s.events) if e.kind in ACCESS]
    for e, path in flat(s.events):
        ctx.ok(e.kind not in ('opaque-call', 'unknown'), '%s:known:%s' % (key, e.fn), 'every call is understood', e.where())
    if not evs:
        return
    t = s.ret.ty
    if not ctx.ok(t is not None and t.k == 'adt' and t.path.endswith('result::Result'), key + ':result', '%s accesses the device and reports errors' % p):
        return
    S = ok_of(s)
    sl = slots(s.ret, S)
    for n, (e, path) in enumerate(evs):
        ctx.count('accesses')
        k = '%s:%s:%s' % (key, e.kind, e.fn)
        if not ctx.ok(isinstance(e.d.get('ok'), B), k + ':reported', 'the outcome of the access is known', e.where()):
            continue
        if e.d.get('partial'):
            ctx.ok(False, k + ':partial', 'a partial transfer is an error', e.where())
        bad = S & e.guard & ~e.ok
        for L in path:
            # the failing iteration ends the loop
            ctx.ok(implies(e.guard & ~e.ok, L.exit_cond), k + ':loop', 'a failing access ends the loop', e.where())
            bad = bad & L.guard & (L.exists if L.d.get('exists') is not None else TRUE)
        if path:
            first = {L.lv: P(mk('first', (L.lv, L.bound if L.bound is not None else I(1 << 64), L.exit_cond))) for L in path}
            bad = S & subst(e.guard & ~e.ok, first)
            for L in path:
                bad = bad & L.guard & (L.exists if L.d.get('exists') is not None else TRUE)
            # any iteration
            bad = bad | S & L.guard & e.guard & ~e.ok & at_iteration(S, L.lv, L.bound if L.bound is not None else I(1 << 64))
        if bad is FALSE or not Lin().sat(bad):
            ctx.ok(True, k, 'success only if the access succeeded')
            continue
        if e.kind in ('tell', 'seek') and tolerated(evs, n, S):
            ctx.ok(True, k, 'saves or restores the stream position around a header read')
            ctx.count('tolerated')
            continue
        if any(implies(bad, assume(x, bad)) or holds(imp(bad, deep(x, bad))) for x in sl):
            ctx.ok(True, k, 'the error is reported in a header slot')
            ctx.count('reported in a slot')
            continue
        ctx.ok(False, k, '%s can succeed although this %s fails: %s' % (p, e.kind, cube_text(Lin().sat(bad) or {})[:300]), e.where())
        continue
    # nothing is transferred at a position left behind by a failed access
    for e, path in evs:
        if e.kind in ('read', 'write') and (e.guard & S) is not FALSE:
            C = S & e.guard
            for L in path:
                C = at_iteration(C, L.lv, L.bound if L.bound is not None else I(1 << 64))
            o = assume(e.off, C)
            lost = lost_positions(o)
            if lost:
                o = deepv(e.off, strengthen(C))
                lost = lost_positions(o)
            if lost:
                C, (o,) = settle(C, e.off)
                lost = lost_positions(deepv(o, C))
            ctx.ok(not lost, '%s:position:%s:%s' % (key, e.kind, e.fn), 'every transfer follows a successful seek', e.where())


def tolerated(evs, n, S):
    """the access saves the stream position, or restores it after the read of a header"""
    e, path = evs[n]
    if path:
        return False
    if e.kind == 'seek':
        return restores(evs, n)
    for j in range(n + 1, len(evs)):
        f = evs[j][0]
        if f.kind == 'tell':
            # a nested save (to find the last block) whose own errors are reported
            continue
        if f.kind == 'seek' and restores(evs, j) and e.ok is not TRUE and tm.bsupport(e.ok) <= conditions(f.d['target']):
            return True
    return False


def constants(v):
    """constants a gated position can be"""
    y = atom_of(v) if isinstance(v, T) else None
    if y is not None and y.op == 'ite':
        v = y
    if v.op == 'ite':
        return constants(v.a[1]) | constants(v.a[2])
    return {v.a[0]} if v.op == 'poly' and (not v.a[1] or v.a[0]) else set()


def lost_positions(o):
    """positions after a failed access among the values a gated position can have"""
    if o.op == 'ite':
        return lost_positions(o.a[1]) + lost_positions(o.a[2])
    if o.op == 'poly':
        return [y for m, _ in o.a[1] for x in m for y in lost_positions(x)]
    return [o] if o.op == 'app' and o.a[0] == 'posfail' else []


def conditions(v):
    out = set()
    for x in all_terms(v):
        for y in x.a:
            if isinstance(y, B):
                out |= set(tm.bsupport(y))
    return out


def restores(evs, n):
    """a seek to a position saved before, with the read of a header in between"""
    e, path = evs[n]
    if path or e.kind != 'seek':
        return False
    kinds = {x.op if x.op != 'app' else x.a[0] for x in all_terms(e.d['target']) if x.op not in ('ite', 'poly', 'ok', 'sym', 'opid', 'file')}
    if not kinds <= {'pos0', 'posfail', 'ok', 'file'} or any(c != 0 for c in constants(e.d['target'])):
        return False
    for j in range(n - 1, -1, -1):
        f = evs[j][0]
        if f.kind == 'tell':
            return False
        if f.kind == 'read':
            return cval(f.d['n']) == 92
    return False
