"""C18: the partition map after adding as the map before with one insertion under the returned id; that id is compared
with the ids in use by the meaning of the search that chose it."""
from .edits import *


def check(ctx):
    ctx.rule('map after = map before + {returned id -> new partition}; the id is >= 1 and not in use')
    ctx.rule('automatic id: every id from 1 below it (within the entry count) is in use')
    ctx.each(cases(ctx, ops=(ADD, AT)), part)
    ctx.each([('next', None, a, b) for a, b in STATES], next_id)


def part(ctx, item):
    p, lb, a, b, ro, ch = item
    w = ctx.world()
    s = ctx.summary(p, scen(item))
    key = name(item)
    S = ok_of(s)
    ctx.ok(S is not FALSE, 'success:' + key, '%s can succeed' % p)
    m = fld(pre(s), 'partitions')
    n = assume(fld(post(s), 'partitions'), S)
    r = assume(payload(s.ret, 'Ok'), S)
    n0 = fld(current(pre(s), a), 'num_parts')
    facts = search_facts(S)
    prove(ctx, imp(S & facts, le(I(1), r)), 'positive:' + key, 'the returned id is at least 1')
    check_ins(ctx, S, n, m, r, key, p)
    if p == AT:
        prove(ctx, imp(S, veq(r, s.args[2])), 'id:' + key, 'the partition gets the requested id')
        U = id_used(w, m, s.args[2])
        prove(ctx, imp(s.pc & U, is_variant(s.ret, 'Err') & is_variant(payload(s.ret, 'Err'), 'PartitionIdAlreadyUsed')), 'taken:' + key, 'an id in use is refused with the id-in-use error')
        prove(ctx, imp(err_of(s) & is_variant(payload(s.ret, 'Err'), 'PartitionIdAlreadyUsed'), U), 'error:' + key, 'the id-in-use error is reported only for an id in use')
        return
    lin = Lin()
    unused(ctx, w, S, m, r, n0, key)


def leaves(v, g=TRUE):
    """(condition, value) of the branches of an integer term"""
    c = tm._some_ite(v)
    if c is None:
        yield g, v
        return
    f = c.a[0] if isinstance(c, T) else c
    for val in (True, False):
        h = g & (f if val else ~f)
        if h is not FALSE:
            yield from leaves(assume(v, h), h)


def same_id(w, f, m, j):
    """an id equal to one at which a search stopped (or the one after it) is in use exactly when that one is"""
    r = TRUE
    u = id_used(w, m, j)
    for a in list(support_terms(f)):
        if a.op == 'first':
            for t in (P(a), add(P(a), I(1))):
                v = id_used(w, m, t)
                r = r & imp(le(j, t) & le(t, j), (u & v) | (~u & ~v))
    return r


def unused(ctx, w, S, m, r, n0, key):
    j = sym('j', U32)
    for g, v in leaves(r):
        H = strengthen(S & g)
        v = assume(v, H)
        base = H & search_facts(H) & key_facts(m, v, j) & map_facts(m)
        prove(ctx, imp(base, ~id_used(w, m, v)), 'unused:' + key, 'the chosen id is not in use: %s' % show(v))
        below = base & search_facts(H, [sub(j, I(1)), j]) & le(I(1), j) & lt(j, v) & le(j, n0) & same_id(w, H, m, j)
        prove(ctx, imp(below, id_used(w, m, j)), 'lowest:' + key, 'every lower id within the entry count is in use: %s' % show(v))
        ctx.count('id choices')


def check_ins(ctx, S, n, m, r, key, p):
    for g, x in map_leaves(n):
        H = S & g
        if H is FALSE:
            continue
        x = assume(x, H)
        ok = x.op == 'mapins' and assume(x.a[0], H) is assume(m, H)
        if ctx.ok(ok, 'insert:' + key, '%s changes the map by one insertion' % p):
            prove(ctx, imp(H, veq(x.a[1], assume(r, H))), 'key:' + key, '%s stores the partition under the id it returns' % p)


def map_leaves(v, g=TRUE):
    if v.op == 'ite':
        yield from map_leaves(v.a[1], g & v.a[0])
        yield from map_leaves(v.a[2], g & ~v.a[0])
    else:
        yield g, v


def next_id(ctx, item):
    _, lb, a, b = item
    w = ctx.world()
    s = ctx.summary(G + 'find_next_partition_id', Scen(primary=a, backup=b))
    key = 'next:%s:%s' % (a, b)
    m = fld(pre(s), 'partitions')
    n0 = fld(current(pre(s), a), 'num_parts')
    S = s.pc & is_variant(s.ret, 'Some')
    N = s.pc & is_variant(s.ret, 'None')
    prove(ctx, imp(search_facts(S | N), S | N), key + ':total', 'choosing an id always answers')
    r = assume(payload(s.ret, 'Some'), S)
    prove(ctx, imp(S & search_facts(S), le(I(1), r)), key + ':positive', 'the chosen id is at least 1')
    unused(ctx, w, S, m, r, n0, key)
    j = sym('j', U32)
    prove(ctx, imp(N & same_id(w, N, m, j) & search_facts(N, [sub(j, I(1)), j]) & le(I(1), j) & le(j, n0), id_used(w, m, j)), key + ':none', 'nothing is chosen only if every id within the entry count is in use')
