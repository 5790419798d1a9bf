"""C11: every write of a persist is located as an interval of slots of one partition array; entries form one pass over the
table in ascending order, zeros cover the remaining slots; too many entries fail before the first device change."""
from .persist import *
from .c08 import entry_bytes
from engine.seqs import mk_count


def check(ctx):
    ctx.rule('each array: one write per in-use partition, in key order, at slot (number of in-use partitions before it), holding its entry; zeros over slots [in use, entry count)')
    ctx.rule('in use > entry count => error, no write-like event before it')
    items = variants(ctx, sizes=(None, 128) if ctx.tier == 'quick' else (None, 128, 256, 512))
    ctx.each(items, part)
    ctx.floor('cases', len(items), 24)


def used_at(w, m, k):
    """the entry at position k of the table in key order, and whether it is in use"""
    v = mval(w, m, models.map_key(m, k))
    return v, part_used(w, v)


def in_use(w, m, n, lv):
    """number of in-use entries among the first n"""
    return mk_count(lv, n, used_at(w, m, P(lv))[1])


def part(ctx, item):
    s, cases = persisted(ctx, item)
    size = item[5]
    w = ctx.world()
    for c in cases:
        ws = c.writes()
        ctx.count('writes located', len(ws))
        for x in ws:
            ctx.ok(x.kind != 'unknown', '%s:place:%s' % (c.key, x.ev.fn), 'a persist writes headers and partition arrays only; %s writes at %s' % (x.ev.fn, show(x.off)[:120]), x.ev.where())
        done_loops = all(implies(c.S, ~L.exists) for x in ws for L in x.path if isinstance(L.d.get('exists'), B))
        ctx.ok(done_loops, c.key + ':complete', 'on success no loop of writes ended early')
        for nm, h in c.headers():
            array(ctx, c, w, nm, h, [x for x in ws if x.kind == 'array' and x.head == nm], size)
    too_many(ctx, s, item, w)


def array(ctx, c, w, nm, h, ws, size):
    key = '%s:%s' % (c.key, nm)
    text = 'the %s partition array' % nm
    entries = [x for x in ws if x.path and not zero_seq(x)]
    zeros = [x for x in ws if zero_seq(x)]
    psize = I(size) if size is not None else fld(h, 'part_size')
    if not ctx.ok(len(entries) == 1 and len(entries[0].path) == 1, key + ':entries', '%s is written by one pass over the table, found %d' % (text, len(entries))):
        return
    ctx.ok(len(zeros) == 1 and len(ws) == 2, key + ':zeros', 'the rest of %s is zeroed by one write, found %d of %d writes' % (text, len(zeros), len(ws)))
    x = entries[0]
    L = x.path[0]
    k = P(L.lv)
    F = map_facts(c.m)
    e, used = used_at(w, c.m, k)
    base = at_iteration(c.S, L.lv, L.bound if L.bound is not None else I(1 << 64))
    prove(ctx, imp(c.S, ieq(L.bound, map_len(c.m))), key + ':pass', 'the pass covers the whole table', x.ev.where())
    ctx.ok(((x.ev.guard ^ used) & base) is FALSE or holds(imp(base & F, ~(x.ev.guard ^ used)), c.lin), key + ':used', 'exactly the in-use entries are written to ' + text, x.ev.where())
    want = mul(psize, in_use(w, c.m, k, L.lv))
    prove(ctx, imp(x.C & used & F & map_facts(c.m) & le(k, map_len(c.m)), ieq(x.d, want)), key + ':slot', 'entry number i of the in-use entries goes to slot i of ' + text, x.ev.where())
    prove(ctx, imp(x.C, ieq(x.n, psize)), key + ':length', 'an entry of %s has the entry size' % text, x.ev.where())
    if size is not None:
        entry_bytes(ctx, x.seq, e, x.C & used, psize, key, 'entry in ' + text, x.ev.where())
    total = in_use(w, c.m, map_len(c.m), L.lv)
    prove(ctx, imp(c.S & F, L.guard | le(total, I(0))), key + ':made', 'the pass over the table is always made for ' + text, x.ev.where())
    full = le(fld(h, 'num_parts'), total)
    for z in zeros:
        made = z.ev.guard
        if z.path:
            made = z.path[0].guard & imp(at_iteration(c.S, z.path[0].lv, z.path[0].bound if z.path[0].bound is not None else I(1 << 64)), z.ev.guard)
        prove(ctx, imp(c.S & F, made | full), key + ':zeros:made', 'the rest of %s is always cleared' % text, z.ev.where())
        lo, n = interval(ctx, z, key)
        if lo is None:
            continue
        C = z.C & F
        prove(ctx, imp(C, ieq(lo, mul(psize, total))), key + ':zeros:from', 'zeros start after the last in-use entry of ' + text, z.ev.where())
        prove(ctx, imp(C, ieq(add(lo, n), mul(psize, fld(h, 'num_parts')))), key + ':zeros:to', 'zeros reach the end of ' + text, z.ev.where())
    E = c.S & F & lt(fld(h, 'num_parts'), total)
    ctx.ok(not c.lin.sat(E), key + ':fits', 'success only if %s has a slot for every in-use entry' % text)


def zero_seq(x):
    q = x.seq
    return q.op == 'seq' and len(q.a) <= 1 and all(p[0] == 'rep' and cval(p[1]) == 0 if isinstance(p[1], T) else p[0] == 'rep' and p[1] == 0 for p in q.a)


def interval(ctx, z, key):
    """bytes covered by a write of zeros, relative to the array: (first, length)"""
    if not z.path:
        return z.d, z.n
    if len(z.path) != 1:
        ctx.ok(False, key + ':zeros:nested', 'zeros written by a nested loop', z.ev.where())
        return None, None
    L = z.path[0]
    k = P(L.lv)
    at = lambda v: tm.subst(z.d, {L.lv: v})
    if not ctx.ok(holds(imp(z.C, ieq(sub(at(add(k, I(1))), z.d), z.n))), key + ':zeros:step', 'zeros are written to consecutive places', z.ev.where()):
        return None, None
    return at(I(0)), sub(at(L.bound), at(I(0)))


def too_many(ctx, s, item, w):
    """more in-use entries than slots: an error before anything is written"""
    m = fld(pre(s), 'partitions')
    h = current(pre(s), item[2])
    lvs = [e.lv for e, p in flat(s.events) if e.kind == 'loop' and e.bound is not None and holds(imp(s.pc, ieq(e.bound, map_len(m))))]
    if not lvs:
        return
    total = in_use(w, m, map_len(m), lvs[0])
    F = map_facts(m) & lt(fld(h, 'num_parts'), total)
    S = strengthen(s.pc & F)
    prove(ctx, imp(S, is_variant(s.ret, 'Err')), label(item) + ':overflow', 'more in-use partitions than slots is an error')
    lin = Lin()
    for e, path in flat(s.events):
        if e.kind in ('write', 'flush', 'sync', 'devcall'):
            g = e.guard & F
            for L in path:
                g = g & L.guard & ge0(P(L.lv)) & lt(P(L.lv), L.bound if L.bound is not None else I(1 << 64))
            ctx.ok(g is FALSE or not lin.sat(strengthen(g)), '%s:early:%s:%s' % (label(item), e.kind, e.fn), 'nothing is written if the partitions do not fit', e.where())
