"""C08: the bytes of every partition entry written and the entry decoded for every slot, as terms, compared with the
specified layout; the decoded table as a closed form over the array."""
from .disk import *

WRITE, WRITE_PATH = PART + '::write_to_device', PART + '::write'


def check(ctx):
    ctx.rule('encode(entry)[i] is the specified byte, name units <= 36, zero padding to the entry size; table = {i+1: decode(slot i) | slot i not all zero}')
    items = [('write', WRITE, lb, n) for lb in (512, 4096) for n in (128, None)] + [('write', WRITE_PATH, lb, 128) for lb in (512, 4096)]
    items += [('read', p, lb, None) for p in (TABLE, TABLE_PATH) for lb in (512, 4096)]
    ctx.each(items, part)
    ctx.floor('codecs', len(items), 8)


class Entry(Scen):
    """entry size given"""

    def __init__(self, size, **kw):
        super().__init__(**kw)
        self.size = size
        self.key += (size,)

    def prep(self, I_, st, args, cells):
        super().prep(I_, st, args, cells)
        if self.size is not None:
            i = [k for k, a in enumerate(args) if isinstance(a, T) and a.op == 'poly' and atom_of(a) is not None and atom_of(a).ty is U32]
            if len(i) != 1:
                raise Missing('the entry size argument')
            args[i[0]] = I(self.size)


def fixed_bytes(w, e):
    """bytes 0-55 of an entry"""
    def guid(u):
        g = proj(u, 0, 0, u.ty.field_ty(0, 0))
        return guid_at([elem(g, I(i), U8) for i in range(16)], 0)
    out = guid(fld(fld(e, 'part_type_guid'), 'guid')) + guid(fld(e, 'part_guid'))
    for f in ('first_lba', 'last_lba', 'flags'):
        out += le_bytes(fld(e, f), 8)
    return out


def entry_bytes(ctx, seq, e, S, size, key, text, where=None):
    """the sequence is the encoding of entry e of the given size"""
    w = ctx.world()
    S, (seq,) = settle(S, seq)
    ps = pieces(seq)
    want = fixed_bytes(w, e)
    n = 0
    while n < 56 and n < len(ps) and ps[n][0] == 'one':
        n += 1
    ctx.ok(n == 56, key + ':fixed', '%s: 56 bytes of fixed fields come first, found %d' % (text, n), where)
    for i, (a, b, nm) in enumerate(((0, 16, 'type GUID'), (16, 32, 'partition GUID'), (32, 40, 'first LBA'), (40, 48, 'last LBA'), (48, 56, 'flags'))):
        ctx.ok(n == 56 and all(veq(assume(ps[k][1], S), assume(want[k], S)) is TRUE for k in range(a, b)),
               '%s:%s' % (key, nm), '%s: bytes %d-%d are the %s' % (text, a, b - 1, nm), where)
    rest = ps[56:]
    u16s = mk('app', ('utf16', fld(e, 'name')))
    units = slen(u16s)
    good = len(rest) in (1, 2) and rest[0][0] == 'flat'
    if good:
        _, lv, cnt, g, es = rest[0]
        unit = elem(u16s, P(lv), U16)
        good = g is TRUE and len(es) == 2 and all(veq(a, b) is TRUE for a, b in zip(es, le_bytes(unit, 2)))
        prove(ctx, imp(S, ieq(assume(cnt, S), mk_ite(le(units, I(36)), units, I(36)))), key + ':units', text + ': min(36, length) units of the name are stored', where)
    ctx.ok(good, key + ':name', '%s: from byte 56 the name follows as UTF-16 units in little-endian order' % text, where)
    if len(rest) == 2:
        good = rest[1][0] == 'other' and isinstance(rest[1][1], tuple) and rest[1][1][0] == 'rep' and cval(rest[1][1][1]) == 0
        ctx.ok(good, key + ':padding', '%s: zeros fill the rest' % text, where)
    prove(ctx, imp(S, ieq(assume(slen(seq), S), size)), key + ':size', '%s: exactly the entry size is written' % text, where)


def part(ctx, item):
    kind, p, lb, n = item
    w = ctx.world()
    key = '%s/%d%s' % (p, lb, '' if n is None else '/%d' % n)
    if kind == 'write':
        s = ctx.summary(p, Entry(n if p == WRITE else None, lb=lb))
        S = ok_of(s)
        ws = [(e, path) for e, path in flat(s.events) if e.kind == 'write' and (e.guard & S) is not FALSE]
        ctx.ok(len(ws) == 1 and not ws[0][1], key + ':writes', '%s performs one write' % p)
        for e, path in ws:
            if n is None:
                size = [a for a in s.args if isinstance(a, T) and a.op == 'poly' and atom_of(a) is not None and atom_of(a).ty is U32][0]
                S1, (q,) = settle(S, e.seq)
                prove(ctx, imp(S1, ieq(slen(q), size)), key + ':size', 'exactly the requested entry size is written', e.where())
            else:
                prove(ctx, imp(S, e.guard), key + ':always', '%s writes whenever it succeeds' % p, e.where())
                entry_bytes(ctx, e.seq, pre(s, 0), S, I(n), key, 'entry written by ' + p, e.where())
        return
    s = ctx.summary(p, Scen(lb=lb))
    S = ok_of(s)
    h = pre(s, 1)
    dev = device_of(s)
    table_is(ctx, assume(payload(s.ret, 'Ok'), S), S, h, dev, lb, key, 'table read by ' + p)


def table_is(ctx, m, S, h, dev, lb, key, text):
    """the map is the decoded partition array described by header h"""
    w = ctx.world()
    S, (m,) = settle(S, m)
    good = m.op == 'app' and m.a[0] == 'mapflat' or m.op == 'mapflat'
    ctx.ok(good, key + ':table', '%s: one pass over the slots in order, starting from an empty table: %s' % (text, show(m)[:80]))
    if not good:
        return
    lv, n, g, k, v, base = m.a[-6:]
    ctx.ok(base.op == 'mapempty', key + ':base', text + ': it starts from an empty table')
    kk = P(lv)
    prove(ctx, imp(S, ieq(deepv(n, S), fld(h, 'num_parts'))), key + ':slots', text + ': every slot is visited')
    prove(ctx, imp(S, ieq(k, add(kk, I(1)))), key + ':ids', text + ': slot k has id k+1')
    S = strengthen(at_iteration(S, lv, n))
    v = deepv(v, S)
    off = add(scale(fld(h, 'part_start'), lb), scale(kk, 128))
    bs = [assume(b, S) for b in content(dev, off, 128)]
    zero = TRUE
    for b in bs:
        zero = zero & ieq(b, I(0))
    ctx.ok((deep(g, S) ^ restrict(~zero, S)) & S is FALSE, key + ':used', text + ': exactly the all-zero slots are skipped')
    for f, a, t in (('first_lba', 32, 'first LBA'), ('last_lba', 40, 'last LBA'), ('flags', 48, 'flags')):
        ctx.ok(veq(assume(fld(v, f), S), uint_at(bs, a, 8)) is TRUE, '%s:%s' % (key, f), '%s: bytes %d-%d are the %s' % (text, a, a + 7, t))
    for f, a, x in (('part_type_guid', 0, fld(fld(v, 'part_type_guid'), 'guid')), ('part_guid', 16, fld(v, 'part_guid'))):
        ctx.ok(implies(S, deep(veq(x, uuid_value(w, guid_at(bs, a))), S)), '%s:%s' % (key, f), '%s: bytes %d-%d are the %s, mixed-endian' % (text, a, a + 15, f))
    nm = assume(fld(v, 'name'), S)
    ok = nm.op == 'app' and nm.a[0] == 'utf16lossy'
    ctx.ok(ok, key + ':name', '%s: the name is decoded from UTF-16' % text)
    if ok:
        us = [uint_at(bs, 56 + 2 * i, 2) for i in range(36)]
        before = TRUE
        for j in range(37):
            C = before & (ieq(us[j], I(0)) if j < 36 else TRUE)
            q = assume(nm.a[1], C)
            q = assume(q, C)
            good = holds(imp(C, ieq(slen(q), I(j)))) and all(veq(assume(elem(q, I(i), U16), C), us[i]) is TRUE for i in range(j))
            ctx.ok(good, key + ':name%d' % j, '%s: a name of %d units is units 0-%d from byte 56' % (text, j, j - 1))
            if j < 36:
                before = before & ~ieq(us[j], I(0))
