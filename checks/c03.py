"""C03: with a read-only backup, the backup header in memory after every mutating operation is the term it was before, and
every device write of a persist is located inside the primary header block or the primary array; without the setting
both headers and both arrays are written."""
from .persist import *


def check(ctx):
    ctx.rule('readonly_backup: backup_header after = before on every branch of every operation; writes only at the primary header and the primary array')
    ctx.rule('otherwise: on success the primary and the backup header and both arrays are written')
    items = variants(ctx)
    ctx.each(items, part)
    ops = [p for p in operations(ctx, mutable=True)]
    ctx.ok(WRITE in ops and ADD in ops and REPLACE in ops, 'operations', 'the operations on a disk object include the edits and the persist')
    keep = [(p, a, b) for p in ops for a, b in STATES]
    ctx.each(keep, kept)
    ctx.each([(lb, ro) for lb in (512, 4096) for ro in (0, 1)], created)
    ctx.floor('cases', len(items) + len(keep), 30)


def kept(ctx, item):
    p, a, b = item
    s = ctx.summary(p, Scen(lb=512, primary=a, backup=b, readonly_backup=1))
    key = '%s:primary=%s,backup=%s' % (p, a, b)
    if not isinstance(s.args[0], T) or s.args[0].op != 'ref':
        return
    old = fld(pre(s), 'backup_header')
    new = assume(fld(post(s), 'backup_header'), s.pc)
    prove(ctx, imp(s.pc, veq(new, old)), 'kept:' + key, 'with a read-only backup %s leaves the backup header in memory as it was' % p)
    if p in (WRITE, WRITE_TAKE):
        return
    bad = [e for e, _ in flat(s.events) if e.kind in ('write', 'setlen', 'devcall') and e.guard is not FALSE]
    ctx.ok(not bad, 'quiet:' + key, '%s does not write to the device' % p, bad[0].where() if bad else None)


def part(ctx, item):
    s, cases = persisted(ctx, item)
    ro = item[4]
    for c in cases:
        ws = c.writes()
        for w in ws:
            ctx.count('writes located')
            good = w.kind in ('header', 'array') and (w.head == 'primary' or not ro)
            ctx.ok(good, '%s:%s:%s' % (c.key, w.ev.fn, w.kind), 'a persist%s writes %s; found a write at %s' % (
                ' with a read-only backup' if ro else '', 'the primary header and array only' if ro else 'headers and arrays only', show(w.off)[:100]), w.ev.where())
            if w.kind == 'array':
                inside(ctx, c, w)
        for nm, h in c.headers():
            ctx.ok(any(w.kind == 'header' and w.head == nm and implies(c.S, w.ev.guard) for w in ws), '%s:%s:header' % (c.key, nm), 'a successful persist writes the %s header' % nm)
            ctx.ok(any(w.kind == 'array' and w.head == nm for w in ws), '%s:%s:array' % (c.key, nm), 'a successful persist writes the %s array' % nm)
        other = [e for i, e, path in c.accesses if e.kind in ('setlen', 'devcall')]
        ctx.ok(not other, c.key + ':other', 'the device is changed by plain writes only')
    # failing persists write nothing else either
    for e, path in flat(s.events):
        if e.kind == 'write':
            ctx.count('write sites')


def inside(ctx, c, w):
    """an array write stays inside its array"""
    F = extent_facts(ctx, c, w)
    size = mul(fld(w.h, 'part_size'), fld(w.h, 'num_parts'))
    ok = holds(imp(w.C & F, ge0(w.d) & le(add(w.d, w.n), size)), c.lin)
    ctx.ok(ok, '%s:%s:%s:inside' % (c.key, w.head, w.ev.fn), 'an array write stays inside the %s array' % w.head, w.ev.where())


def created(ctx, item):
    """creating a disk writes nothing"""
    lb, ro = item
    s = ctx.summary('gpt::GptConfig::create_from_device', Scen(lb=lb, readonly_backup=ro))
    bad = [e for e, _ in flat(s.events) if e.kind in ('write', 'setlen', 'devcall') and e.guard is not FALSE]
    ctx.ok(not bad, 'created:%d,%d' % item, 'creating a disk object does not write to the device', bad[0].where() if bad else None)
