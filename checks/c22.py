"""C22: every device write of a persist as an interval of bytes, compared with the geometry of the headers it builds, by
linear reasoning about block numbers and sizes."""
from .persist import *
from .c03 import inside


def check(ctx):
    ctx.rule('each write is one header block or inside [start, start + entries * size) of an array; primary array inside (primary header, first usable), backup array inside (last usable, backup header); no block 0')
    items = variants(ctx)
    ctx.each(items, part)
    ctx.floor('cases', len(items), 12)


def part(ctx, item):
    s, cases = persisted(ctx, item)
    lb = item[1]
    for c in cases:
        geometry(ctx, c, lb)
        for w in c.writes():
            ctx.count('writes located')
            if w.kind == 'header':
                prove(ctx, imp(w.C, ieq(w.n, I(lb)) & ieq(w.off, scale(deepv(fld(w.h, 'current_lba'), w.C), lb))), '%s:%s:block' % (c.key, w.head),
                      'a header write is exactly the block of the %s header' % w.head, w.ev.where())
            elif w.kind == 'array':
                inside(ctx, c, w)
            else:
                ctx.ok(False, '%s:place:%s' % (c.key, w.ev.fn), 'a persist writes only headers and arrays, found a write at %s' % show(w.off)[:100], w.ev.where())
    # writes on branches that fail later obey the same rule: they are the writes of the successful branches
    for e, path in flat(s.events):
        if e.kind == 'write' and cases:
            ok = any(w.ev is e for c in cases for w in c.writes())
            ctx.ok(ok, '%s:reached:%s' % (label(item), e.fn), 'every write also lies on a successful branch (where it is located)', e.where())


def geometry(ctx, c, lb):
    S = c.S
    P_ = c.P
    f = lambda h, nm: deepv(fld(h, nm), S)
    size = mul(f(P_, 'part_size'), f(P_, 'num_parts'))
    F = ge0(size)
    say = lambda b, k, t: ctx.ok(holds(imp(S & F, b), c.lin), c.key + ':' + k, t)
    first, last = f(P_, 'first_usable'), f(P_, 'last_usable')
    say(le(I(1), f(P_, 'current_lba')), 'zero', 'the primary header is not in block 0')
    say(le(add(f(P_, 'current_lba'), I(1)), f(P_, 'part_start')), 'after', 'the primary array starts after the primary header')
    say(le(add(scale(f(P_, 'part_start'), lb), size), scale(first, lb)), 'first', 'the primary array ends before the first usable block')
    say(le(first, last), 'usable', 'the usable range is not empty')
    say(lt(last, f(P_, 'backup_lba')), 'other', 'the block recorded for the backup header lies after the usable range')
    if c.B is None:
        return
    B_ = c.B
    bsize = mul(f(B_, 'part_size'), f(B_, 'num_parts'))
    F = F & ge0(bsize)
    for nm in ('first_usable', 'last_usable'):
        say(ieq(f(B_, nm), f(P_, nm)), 'same:' + nm, 'both headers record the same ' + nm)
    say(ieq(f(B_, 'current_lba'), f(P_, 'backup_lba')) & ieq(f(B_, 'backup_lba'), f(P_, 'current_lba')), 'exchange', 'each header records the place of the other')
    say(lt(last, f(B_, 'part_start')), 'last', 'the backup array starts after the last usable block')
    say(le(add(scale(f(B_, 'part_start'), lb), bsize), scale(f(B_, 'current_lba'), lb)), 'before', 'the backup array ends before the backup header')
