"""C05: the success condition of every table reader and of opening a disk, compared with the CRC32 of the array bytes."""
from .disk import *

STATES = (('Ok', 'Ok'), ('Ok', 'Err'), ('Err', 'Ok'))


def check(ctx):
    ctx.rule('a table is returned only if CRC32 of the part_size*num_parts bytes at part_start*block size equals crc32_parts of the header it belongs to')
    items = [(p, lb, o) for p in (TABLE, TABLE_PATH, OPEN, OPENPATH) for lb in (512, 4096) for o in ((None,) if p in (TABLE, TABLE_PATH) else (0, 1))]
    ctx.each(items, part)
    ctx.floor('readers', len(items), 12)


def part(ctx, item):
    p, lb, o = item
    key = '%s/%d%s' % (p, lb, '' if o is None else ',only_valid_headers=%d' % o)
    if o is None:
        s = ctx.summary(p, Scen(lb=lb))
        cases = [('', ok_of(s), pre(s, 1))]
    else:
        s = ctx.summary(p, Scen(lb=lb, only_valid_headers=o))
        S = ok_of(s)
        d = assume(payload(s.ret, 'Ok'), S)
        a, b = fld(d, 'primary_header'), fld(d, 'backup_header')
        cases = [(':primary', S & is_variant(a, 'Ok'), payload(a, 'Ok'))]
        if not o:
            cases.append((':backup', S & ~is_variant(a, 'Ok'), payload(b, 'Ok')))
    dev = device_of(s)
    for nm, S, h in cases:
        ctx.ok(S is not FALSE, key + nm + ':possible', '%s can return a table' % p)
        S, (h,) = settle(S, h)
        off, n = scale(fld(h, 'part_start'), lb), mul(fld(h, 'part_size'), fld(h, 'num_parts'))
        good = False
        for c in crc_terms(S):
            if not is_alg(c.a[1]):
                continue
            x = assume(c.a[2], S)
            if x.op == 'app' and x.a[0] == 'devr' and x.a[1] is dev and x.a[2] is app('ver0', dev) \
                    and holds(imp(S, ieq(assume(x.a[3], S), off) & ieq(assume(x.a[4], S), n) & ieq(P(c), assume(fld(h, 'crc32_parts'), S)))):
                good = True
                break
        ctx.ok(good, key + nm, '%s returns a table only if the CRC32 of the bytes of the array described by the %s header equals its crc32_parts' % (p, nm[1:] or 'given'))
