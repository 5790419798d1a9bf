"""C04: the success condition of every header reader and of opening a disk, compared with the signature and checksum
conditions over the bytes at the specified place; the place is compared with block 1 and the last whole block."""
from .disk import *


def check(ctx):
    ctx.rule('reader succeeds => signature bytes are "EFI PART" and CRC32(92 bytes, checksum zeroed) = stored, at block 1 / the last whole block')
    w = ctx.world()
    items = [(p, lb, None) for p in (READ_HEADER, READ_HEADER_PATH) for lb in (512, 4096)]
    items += [(p, lb, nm) for p in (OPEN, OPENPATH) for lb in (512, 4096) for nm in ('primary', 'backup')]
    ctx.each(items, part)
    ctx.floor('readers and headers', len(items), 12)


def headers_of(ctx, item):
    """(summary, condition, header, device)"""
    p, lb, nm = item
    if nm is None:
        s = ctx.summary(p, Scen(lb=lb))
        S = ok_of(s)
        return s, S, payload(s.ret, 'Ok'), device_of(s)
    s = ctx.summary(p, Scen(lb=lb))
    S = ok_of(s)
    d = assume(payload(s.ret, 'Ok'), S)
    h = fld(d, nm + '_header')
    return s, S & is_variant(h, 'Ok'), payload(h, 'Ok'), device_of(s)


def part(ctx, item):
    p, lb, nm = item
    key = '%s/%d%s' % (p, lb, ':' + nm if nm else '')
    s, S, h, dev = headers_of(ctx, item)
    ctx.ok(S is not FALSE, key + ':possible', '%s can return a header' % p)
    for S, off in places(ctx, S, dev, lb, nm, key):
        header_valid(ctx, S, dev, off, key, '%s returns the %s header' % (p, nm or 'primary'))
    if nm == 'backup':
        prove(ctx, imp(S, le(I(3 * lb), disk_len(dev))), key + ':size', 'no backup header on a device of fewer than three blocks')


def places(ctx, S, dev, lb, nm, key):
    """the condition, settled, with the place of the header in terms of the reader; the place is proved to be the right one"""
    S, _ = settle(S)
    if nm != 'backup':
        return [(S, I(lb))]
    want = last_block(dev, lb)
    cand = []
    for a in support_terms(S):
        if a.op == 'eq0':
            c, t = affine_byte(a.a[0])
            if t is not None and c == ord('E'):
                o = assume(t.a[3], S)
                if cval(o) is None and not any(x is o for x in cand):
                    cand.append(o)
    good = [o for o in cand if holds(imp(S, ieq(o, want)))]
    ctx.ok(len(good) == 1, key + ':place', 'the backup header is read from the last whole block (byte offset %s)' % [show(x)[:80] for x in cand])
    return [(S, o) for o in good]


def affine_byte(p):
    """p = byte - c: (c, byte term)"""
    for c in (ord('E'),):
        t = add(p, I(c))
        x = atom_of(t)
        if x is not None and x.op == 'app' and x.a[0] == 'devbyte':
            return c, x
    return None, None

