"""C07: every byte of every header block the library writes and every field of every header it reads, as terms, compared
with the UEFI layout."""
from .disk import *
from . import c04

W = ('gpt::header::Header::write_primary', 'gpt::header::Header::write_backup')


def check(ctx):
    ctx.rule('decoded field = specified bytes of the device; written block = specified bytes of the header value, CRC32 of the encoding, zeros')
    items = [('read', p, lb, None) for p in (READ_HEADER, READ_HEADER_PATH) for lb in (512, 4096)]
    items += [('read', OPEN, lb, nm) for lb in (512, 4096) for nm in ('primary', 'backup')]
    items += [('write', p, lb, None) for p in W for lb in (512, 4096)]
    ctx.each(items, part)
    ctx.floor('codecs', len(items), 12)


def part(ctx, item):
    kind, p, lb, nm = item
    key = '%s/%d%s' % (p, lb, ':' + nm if nm else '')
    if kind == 'read':
        s, S, h, dev = c04.headers_of(ctx, (p, lb, nm))
        ctx.ok(S is not FALSE, key + ':possible', '%s can return a header' % p)
        for S, off in c04.places(ctx, S, dev, lb, nm, key):
            header_fields(ctx, S, assume(h, S), dev, off, key, 'header read by ' + p)
        return
    s = ctx.summary(p, HeaderScen(lb=lb))
    S = ok_of(s)
    ws = [(e, path) for e, path in flat(s.events) if e.kind == 'write' and (e.guard & S) is not FALSE]
    ctx.ok(len(ws) == 1 and not ws[0][1], key + ':writes', '%s performs one write' % p)
    for e, path in ws:
        S1, _ = settle(S)
        prove(ctx, imp(S1, e.guard), key + ':always', '%s writes whenever it succeeds' % p, e.where())
        header_write(ctx, e, post(s), S1, lb, key, 'header written by ' + p)
