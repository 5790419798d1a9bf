"""C12: order of the device accesses of a persist (program order of the event list of its gate term), and where the
checksums in the written headers come from."""
from .persist import *


def check(ctx):
    ctx.rule('on success: array(h) < read of array(h) < header(h); header(backup) < header(primary); all writes < flush (and sync if the disk has one)')
    items = variants(ctx, sizes=(None,), ops=(WRITE,))
    ctx.each(items, part)
    ctx.each(variants(ctx, ops=(WRITE_TAKE,)), taken)
    ctx.floor('cases', len(items), 12)
    opened_by_path(ctx)


def part(ctx, item):
    s, cases = persisted(ctx, item)
    for c in cases:
        case(ctx, c, s, item)


def case(ctx, c, s, item):
    ws = c.writes()
    heads = {}
    for nm, h in c.headers():
        key = '%s:%s' % (c.key, nm)
        own = [w for w in ws if w.kind == 'header' and w.head == nm]
        if not ctx.ok(len(own) == 1, key + ':once', 'the %s header is written once, found %d' % (nm, len(own))):
            continue
        w = heads[nm] = own[0]
        ctx.ok(implies(c.S, w.ev.guard), key + ':always', 'the %s header is written on every successful persist' % nm, w.ev.where())
        header_write(ctx, w.ev, h, c.S, c.lb, key, '%s header written' % nm)
        for a in ws:
            if a.kind == 'array' and a.head == nm:
                ctx.ok(a.index < w.index, key + ':after:%s' % a.ev.fn, 'the %s header is written after its array' % nm, a.ev.where())
                ctx.count('ordered pairs')
        array_checksum(ctx, c, ws, nm, h, w, key)
    if 'backup' in heads and 'primary' in heads:
        ctx.ok(heads['backup'].index < heads['primary'].index, c.key + ':order', 'the backup header is written before the primary header', heads['primary'].ev.where())
    last = max([w.index for w in ws], default=-1)
    ctx.ok(not any(w.kind == 'unknown' for w in ws), c.key + ':known', 'every write belongs to a header or an array')
    fl = [(i, e) for i, e, path in c.accesses if e.kind == 'flush' and not path and i > last and implies(c.S, e.guard)]
    ctx.ok(fl, c.key + ':flush', 'the device is flushed after the last write on every successful persist')
    sync = fld(pre(s), 'sync_all')
    some = is_variant(sync, 'Some')
    fn = payload(sync, 'Some')
    sy = [(i, e) for i, e, path in c.accesses if e.kind == 'sync' and not path and i > last and e.d.get('fn_value') is not None
          and veq(e.d['fn_value'], fn) is TRUE and implies(c.S & some, e.guard)]
    ctx.ok(sy, c.key + ':sync', 'the stored sync function is called after the last write')
    for what, l in (('flush', fl), ('sync', sy)):
        for i, e in l:
            ctx.ok(implies(c.S & (some if what == 'sync' else TRUE), e.ok), '%s:%s:ok' % (c.key, what), 'success only if the %s succeeded' % what, e.where())


def array_checksum(ctx, c, ws, nm, h, w, key):
    """the array checksum in the header is the CRC32 of what the device holds in the array after its last write"""
    S = c.S
    at = atom_of(deepv(fld(h, 'crc32_parts'), S))
    good = isinstance(at, T) and at.op == 'app' and at.a[0] == 'crc' and is_alg(at.a[1])
    if not ctx.ok(good, key + ':crc', 'the array checksum of the %s header is a CRC32' % nm, w.ev.where()):
        return
    seq = deepv(at.a[2], S)
    n = deepv(slen(seq), S)
    size = mul(fld(h, 'part_size'), fld(h, 'num_parts'))
    prove(ctx, imp(S, ieq(n, size)), key + ':crc:size', 'the array checksum covers the whole array', w.ev.where())
    found = False
    last = max([a.index for a in ws if a.kind == 'array' and a.head == nm], default=-1)
    for i, e, path in c.accesses:
        if e.kind != 'read' or path or i > w.index or not implies(S, e.guard):
            continue
        off = deepv(e.off, S)
        if not holds(imp(S, ieq(off, scale(fld(h, 'part_start'), c.lb)))):
            continue
        src = [x for x in all_terms(seq) if x.op in ('app', 'devr') and 'devr' in (x.op, x.a[0] if x.a else None)]
        if not src:
            continue
        a = src[0].a if src[0].op == 'devr' else src[0].a[1:]
        same = veq(assume(a[1], S), assume(e.ver, S)) is TRUE and holds(imp(S, ieq(assume(a[2], S), off)))
        between = [x for x in ws if x.kind == 'array' and x.head == nm and x.index > i]
        if same and i > last and not between:
            found = True
    ctx.ok(found, key + ':crc:device', 'the array checksum of the %s header is computed from the array as it is on the device after its last write' % nm, w.ev.where())


def opened_by_path(ctx):
    """disks opened by path carry a function that synchronises the file"""
    w = ctx.world()
    for p in ('gpt::GptConfig::open', 'gpt::GptConfig::create'):
        s = ctx.summary(p, Scen(lb=512))
        S = ok_of(s)
        d = assume(payload(s.ret, 'Ok'), S)
        f = assume(fld(d, 'sync_all'), S)
        prove(ctx, imp(S, is_variant(f, 'Some')), 'sync:' + p, '%s gives a disk with a sync function' % p)
        fn = assume(payload(f, 'Some'), S)
        ctx.ok(fn.op == 'fn' and syncs(ctx, w, fn), 'syncs:' + p, 'the sync function of %s synchronises the file to storage: %s' % (p, show(fn)[:80]))


def syncs(ctx, w, fn):
    """a function value that succeeds only if it synchronised the file given to it"""
    from engine.world import FNS
    while isinstance(fn, T) and fn.op == 'valref':
        fn = fn.a[0]
    if fn.op == 'fn':
        f = FNS[fn.a[0]]
        if f['decl'] in ('std::fs::File::sync_all', 'std::fs::File::sync_data'):
            return f['decl'].endswith('sync_all')
        inst = (f.get('res') or {}).get('inst')
    elif fn.op == 'agg' and fn.ty is not None and fn.ty.k == 'closure':
        inst = fn.ty.d.get('inst')
    else:
        return False
    if w.bodies.get(inst) is None:
        return False
    from engine.run import analyse
    s = analyse(w, 'sync function', root={'inst': inst})
    ctx.functions |= s.I.analysed
    S = ok_of(s)
    return S is not FALSE and any(e.kind == 'sync' and e.d.get('how') == 'sync_all' and not path and implies(S, e.guard & e.ok) for e, path in flat(s.events))


def taken(ctx, item):
    """the persisting operation that gives the device back performs the same accesses"""
    p, lb, a, b, ro, n = item
    s = ctx.summary(p, scenario(item))
    t = ctx.summary(WRITE, scenario(item))
    key = label(item)
    xs, ys = ([(e, path) for e, path in flat(x.events) if e.kind in ('read', 'write', 'seek', 'flush', 'sync')] for x in (s, t))
    ctx.ok([e.kind for e, _ in xs] == [e.kind for e, _ in ys], key + ':kinds', '%s performs the accesses of %s' % (p, WRITE))
    S = ok_of(s)
    for e, path in xs:
        if not path and e.kind in ('write', 'flush'):
            ctx.ok((e.guard & S) is not FALSE, key + ':%s:%s' % (e.kind, e.fn), 'performed by ' + p, e.where())
    A, B_ = ok_of(s), ok_of(t)
    prove(ctx, imp(A, B_) , key + ':ok', '%s succeeds only if the persist succeeded' % p)
