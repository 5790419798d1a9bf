"""C37: the constructors, setters and accessors of the protective MBR, evaluated for symbolic arguments."""
from .base import *

M = 'gpt::mbr::'
PM = M + 'ProtectiveMBR::'
EMPTY = dict(boot_indicator=0, start_head=0, start_sector=0, start_track=0, os_type=0, end_head=0, end_sector=0, end_track=0, lb_start=0, lb_size=0)
GUARD = dict(EMPTY, start_sector=2, os_type=0xEE, end_head=0xFF, end_sector=0xFF, end_track=0xFF, lb_start=1)
NAMES = ('bootcode', 'disk_signature', 'unknown', 'partitions', 'signature')


def check(ctx):
    ctx.rule('each field of a new MBR or record folds to the specified constant or the argument; a setter changes exactly its field; a record accessor touches exactly the record of a valid index')
    w = ctx.world()
    PR = ty(w, M + 'PartRecord')

    def record(r, want, key, text, given=TRUE):
        for f, v in want.items():
            x = fld(r, f)
            v = I(v) if isinstance(v, int) else v
            prove(ctx, imp(given, ieq(x, v)), '%s:%s' % (key, f), '%s: %s is %s' % (text, f, show(v)[:40]))

    def fresh(m, size, key):
        b = fld(m, 'bootcode')
        prove(ctx, ieq(slen(b), I(440)) & same_bytes([elem(b, I(i), U8) for i in range(440)], [ZERO] * 440, TRUE), key + ':bootcode', 'the boot code is empty')
        b = fld(m, 'disk_signature')
        prove(ctx, same_bytes([elem(b, I(i), U8) for i in range(4)], [ZERO] * 4, TRUE), key + ':disk_signature', 'the disk signature is zero')
        prove(ctx, ieq(fld(m, 'unknown'), ZERO), key + ':unknown', 'the reserved bytes are zero')
        b = fld(m, 'signature')
        prove(ctx, same_bytes([elem(b, I(i), U8) for i in range(2)], [I(0x55), I(0xAA)], TRUE), key + ':signature', 'the signature is 55 AA')
        rs = fld(m, 'partitions')
        record(elem(rs, ZERO, PR), dict(GUARD, lb_size=size), key + ':record0', 'the first record protects the disk')
        for i in (1, 2, 3):
            record(elem(rs, I(i), PR), EMPTY, key + ':record%d' % i, 'record %d is empty' % i)

    def total(s, key):
        ctx.functions |= s.I.analysed
        ctx.ok(s.pc is TRUE and not [e for e, _ in flat(s.events) if e.kind not in ('loop', 'alloc')], key + ':total', 'no panic, nothing else happens')

    s = ctx.summary(PM + 'with_lb_size')
    total(s, 'with_lb_size')
    fresh(s.ret, s.args[0], 'with_lb_size')
    for p in (PM + 'new', '<gpt::mbr::ProtectiveMBR as core::default::Default>::default'):
        s = ctx.summary(p)
        total(s, p)
        fresh(s.ret, 0xFFFFFFFF, p)
    s = ctx.summary(M + 'PartRecord::new_protective')
    total(s, 'new_protective')
    a = s.args[0]
    record(s.ret, dict(GUARD, lb_size=0xFFFFFFFF), 'new_protective:none', 'a record without a size', is_variant(a, 'None'))
    some = is_variant(a, 'Some')
    record(s.ret, dict(GUARD, lb_size=payload(a, 'Some')), 'new_protective:some', 'a record of a size', some)
    s = ctx.summary(M + 'PartRecord::zero')
    total(s, 'zero')
    record(s.ret, EMPTY, 'zero', 'an empty record')

    # accessors
    for f in ('bootcode', 'disk_signature'):
        s = ctx.summary(PM + f)
        total(s, f)
        ctx.ok(veq(pre_of(s, s.ret), fld(pre(s), f)) is TRUE, 'get:' + f, '%s returns the %s' % (f, f), PM + f)
        s = ctx.summary(PM + 'set_' + f)
        total(s, 'set_' + f)
        for nm in NAMES:
            ctx.ok(veq(fld(post(s), nm), s.args[1] if nm == f else fld(pre(s), nm)) is TRUE, 'set_%s:%s' % (f, nm), 'set_%s %s' % (f, 'stores the argument' if nm == f else 'leaves %s alone' % nm), PM + 'set_' + f)
        ctx.ok(veq(pre_of(s, s.ret), post(s)) is TRUE, 'set_%s:result' % f, 'set_%s returns the object' % f, PM + 'set_' + f)
    for p in ('partition', 'set_partition'):
        for j in range(4):
            s = analyse(w, ctx.root(PM + p)['path'], given={1: I(j)})
            key = '%s:%d' % (p, j)
            total(s, key)
            ctx.ok(is_variant(s.ret, 'Some') is TRUE, key + ':some', 'there is a record %d' % j, PM + p)
            old, new = fld(pre(s), 'partitions'), fld(post(s), 'partitions')
            prove(ctx, same_record(payload(s.ret, 'Some'), elem(old, I(j), PR)), key + ':result', 'index %d yields record %d as it was' % (j, j))
            for k in range(4):
                want = s.args[2] if p == 'set_partition' and k == j else elem(old, I(k), PR)
                prove(ctx, same_record(elem(new, I(k), PR), want), '%s:record%d' % (key, k), 'record %d %s' % (k, 'is the given one' if want is s.args[-1] else 'is kept'))
            kept(ctx, s, key, ('partitions',))
        s = analyse(w, PM + p, assume_pc=lambda args, st, cells: ge0(sub(args[1], I(4))))
        key = p + ':beyond'
        prove(ctx, imp(s.pc0, s.pc & is_variant(s.ret, 'None')), key + ':none', 'there is no record beyond the fourth')
        kept(ctx, s, key, ())
        ctx.functions |= s.I.analysed
    ctx.floor('fields and bytes', len(ctx.obls), 120)


def same_record(a, b):
    r = TRUE
    for f in EMPTY:
        r = r & ieq(fld(a, f), fld(b, f))
    return r


def kept(ctx, s, key, but):
    for nm in NAMES:
        if nm not in but:
            a, b = (assume(fld(x, nm), s.pc0) for x in (pre(s), post(s)))
            ctx.ok(veq(a, b) is TRUE, '%s:%s' % (key, nm), '%s is left alone' % nm, s.name)


def pre_of(s, v):
    """what a returned reference points to, after the call"""
    while isinstance(v, T) and v.op in ('ref', 'valref'):
        if v.op == 'valref':
            v = v.a[0]
        else:
            v = s.I.get_path(s.st.mem[v.a[0]], v.a[1])
    return v
