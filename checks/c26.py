"""C26: the result of cloning or rebinding a disk object as a term over the fields of the original, compared field by
field; stored header errors are compared by kind (and message or I/O error kind)."""
from .base import *

CLONE = '<gpt::GptDisk<D> as core::clone::Clone>::clone'


def same_kind(a, b):
    """condition that two header errors are of the same kind, with the same payload where it can be copied"""
    r = TRUE
    t = b.ty
    for k, v in enumerate(t.variants):
        r = r & ~(isv(a, k) ^ isv(b, k))
        for i in range(t.nfields(k)):
            f = t.field_ty(k, i)
            x, y = proj(a, k, i, f), proj(b, k, i, f)
            if f.k == 'ref' or f.k == 'str' or not (f.path or '').endswith('io::error::Error'):
                r = r & imp(isv(b, k), veq(assume(x, isv(b, k)), y))
    return r


def same_io(a, b):
    """the I/O error kind is preserved"""
    for k, v in enumerate(b.ty.variants):
        for i in range(b.ty.nfields(k)):
            f = b.ty.field_ty(k, i)
            if (f.path or '').endswith('io::error::Error'):
                yield k, assume(proj(a, k, i, f), isv(b, k)), proj(b, k, i, f)


def check(ctx):
    ctx.rule('clone: every field equal to the original, header errors of equal kind')
    ctx.rule('rebind: the same except device and config.writable')
    w = ctx.world()
    t = ty(w, DISK) if w.find_ty(DISK) else None

    def compare(key, new, old, skip=()):
        t = old.ty
        for i in range(t.nfields(0)):
            nm = t.variants[0]['fields'][i][0]
            if nm in skip:
                continue
            f = t.field_ty(0, i)
            a, b = proj(new, 0, i, new.ty.field_ty(0, i)), proj(old, 0, i, f)
            if f.k == 'adt' and f.path.endswith('result::Result'):
                prove(ctx, ~(is_variant(a, 'Ok') ^ is_variant(b, 'Ok')), '%s:%s:state' % (key, nm), '%s keeps whether the %s is valid' % (key, nm))
                S = is_variant(b, 'Ok')
                prove(ctx, imp(S, veq(assume(payload(a, 'Ok'), S), payload(b, 'Ok'))), '%s:%s:value' % (key, nm), '%s keeps a valid %s' % (key, nm))
                S = is_variant(b, 'Err')
                ea, eb = assume(payload(a, 'Err'), S), payload(b, 'Err')
                prove(ctx, imp(S, same_kind(ea, eb)), '%s:%s:error' % (key, nm), '%s keeps the kind of error of an invalid %s' % (key, nm))
                for k, x, y in same_io(ea, eb):
                    ok = x is y or any(z.op == 'app' and z.a[0] == 'errkind' and y in z.a for z in subterms(x))
                    ctx.ok(ok, '%s:%s:io' % (key, nm), '%s keeps the kind of an I/O error stored for the %s: %s' % (key, nm, show(x)))
            else:
                prove(ctx, veq(a, b), '%s:%s' % (key, nm), '%s keeps the field %s' % (key, nm))
            ctx.count('fields compared')

    s = ctx.summary(CLONE)
    ctx.ok(s.pc is TRUE, 'clone:total', 'cloning always returns')
    new, old = s.ret, pre(s)
    compare('clone', new, old)

    wi = option_field(w, 'writable')
    for p in ('with_disk_device', 'update_disk_device'):
        s = ctx.summary('gpt::GptDisk::<D>::' + p)
        old = pre(s)
        new = s.ret if p == 'with_disk_device' else post(s)
        prove(ctx, s.pc, p + ':total', '%s always returns' % p)
        compare(p, new, old, skip=('device', 'config', 'sync_all') if p == 'with_disk_device' else ('device', 'config'))
        c = fld(old, 'config')
        fs = [proj(c, 0, i, c.ty.field_ty(0, i)) for i in range(c.ty.nfields(0))]
        fs[wi] = s.args[2]
        prove(ctx, veq(fld(new, 'config'), agg(c.ty, 0, fs)), p + ':config', '%s keeps the configuration except the writable mode, which becomes the given one' % p)
        prove(ctx, veq(fld(new, 'device'), s.args[1]), p + ':device', '%s stores the given device' % p)
        if p == 'update_disk_device':
            prove(ctx, veq(s.ret, fld(old, 'device')), p + ':old', '%s returns the previous device' % p)
    # accessors report what is stored
    for p, f in (('partitions', 'partitions'), ('guid', 'guid'), ('device_ref', 'device')):
        s = ctx.summary('gpt::GptDisk::<D>::' + p)
        prove(ctx, veq(view(s.ret), fld(pre(s), f)), 'accessor:' + p, '%s() reports the stored value' % p)
    s = ctx.summary('gpt::GptDisk::<D>::take_device')
    prove(ctx, veq(s.ret, fld(pre(s), 'device')), 'accessor:take_device', 'take_device() returns the device')
    ctx.ok(ctx.counts['fields compared'] >= 14, 'floor:fields', 'at least 14 fields compared')


def subterms(x, seen=None):
    seen = seen if seen is not None else set()
    if not isinstance(x, T) or x.id in seen:
        return
    seen.add(x.id)
    yield x
    for y in x.a:
        if isinstance(y, T):
            yield from subterms(y, seen)
        elif isinstance(y, tuple):
            for z in y:
                yield from subterms(z, seen)
