"""C28: header states (valid / invalid) before and after every exported operation on a disk object and in every disk
object a constructor returns, as formulas over the call's inputs; the accessors compared with the stored headers."""
from .base import *

G = 'gpt::GptDisk::<D>::'
# split by options where that makes the analysis cheaper (readonly_backup, change_partition_count); every case is covered either way
EDIT = ((0, 0), (0, 1), (1, 0), (1, 1))
OPTS = {'write_inplace': ((0, None), (1, None)), 'write': ((0, None), (1, None)), 'add_partition': EDIT, 'add_partition_at': EDIT, 'update_partitions': EDIT}
STATES = (('Ok', 'Ok'), ('Ok', 'Err'), ('Err', 'Ok'))


def valid(d, nm):
    return is_variant(fld(d, nm + '_header'), 'Ok')


def disk_result(v):
    """(condition, disk object) of a returned value that holds a disk object"""
    t = v.ty
    if t is None:
        return None
    if t.k == 'adt' and t.path == DISK:
        return TRUE, v
    if t.k == 'adt' and t.path.endswith('result::Result'):
        x = payload(v, 'Ok')
        if x.ty is not None and x.ty.k == 'adt' and x.ty.path == DISK:
            S = is_variant(v, 'Ok')
            return S, assume(x, S)
    return None


def check(ctx):
    ctx.rule('a returned disk object has a valid header; no operation invalidates a valid one')
    w = ctx.world()
    n = 0
    makers = []
    for r in w.roots:
        if not r.get('exported'):
            continue
        t = w.ty(w.body(r)['locals'][0][0])
        inner = t
        if t.k == 'adt' and t.path.endswith('result::Result'):
            inner = t.field_ty(t.vindex('Ok'), 0)
        if inner.k == 'adt' and inner.path == DISK:
            makers.append(r['path'])
    for p in ('gpt::GptConfig::open', 'gpt::GptConfig::create', 'gpt::GptConfig::open_from_device', 'gpt::GptConfig::create_from_device'):
        ctx.ok(p in makers, 'maker:' + p, '%s makes disk objects' % p)
    items = []
    for p in sorted(set(makers)):
        takes = disk_args(w, ctx.root(p))
        items += [('make', p, lb, o, a, b) for a, b in (STATES if takes else ((None, None),)) for lb in (512, 4096) for o in ((None,) if takes else (0, 1))]
    ops = operations(ctx, mutable=True)
    for p in ('write_inplace', 'add_partition', 'add_partition_at', 'update_partitions', 'update_guid', 'remove_partition'):
        ctx.ok(G + p in ops, 'op:' + p, '%s is an operation on disk objects' % p)
    for p in ops:
        items += [('op', p, lb, o, a, b) for a, b in STATES for lb in ((512, 4096) if ctx.tier == 'thorough' else (512,))
                  for o in OPTS.get(p.rsplit('::', 1)[-1], (None,))]
    from .c06 import OPEN
    items += [('open', OPEN, lb, o, big, None) for lb in ((512, 4096) if ctx.tier == 'thorough' else (512,)) for o in (0, 1) for big in (True, False)]
    ctx.each(items, part)
    n = len(items)
    # which header is the current one
    for a, b in STATES:
        s = ctx.summary(G + 'header', Scen(primary=a, backup=b))
        want = payload(fld(pre(s), 'primary_header' if a == 'Ok' else 'backup_header'), 'Ok')
        prove(ctx, s.pc, 'header:%s:%s:total' % (a, b), 'the current header exists')
        prove(ctx, veq(view(s.ret), want), 'header:%s:%s' % (a, b), 'the current header is the primary one if valid, else the backup one')
    for nm in ('primary', 'backup'):
        s = ctx.summary(G + nm + '_header')
        h = fld(pre(s), nm + '_header')
        prove(ctx, s.pc & ~(is_variant(s.ret, 'Ok') ^ is_variant(h, 'Ok')), 'state:' + nm, '%s_header() succeeds exactly if the header is valid' % nm)
        S = is_variant(h, 'Ok')
        v = assume(payload(s.ret, 'Ok'), S)
        prove(ctx, imp(S, veq(view(v), payload(h, 'Ok'))), 'value:' + nm, '%s_header() reports the stored header' % nm)
        S = is_variant(h, 'Err')
        from .c26 import same_kind
        prove(ctx, imp(S, same_kind(assume(payload(s.ret, 'Err'), S), payload(h, 'Err'))), 'error:' + nm, '%s_header() reports the kind of the stored error' % nm)
    ctx.floor('operations and states', n, 30)


def part(ctx, item):
    kind, p, lb, o, a, b = item
    w = ctx.world()
    if kind == 'open':      # a valid header on the device is a valid header of the disk object
        from . import c06
        return c06.part(ctx, (p, lb, o, a), slots_only=True)
    if kind == 'make':
        sc = Scen(lb=lb, primary=a, backup=b) if a else Scen(lb=lb, only_valid_headers=o)
        s = ctx.summary(p, sc)
        r = disk_result(s.ret)
        if r is None:
            ctx.ok(False, 'result:' + p, 'result of %s not understood' % p)
            return
        S, d = r
        S = S & s.pc
        key = p + ':' + scen_text(sc)
        ctx.ok(S is not FALSE, 'makes:' + key, '%s can succeed' % p)
        prove(ctx, imp(S, valid(d, 'primary') | valid(d, 'backup')), 'made:' + key, 'a disk object returned by %s has a valid header' % p)
        return
    sc = Scen(lb=lb, primary=a, backup=b) if o is None else \
        Scen(lb=lb, primary=a, backup=b, **{k: v for k, v in zip(('readonly_backup', 'change_partition_count'), o) if v is not None})
    s = ctx.summary(p, sc)
    for i in disk_args(w, ctx.root(p)):
        if isinstance(s.args[i], T) and s.args[i].op != 'ref':
            continue        # consumed
        d = post(s, i)
        key = p + ':' + scen_text(sc)
        for nm, st in (('primary', a), ('backup', b)):
            if st == 'Ok':
                prove(ctx, imp(s.pc, valid(assume(d, s.pc), nm)), 'keeps:%s:%s' % (key, nm), '%s keeps the %s header valid' % (p, nm))


def scen_text(sc):
    return ','.join('%s=%s' % x for x in sorted(dict(lb=sc.lb, primary=sc.primary, backup=sc.backup, **sc.opts).items()) if x[1] is not None)
