"""C20: the identifier of the disk object after every operation as a term of the one before, of the argument or of the
header that was read, and the identifier in every header that a persist writes."""
from .persist import *
from .disk import OPEN, guid_at

CREATE = 'gpt::GptConfig::create_from_device'
SET = G + 'update_guid'


def check(ctx):
    ctx.rule('create: argument or generated; open: that of the current header; update_guid: argument or generated; every other operation: unchanged')
    ctx.rule('every header written: bytes 56-71 and its field disk_guid are the identifier of the disk object')
    ops = operations(ctx, mutable=True)
    ctx.ok(SET in ops, 'set', 'the identifier can be set')
    jobs = [('keep', p, a, b, ro) for p in ops if p != SET for a, b in STATES for ro in (0, 1)]
    jobs += [('set', SET, a, b, 0) for a, b in STATES]
    jobs += [('create', CREATE, lb, None, ro) for lb in (512, 4096) for ro in (0, 1)]
    jobs += [('open', OPEN, lb, None, None) for lb in (512, 4096)]
    jobs += [('write',) + it for it in variants(ctx)]
    ctx.each(jobs, part)
    ctx.floor('cases', len(jobs), 40)
    s = ctx.summary(G + 'guid', Scen())
    d = fld_of_self(s)
    prove(ctx, imp(s.pc, veq(view(s.ret), fld(d, 'guid'))), 'report', 'guid() reports the identifier of the disk object')


def fld_of_self(s):
    a = s.args[0]
    while isinstance(a, T) and a.op == 'valref':
        a = a.a[0]
    return a


def generated(ctx, v, key, text):
    """v is a freshly generated identifier"""
    v = v if isinstance(v, T) else BOT
    ctx.ok(any(a.op == 'app' and a.a[0] in ('uuidv4', 'random') or a.op in ('uuidv4', 'random') for a in all_terms(v)), key, text + ': ' + show(v)[:80])


def part(ctx, item):
    kind = item[0]
    w = ctx.world()
    if kind == 'write':
        return written_ids(ctx, item[1:])
    p, a, b, ro = item[1:]
    if kind in ('keep', 'set'):
        s = ctx.summary(p, Scen(lb=512, primary=a, backup=b, readonly_backup=ro))
        key = '%s:primary=%s,backup=%s,readonly_backup=%d' % (p, a, b, ro)
        if not isinstance(s.args[0], T) or s.args[0].op != 'ref':
            return
        old, new = fld(pre(s), 'guid'), assume(fld(post(s), 'guid'), s.pc)
        if kind == 'keep':
            prove(ctx, imp(s.pc, veq(new, old)), key, '%s keeps the identifier' % p)
            return
        arg = s.args[1]
        S = s.pc & is_variant(arg, 'Some')
        prove(ctx, imp(S, veq(assume(new, S), payload(arg, 'Some'))), key + ':some', 'update_guid stores the given identifier')
        S = s.pc & ~is_variant(arg, 'Some')
        generated(ctx, assume(new, S), key + ':none', 'update_guid without an argument generates one')
        return
    if kind == 'create':
        s = ctx.summary(p, Scen(lb=a, readonly_backup=ro))
        key = '%s:lb=%d,readonly_backup=%d' % (p, a, ro)
        S = ok_of(s)
        d = assume(payload(s.ret, 'Ok'), S)
        args = [x for x in s.args if isinstance(x, T) and x.ty is not None and x.ty.k == 'adt' and x.ty.path == OPT]
        if not ctx.ok(len(args) == 1, key + ':argument', 'creation takes an optional identifier'):
            return
        S1 = S & is_variant(args[0], 'Some')
        prove(ctx, imp(S1, veq(assume(fld(d, 'guid'), S1), payload(args[0], 'Some'))), key + ':some', 'a disk created with an identifier reports it')
        S0 = S & ~is_variant(args[0], 'Some')
        generated(ctx, assume(fld(d, 'guid'), S0), key + ':none', 'a disk created without one gets a generated identifier')
    else:
        s = ctx.summary(p, Scen(lb=a))
        key = '%s:lb=%d' % (p, a)
        S = strengthen(ok_of(s))
        S, (d,) = settle(S, payload(s.ret, 'Ok'))
    for V, nm in ((is_variant(fld(d, 'primary_header'), 'Ok'), 'primary'), (~is_variant(fld(d, 'primary_header'), 'Ok'), 'backup')):
        C = S & V
        if C is FALSE:
            continue
        h = deepv(payload(fld(d, nm + '_header'), 'Ok'), C)
        prove(ctx, imp(C, veq(deepv(fld(d, 'guid'), C), deepv(fld(h, 'disk_guid'), C))), '%s:%s' % (key, nm), 'the identifier is that of the current header')
    if kind == 'create':
        C = S & is_variant(fld(d, 'backup_header'), 'Ok')
        if C is not FALSE:
            h = assume(payload(fld(d, 'backup_header'), 'Ok'), C)
            prove(ctx, imp(C, veq(assume(fld(d, 'guid'), C), fld(h, 'disk_guid'))), key + ':both', 'the backup header of a created disk has the same identifier')


def written_ids(ctx, item):
    s, cases = persisted(ctx, item)
    for c in cases:
        old = fld(pre(s), 'guid')
        prove(ctx, imp(c.S, veq(assume(fld(c.d, 'guid'), c.S), old)), c.key + ':keep', 'persisting keeps the identifier')
        u = proj(old, 0, 0, old.ty.field_ty(0, 0))
        want = guid_at([elem(u, I(i), U8) for i in range(16)], 0)
        for nm, h in c.headers():
            prove(ctx, imp(c.S, veq(assume(fld(h, 'disk_guid'), c.S), old)), '%s:%s:memory' % (c.key, nm), 'after persisting the %s header in memory carries the identifier' % nm)
            hs = [w for w in c.writes() if w.kind == 'header' and w.head == nm and implies(c.S, w.ev.guard)]
            ctx.ok(hs, '%s:%s:written' % (c.key, nm), 'persisting writes the %s header' % nm)
            for w in hs:
                got = [elem(w.seq, I(i), U8) for i in range(56, 72)]
                ctx.ok(all(implies(c.S, veq(x, y)) for x, y in zip(got, want)), '%s:%s:bytes' % (c.key, nm), 'the written %s header carries the identifier of the disk object' % nm, w.ev.where())
                ctx.count('headers written')
