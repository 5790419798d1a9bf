"""C21: the header a builder makes as a gate term over the builder's fields; linear rules on its positions, the builder's
setters, and the pair of headers made from the same data."""
from .disk import *

BLD = 'gpt::header::builder::HeaderBuilder'
SETTERS = ('primary', 'disk_guid', 'backup_lba', 'first_usable', 'last_usable', 'num_parts', 'part_size')
POSITIONS = ('current_lba', 'backup_lba', 'part_start', 'crc32', 'crc32_parts')


def check(ctx):
    ctx.rule('Ok => first_usable*lb >= (primary+1)*lb + count*size; (backup-1-last_usable)*lb >= count*size; first_usable <= last_usable; part_start = primary+1 | last_usable+1; count, size, identifier kept')
    ctx.rule('primary and backup headers from the same builder agree except for positions and checksums; no panic; otherwise an error')
    f = setters(ctx)
    for lb in (512, 4096):
        build(ctx, lb, f)
    start(ctx, f)
    ctx.floor('setters', len(f), 7)


def setters(ctx):
    """field index each setter assigns"""
    w = ctx.world()
    t = ty(w, BLD)
    out = {}
    for nm in SETTERS:
        s = ctx.summary('%s::%s' % (BLD, nm))
        a, b = pre(s), post(s)
        v = s.args[1]
        want = v if nm != 'num_parts' else mk_ite(le(I(128), v), v, I(128))
        prove(ctx, s.pc, 'setter:%s:total' % nm, '%s(value) always returns' % nm)
        changed = [i for i in range(t.nfields(0)) if veq(proj(b, 0, i, t.field_ty(0, i)), proj(a, 0, i, t.field_ty(0, i))) is not TRUE]
        if not ctx.ok(len(changed) == 1, 'setter:' + nm, '%s(value) changes one part of the builder, found %d' % (nm, len(changed))):
            continue
        i = changed[0]
        prove(ctx, veq(proj(b, 0, i, t.field_ty(0, i)), want), 'setter:%s:value' % nm, '%s(value) stores %s' % (nm, 'the value' if nm != 'num_parts' else 'the larger of the value and 128'))
        ctx.ok(i not in out.values(), 'setter:%s:own' % nm, 'setters store different parts')
        out[nm] = i
    rest = [i for i in range(t.nfields(0)) if i not in out.values()]
    ctx.ok(len(rest) == 1, 'builder:primary', 'the rest of the builder is the block of the primary header')
    if len(rest) == 1:
        out['primary_lba'] = rest[0]
    return out


def part_of(b, f, nm):
    return proj(b, 0, f[nm], b.ty.field_ty(0, f[nm]))


def build(ctx, lb, f):
    s = ctx.summary(BLD + '::build', Scen(lb=lb))
    key = 'build/%d' % lb
    lin = Lin()
    b = pre(s)
    S = ok_of(s)
    ctx.ok(S is not FALSE, key + ':possible', 'a header can be built')
    for e, path in flat(s.events):
        if e.kind == 'panic':
            ctx.ok(lin.sat(e.guard) is None, key + ':panic:' + e.what, 'building never panics', e.where())
        ctx.ok(e.kind not in ('opaque-call', 'unknown', 'loop'), '%s:%s:%s' % (key, e.kind, e.fn), 'every step is understood', e.where())
    h = deepv(payload(s.ret, 'Ok'), S)
    prim = part_of(b, f, 'primary')
    p, q, num, size = (part_of(b, f, x) for x in ('primary_lba', 'backup_lba', 'num_parts', 'part_size'))
    for nm, x in (('disk_guid', part_of(b, f, 'disk_guid')), ('num_parts', num), ('part_size', size)):
        prove(ctx, imp(S, veq(fld(h, nm), x)), '%s:%s' % (key, nm), 'the %s is the requested one' % nm, lin=lin)
    bytes_ = mul(num, size)
    first, last = fld(h, 'first_usable'), fld(h, 'last_usable')
    for orient, O in (('primary', S & prim), ('backup', S & ~prim)):
        if not ctx.ok(O is not FALSE, '%s:%s:possible' % (key, orient), 'a %s header can be built' % orient):
            continue
        k = '%s:%s' % (key, orient)
        own, other = (p, q) if orient == 'primary' else (q, p)
        fi, la = deepv(first, O), deepv(last, O)
        prove(ctx, imp(O, ieq(deepv(fld(h, 'current_lba'), O), own)), k + ':current', 'own position', lin=lin)
        prove(ctx, imp(O, ieq(deepv(fld(h, 'backup_lba'), O), other)), k + ':other', 'position of the other header', lin=lin)
        prove(ctx, imp(O, le(add(scale(add(p, I(1)), lb), bytes_), scale(fi, lb))), k + ':first', 'the first usable block is at or after the end of the primary array', lin=lin)
        prove(ctx, imp(O, le(add(scale(add(la, I(1)), lb), bytes_), scale(q, lb))), k + ':last', 'the backup array fits between the last usable block and the backup header', lin=lin)
        prove(ctx, imp(O, le(fi, la)), k + ':usable', 'the first usable block is not after the last', lin=lin)
        prove(ctx, imp(O, ieq(deepv(fld(h, 'part_start'), O), add(p, I(1)) if orient == 'primary' else add(la, I(1)))), k + ':array',
              'the array starts right after %s' % ('the primary header' if orient == 'primary' else 'the last usable block'), lin=lin)
    # both headers from the same data
    A, B_ = (restrict_to(s, prim, x) for x in (True, False))
    prove(ctx, ~(A[0] ^ B_[0]), key + ':same:ok', 'the primary header can be built exactly if the backup header can', lin=lin)
    both = A[0] & B_[0]
    for nm, i, t in fields_of(h):
        if nm in POSITIONS:
            continue
        x, y = (deepv(assume(proj(z, 0, i, t), both), both) for z in (A[1], B_[1]))
        prove(ctx, imp(both, veq(x, y)), '%s:same:%s' % (key, nm), 'primary and backup header from the same data agree in ' + nm, lin=lin)
    ctx.count('rules', 30)
    # errors
    prove(ctx, imp(s.pc & ~is_variant(s.ret, 'Ok'), is_variant(s.ret, 'Err')), key + ':error', 'everything else is an error')


def restrict_to(s, prim, x):
    S = ok_of(s)
    c = prim if x else ~prim
    h = payload(s.ret, 'Ok')
    C = restrict(S, c)
    return C, assume(h, S & c)


def fields_of(v):
    t = v.ty
    for i in range(t.nfields(0)):
        yield t.variants[0]['fields'][i][0], i, t.field_ty(0, i)


def start(ctx, f):
    """what a builder starts with"""
    s = ctx.summary(BLD + '::from_header')
    h = pre(s)
    b = s.ret
    prove(ctx, s.pc, 'from_header:total', 'from_header always returns')
    for nm in ('disk_guid', 'num_parts', 'part_size'):
        prove(ctx, veq(part_of(b, f, nm), fld(h, nm)), 'from_header:' + nm, 'from_header keeps the %s' % nm)
    c, o = fld(h, 'current_lba'), fld(h, 'backup_lba')
    before = lt(c, o)
    prove(ctx, ~(part_of(b, f, 'primary') ^ before), 'from_header:primary', 'a header in front of the other one is the primary header')
    prove(ctx, ieq(part_of(b, f, 'primary_lba'), mk_ite(before, c, o)), 'from_header:primary_lba', 'the primary header is the one in front')
    prove(ctx, ieq(part_of(b, f, 'backup_lba'), mk_ite(before, o, c)), 'from_header:backup_lba', 'the backup header is the one behind')
    s = ctx.summary(BLD + '::new')
    b = s.ret
    for nm, x in (('primary', TRUE), ('primary_lba', I(1)), ('num_parts', I(128)), ('part_size', I(128))):
        prove(ctx, veq(part_of(b, f, nm), x), 'new:' + nm, 'a new builder has %s %s' % (nm, show(x)))
    u = part_of(b, f, 'disk_guid')
    ctx.ok(u.op == 'app' and u.a[0] == 'uuidv4', 'new:disk_guid', 'a new builder has a random identifier: %s' % show(u)[:60])
