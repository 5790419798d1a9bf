"""C06: result of opening a disk on every branch of header validity and configuration: success condition, error, header
slots, identifier and table, compared with the documented policy."""
from .disk import *
from .c08 import table_is


def check(ctx):
    ctx.rule('with no device failing: slot Ok <=> header valid; success only if P or B (P and B if both are demanded); identifier and table of P if valid, else of B; otherwise the error of an invalid header')
    items = [(p, lb, o, big) for p in (OPEN, OPENPATH) for lb in (512, 4096) for o in (0, 1) for big in (True, False)]
    ctx.each(items, part)
    ctx.floor('cases', len(items), 16)


def all_ok(s):
    """no device access fails"""
    F = TRUE
    for e, path in flat(s.events):
        if path:
            continue
        if e.kind == 'loop' and e.d.get('exists') is not None:
            # early exits because of a failing access
            E = e.exit_cond
            oks = [x for x in (tm.ATOMS[v] for v in tm.bsupport(E)) if x.op in ('ok', 'app')]
            bad = FALSE
            for x in oks:
                if x.op == 'ok' or x.a[0] == 'ok':
                    bad = bad | ~bvar(x)
            if implies(E, bad):
                F = F & ~e.exists
        elif isinstance(e.d.get('ok'), B):
            F = F & e.ok
    return F


def part(ctx, item, slots_only=False):
    p, lb, o, big = item
    key = '%s/%d,only_valid_headers=%d,%s' % (p, lb, o, 'large' if big else 'small')
    s = ctx.summary(p, Scen(lb=lb, only_valid_headers=o))
    dev = device_of(s)
    F = s.pc & all_ok(s)
    size = le(I(3 * lb), disk_len(dev))
    F = strengthen(F & (size if big else ~size))
    ctx.ok(F is not FALSE, key + ':possible', 'the case is possible')
    lin = Lin()
    # the content of both places
    F, (ret,) = settle(F, s.ret)
    alg = next((c.a[1] for c in crc_terms_in(ret) if is_alg(c.a[1])), None)
    if not ctx.ok(alg is not None, key + ':crc', 'header checksums are computed with CRC-32'):
        return

    def valid(off):
        bs = content(dev, off, 92)
        c = P(mk('app', ('crc', alg, lit(bs[:16] + [I(0)] * 4 + bs[20:])), U32))
        return signature_ok(bs), ieq(uint_at(bs, 16, 4), c)
    ret = deepv(ret, F)
    offs = [] if not big else [x for x in backup_places(ret, F, dev, lb) if holds(imp(F, ieq(x, last_block(dev, lb))), lin)]
    if big and not ctx.ok(len(offs) == 1, key + ':place', 'the backup header is looked for in the last whole block'):
        return
    psig, pcrc = valid(I(lb))
    VP = psig & pcrc
    bsig, bcrc = valid(offs[0]) if big else (FALSE, FALSE)
    VB = bsig & bcrc
    need = VP & VB if o else VP | VB
    OK = F & is_variant(ret, 'Ok')
    prove(ctx, imp(OK, need), key + ':only', 'opening succeeds only with %s' % ('two valid headers' if o else 'a valid header'))
    if OK is FALSE:
        ctx.ok(o and not big, key + ':opens', 'a valid disk can be opened')
        return errors(ctx, key, F, ret, need, psig, pcrc, bsig, bcrc, big)
    d = deepv(payload(ret, 'Ok'), OK)
    P_, B_ = fld(d, 'primary_header'), fld(d, 'backup_header')
    prove(ctx, imp(OK, ~(is_variant(P_, 'Ok') ^ VP)), key + ':primary', 'the primary header is reported as valid exactly if it is')
    prove(ctx, imp(OK, ~(is_variant(B_, 'Ok') ^ VB)), key + ':backup', 'the backup header is reported as valid exactly if it is')
    if slots_only:
        return
    for nm, slot, V, off in (('primary', P_, VP, I(lb)), ('backup', B_, VB, offs[0] if big else None)):
        C = OK & V
        if C is FALSE or off is None:
            continue
        header_fields(ctx, C, deepv(payload(slot, 'Ok'), C), dev, off, '%s:%s' % (key, nm), nm + ' header of the opened disk')
    for nm, slot, C in (('primary', P_, OK & VP), ('backup', B_, OK & ~VP)):
        if C is FALSE:
            ctx.ok(o or (nm == 'backup' and not big), '%s:%s:reachable' % (key, nm), 'a disk with only a valid %s header can be opened' % nm)
            continue
        h = deepv(payload(slot, 'Ok'), C)
        prove(ctx, imp(C, veq(deepv(fld(d, 'guid'), C), fld(h, 'disk_guid'))), '%s:%s:guid' % (key, nm), 'the identifier is that of the %s header%s' % (nm, '' if nm == 'primary' else ' if the primary is invalid'))
        table_is(ctx, deepv(fld(d, 'partitions'), C), C, h, dev, lb, '%s:%s' % (key, nm), 'table of a disk opened with its %s header' % nm)
    errors(ctx, key, F, ret, need, psig, pcrc, bsig, bcrc, big)


def errors(ctx, key, F, ret, need, psig, pcrc, bsig, bcrc, big):
    no = F & ~need
    prove(ctx, imp(no, is_variant(ret, 'Err')), key + ':error', 'otherwise opening fails')
    err = deepv(payload(ret, 'Err'), no)
    prove(ctx, imp(no, is_variant(err, 'Header')), key + ':error:kind', 'it fails with a header error')
    e = deepv(payload(err, 'Header'), no)
    bad = {'InvalidGptSignature': ~psig | (TRUE if not big else ~bsig), 'InvalidCRC32Checksum': psig & ~pcrc | bsig & ~bcrc, 'ToSmallForBackup': FALSE if big else TRUE}
    for i, v in enumerate(e.ty.variants):
        c = bad.get(v['name'], FALSE)
        if v['name'] == 'InvalidGptSignature' and not big:
            c = ~psig
        if v['name'] == 'Io':
            continue        # decoding errors of a header
        prove(ctx, imp(no & isv(e, i), c), '%s:error:%s' % (key, v['name']), 'the error %s is that of a header read' % v['name'])
    # a disk with the needed headers is not rejected because of a header
    if F & need is FALSE:
        return
    err = deepv(payload(ret, 'Err'), F & need)
    prove(ctx, imp(F & need & is_variant(ret, 'Err'), ~is_variant(err, 'Header')), key + ':accept', 'no header error if the needed headers are valid')


def crc_terms_in(v):
    return [a for a in all_terms(v) if a.op == 'app' and a.a[0] == 'crc']


def backup_places(v, F, dev, lb):
    out = []
    for a in all_terms(v):
        if a.op == 'eq0':
            t = atom_of(add(a.a[0], I(ord('E'))))
            if t is not None and t.op == 'app' and t.a[0] == 'devbyte':
                o = assume(t.a[3], F)
                if cval(o) is None and not any(o is x for x in out):
                    out.append(o)
    return out
