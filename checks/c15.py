"""C15: the number of entries in the headers after every operation compared with the current header's before, as
linear facts on every branch; without permission the edit's error is the count-change error."""
from .edits import *
from .c28 import STATES as ST

WRITE = G + 'write_inplace'


def check(ctx):
    ctx.rule('change_partition_count=false: entry count of every valid header after = before (a rewritten backup takes the current count)')
    ctx.rule('always: entry count after >= before; freshly created: >= 128')
    w = ctx.world()
    items = cases(ctx)
    items += [(WRITE, lb, a, b, ro, None) for lb in ((512, 4096) if ctx.tier == 'thorough' else (512,)) for a, b in STATES for ro in (0, 1)]
    other = [p for p in operations(ctx, mutable=True) if p not in (WRITE, ADD, AT, REPLACE, G + 'write')]
    items += [(p, 512, a, b, None, None) for p in other for a, b in STATES]
    items += [('gpt::GptConfig::create_from_device', lb, None, None, ro, None) for lb in (512, 4096) for ro in (0, 1)]
    ctx.each(items, part)
    ctx.floor('cases', len(items), 60)


def part(ctx, item):
    p, lb, a, b, ro, ch = item
    opts = {k: v for k, v in (('readonly_backup', ro), ('change_partition_count', ch)) if v is not None}
    sc = Scen(lb=lb, primary=a, backup=b, **opts)
    key = '%s:%s' % (p.rsplit('::', 1)[-1], ','.join('%s=%s' % x for x in (('lb', lb), ('primary', a), ('backup', b), ('readonly_backup', ro), ('change', ch))))
    s = ctx.summary(p, sc)
    if a is None:
        S = ok_of(s)
        d = assume(payload(s.ret, 'Ok'), S)
        for nm in ('primary', 'backup'):
            h = header(d, nm)
            V = is_variant(h, 'Ok')
            if (S & V) is FALSE:
                continue
            prove(ctx, imp(S & V, le(I(128), assume(fld(payload(h, 'Ok'), 'num_parts'), S & V))), 'created:%s:%s' % (key, nm), 'a created disk has at least 128 entries in its %s header' % nm)
        return
    old = pre(s)
    h0 = current(old, a)
    n0 = fld(h0, 'num_parts')
    if not isinstance(s.args[0], T) or s.args[0].op != 'ref':
        return
    d = assume(post(s), s.pc)
    for nm, st in (('primary', a), ('backup', b)):
        h = header(d, nm)
        V = s.pc & is_variant(h, 'Ok')
        if V is FALSE:
            continue
        x = assume(fld(payload(h, 'Ok'), 'num_parts'), V)
        own = fld(payload(header(old, nm), 'Ok'), 'num_parts') if st == 'Ok' else None
        same = ieq(x, n0)
        low = le(n0, x)
        if own is not None:
            # a header that is not rewritten keeps its own count
            same = same | ieq(x, own)
            low = low | ieq(x, own)
        if nm == 'primary' or own is None:
            same, low = ieq(x, n0), le(n0, x)
        if ch != 1:
            prove(ctx, imp(V, same), 'fixed:%s:%s' % (key, nm), '%s does not change the number of entries of the %s header' % (p, nm))
        else:
            prove(ctx, imp(V, low), 'grow:%s:%s' % (key, nm), '%s never lowers the number of entries of the %s header' % (p, nm))
        ctx.count('entry counts compared')
    if ch == 0:
        S = ok_of(s)
        if p == REPLACE:
            pp = s.args[1]
            need = map_len(pp)
            F = map_facts(pp)
            prove(ctx, imp(s.pc & F & lt(n0, need), is_variant(s.ret, 'Err') & is_variant(payload(s.ret, 'Err'), 'PartitionCountWouldChange')),
                  'refuse:' + key, 'replacing with more partitions than entries fails with the count-change error')
        else:
            r = assume(payload(s.ret, 'Ok'), S)
            prove(ctx, imp(S, le(r, n0)), 'refuse:' + key, '%s only uses an id within the number of entries' % p)
            B = err_of(s) & is_variant(payload(s.ret, 'Err'), 'PartitionCountWouldChange')
            ctx.ok(B is not FALSE, 'error:' + key, '%s can report that the count would change' % p)
            if p == AT:
                id_ = s.args[2]
                m = fld(old, 'partitions')
                E = s.pc & ~map_has(m, id_) & lt(n0, id_)
                e = payload(s.ret, 'Err')
                prove(ctx, imp(E, is_variant(s.ret, 'Err') & (is_variant(e, 'PartitionCountWouldChange') | is_variant(e, 'NotEnoughSpace'))),
                      'kind:' + key, 'adding at an unused id beyond the entries fails with the count-change error (or for lack of space)')
