"""C17: the blocks of a partition added at a position, compared on every successful branch with the free runs reported
for the disk before the call (the term of find_free_sectors), using the meaning of the search over the runs."""
from .edits import *


def check(ctx):
    ctx.rule('success => some reported free run contains all the blocks; the entry carries the given data')
    ctx.rule('no run contains the blocks => not-enough-space error; not-enough-space error => no run contains the blocks')
    items = cases(ctx, ops=(AT,))
    ctx.each(items, part)
    ctx.floor('cases', len(items), 12)


class Runs:
    """the free runs reported for a disk object: condition, first block and length of the run at position k"""

    def __init__(self, ctx, item):
        p, lb, a, b, ro, ch = item
        s = ctx.summary(G + 'find_free_sectors', scen(item))
        ps = pieces(s.ret)
        if len(ps) != 1 or ps[0][0] != 'flat' or len(ps[0][4]) != 1:
            raise Missing('free runs computed one by one')
        self.lv, self.n, self.g, es = ps[0][1:5]
        self.run = es[0]

    def at(self, k):
        m = {self.lv: k}
        r = subst(self.run, m)
        return subst(self.g, m) & ge0(k) & lt(k, self.n), proj(r, 0, 0, U64), proj(r, 0, 1, U64)

    def positions(self, *fs):
        """positions a search over the runs stopped at"""
        out = {}
        for f in fs:
            for x in support_terms(f):
                if x.op == 'first' and x.a[1] is self.n:
                    out[x.id] = P(x)
                if x.op == 'exists' and x.a[1] is self.n:
                    F = mk('first', x.a)
                    out[F.id] = P(F)
        return list(out.values())


def inserted(ctx, s, S, key):
    """(condition, partition) stored on the successful branches"""
    from .c18 import map_leaves
    n = assume(fld(post(s), 'partitions'), S)
    groups = {}
    for g, x in map_leaves(n):
        if (S & g) is FALSE:
            continue
        if ctx.ok(x.op == 'mapins', 'insert:' + key, 'the edit stores one partition'):
            v = x.a[2]
            groups[v.id] = (groups.get(v.id, (FALSE, v))[0] | (S & g), v)
    for H, v in groups.values():
        yield H, assume(v, H)


def nes(s):
    return err_of(s) & is_variant(payload(s.ret, 'Err'), 'NotEnoughSpace')


def contains(runs, ks, first, last):
    r = FALSE
    for k in ks:
        g, st, ln = runs.at(k)
        r = r | (g & le(st, first) & le(last, sub(add(st, ln), I(1))))
    return r


def part(ctx, item):
    p, lb, a, b, ro, ch = item
    s = ctx.summary(p, scen(item))
    runs = Runs(ctx, item)
    key = name(item)
    _, nm, id_, first, length, ty_, flags = s.args
    S = ok_of(s)
    ctx.ok(S is not FALSE, 'success:' + key, 'adding at a position can succeed')
    last = sub(add(first, length), I(1))
    lin = Lin()
    for H, v in inserted(ctx, s, S, key):
        prove(ctx, imp(H, veq(fld(v, 'first_lba'), first)), 'first:' + key, 'the partition starts at the given block')
        prove(ctx, imp(H, ieq(fld(v, 'last_lba'), last)), 'last:' + key, 'the partition ends after the given length')
        given(ctx, H, v, ty_, flags, nm, key)
    ks = runs.positions(S)
    facts = search_facts(S)
    prove(ctx, imp(S & facts, contains(runs, ks, first, last)), 'inside:' + key, 'all blocks lie in one reported free run', lin=lin)
    from .edits import id_used
    N = nes(s)
    ctx.ok(N is not FALSE, 'fails:' + key, 'the edit can fail for lack of space')
    k = sym('k', U64)
    # errors other than lack of space and an id in use are reported only when a run contains the blocks
    O = s.pc & ~N & ~id_used(ctx.world(), fld(pre(s), 'partitions'), id_)
    ks2 = runs.positions(O)
    prove(ctx, imp(O & search_facts(O), contains(runs, ks2, first, last)), 'refuse:' + key, 'without such a run the not-enough-space error is reported', lin=Lin())
    g, st, ln = runs.at(k)
    prove(ctx, imp(N & search_facts(N, [k]) & g & le(st, first) & le(last, sub(add(st, ln), I(1))) & le(I(1), length), FALSE), 'only:' + key, 'the not-enough-space error means that no free run contains the blocks', lin=Lin())
    ctx.count('branches', 3)


def given(ctx, H, v, ty_, flags, nm, key):
    prove(ctx, imp(H, veq(fld(v, 'part_type_guid'), ty_)), 'type:' + key, 'the partition has the given type')
    prove(ctx, imp(H, veq(fld(v, 'flags'), flags)), 'flags:' + key, 'the partition has the given flags')
    prove(ctx, imp(H, veq(fld(v, 'name'), view(nm))), 'name:' + key, 'the partition has the given name')
    u = fld(v, 'part_guid')
    ctx.ok(u.op == 'app' and u.a[0] == 'uuidv4', 'guid:' + key, 'the partition gets a fresh random identifier: %s' % show(u))
