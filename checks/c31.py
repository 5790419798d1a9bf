"""C31: the partition map after removing, taking or replacing as a term over the map before."""
from .base import *

G = 'gpt::GptDisk::<D>::'


def check(ctx):
    ctx.rule('remove: map without exactly that key; take: empty map and the old one returned; replace: exactly the given map')
    w = ctx.world()

    def rest(s, key, S=TRUE):
        old, new = pre(s), post(s)
        for i in range(old.ty.nfields(0)):
            nm = old.ty.variants[0]['fields'][i][0]
            if nm != 'partitions':
                f = old.ty.field_ty(0, i)
                prove(ctx, imp(S, veq(proj(new, 0, i, f), proj(old, 0, i, f))), key + ':' + nm, '%s leaves %s alone' % (key, nm))

    s = ctx.summary(G + 'remove_partition')
    m, id_ = fld(pre(s), 'partitions'), s.args[1]
    has = map_has(m, id_)
    n = fld(post(s), 'partitions')
    prove(ctx, s.pc, 'remove:total', 'removing by id always returns')
    prove(ctx, imp(has, is_variant(s.ret, 'Some') & veq(assume(payload(s.ret, 'Some'), has), id_)), 'remove:found', 'removing an existing id returns it')
    prove(ctx, imp(~has, is_variant(s.ret, 'None')), 'remove:absent', 'removing an id without entry returns nothing')
    prove(ctx, imp(has, veq(assume(n, has), mk_maprem(m, id_))), 'remove:map', 'removing by id deletes exactly that entry')
    prove(ctx, imp(~has, veq(assume(n, ~has), m)), 'remove:none', 'removing an id without entry changes nothing')
    rest(s, 'remove')

    s = ctx.summary(G + 'remove_partition_by_guid')
    m, g = fld(pre(s), 'partitions'), s.args[1]
    n = fld(post(s), 'partitions')
    S = s.pc & is_variant(s.ret, 'Some')
    N = s.pc & ~is_variant(s.ret, 'Some')
    rid = assume(payload(s.ret, 'Some'), S)
    ctx.ok(S is not FALSE and N is not FALSE, 'guid:both', 'removing by identifier can find and not find an entry')
    at = atom_of(rid)
    if ctx.ok(at is not None and at.op == 'app' and at.a[0] == 'mapkey' and at.a[1] is m, 'guid:key', 'the returned id is the key of an entry: %s' % show(rid)):
        prove(ctx, imp(S & search_facts(S), lt(at.a[2], map_len(m)) & ge0(at.a[2])), 'guid:entry', 'the returned id belongs to an entry of the map')
        prove(ctx, imp(S & search_facts(S), veq(fld(mval(w, m, rid), 'part_guid'), g)), 'guid:match', 'the removed entry has the given identifier')
        S2 = S & map_has(m, rid)       # a key at a position below the length is contained in the map
        prove(ctx, imp(S2, veq(assume(n, S2), mk_maprem(m, rid))), 'guid:map', 'removing by identifier deletes exactly that entry')
    j = sym('j', U64)
    other = veq(fld(mval(w, m, models.map_key(m, j)), 'part_guid'), g)
    prove(ctx, imp(N & search_facts(N, [j]) & lt(j, map_len(m)), ~other), 'guid:all', 'nothing is returned only if no entry has the identifier')
    prove(ctx, imp(N, veq(assume(n, N), m)), 'guid:none', 'and then nothing changes')
    rest(s, 'guid', s.pc)

    s = ctx.summary(G + 'take_partitions')
    m = fld(pre(s), 'partitions')
    prove(ctx, s.pc & veq(s.ret, m), 'take:map', 'taking the partitions returns the whole map')
    e = fld(post(s), 'partitions')
    ctx.ok(map_len(e) is I(0), 'take:empty', 'and leaves it empty')
    rest(s, 'take')

    for pr, bk in (('Ok', 'Ok'), ('Ok', 'Err'), ('Err', 'Ok')):
        s = ctx.summary(G + 'update_partitions', Scen(primary=pr, backup=bk, lb=512))
        S = ok_of(s)
        key = 'replace:%s:%s' % (pr, bk)
        ctx.ok(S is not FALSE, key + ':success', 'replacing the partitions can succeed')
        prove(ctx, imp(S, veq(assume(fld(post(s), 'partitions'), S), s.args[1])), key, 'replacing the partitions stores exactly the given map')
