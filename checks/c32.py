"""C32: the returned list of free runs as a term.  It must be, for consecutive pairs (a, b) of the ascending boundaries
{first usable - 1} + {first and last block of every used partition} + {last usable + 1}, the run (a+1, b-1-a) exactly if
it is not empty.  For partitions that lie in the usable range without overlapping, the sorted boundaries alternate
between the end of one occupied range and the start of the next, so these pairs are exactly the gaps."""
from .edits import *


def check(ctx):
    ctx.rule('free runs = non-empty gaps between consecutive pairs of the sorted boundaries of the used ranges')
    w = ctx.world()
    for a, b in STATES:
        s = ctx.summary(G + 'find_free_sectors', Scen(primary=a, backup=b))
        key = 'free:%s:%s' % (a, b)
        h = current(pre(s), a)
        runs(ctx, w, key, s.ret, s.pc, pre(s), h)


def runs(ctx, w, key, ret, pc, d, h):
    m = fld(d, 'partitions')
    fu, lu = fld(h, 'first_usable'), fld(h, 'last_usable')
    A = le(I(1), fu) & le(lu, I((1 << 64) - 2))
    prove(ctx, imp(A, pc), key + ':total', 'the free runs can always be computed')
    ps = pieces(ret)
    if not ctx.ok(len(ps) == 1 and ps[0][0] == 'flat', key + ':form', 'the free runs are computed run by run: %s' % show(ret)):
        return
    lv, n, g, es = ps[0][1:5]
    if not ctx.ok(len(es) == 1, key + ':one', 'one run per pair of boundaries: %s' % show(ret)):
        return
    run = es[0]
    k = P(lv)
    st, ln = proj(run, 0, 0, U64), proj(run, 0, 1, U64)
    srt = sorts(st) | sorts(ln) | sorts(g)
    if not ctx.ok(len(srt) == 1, key + ':sorted', 'the boundaries are sorted'):
        return
    srt = next(iter(srt))
    x, y = elem(srt, scale(k, 2), U64), elem(srt, add(scale(k, 2), I(1)), U64)
    lin = Lin()
    inr = ge0(k) & lt(k, n)
    prove(ctx, imp(A & inr, ~(g ^ le(add(x, I(2)), y))), key + ':when', 'a run is reported exactly if there is a block between the two boundaries', lin=lin)
    prove(ctx, imp(A & inr & g, ieq(st, add(x, I(1)))), key + ':start', 'it starts after the first boundary', lin=lin)
    prove(ctx, imp(A & inr & g, ieq(ln, sub(sub(y, x), I(1)))), key + ':length', 'it ends before the second boundary', lin=lin)
    # the boundaries
    src = srt.a[1]
    ps = pieces(src)
    ones = [assume(z[1], A) for z in ps if z[0] == 'one']
    fls = [z[1:] for z in ps if z[0] == 'flat']
    lo, hi = sub(fu, I(1)), add(lu, I(1))
    okay = len(ones) == 2 and len(fls) == 1 and len(ps) == 3
    if ctx.ok(okay, key + ':boundaries', 'the boundaries are two limits and two per used partition: %s' % show(src)):
        F1 = imp(A, (ieq(ones[0], lo) & ieq(ones[1], hi)) | (ieq(ones[1], lo) & ieq(ones[0], hi)))
        prove(ctx, F1, key + ':limits', 'the limits are the block before the first and the block after the last usable one')
        lv2, n2, g2, es2 = fls[0][:4]
        j = P(lv2)
        part = mval(w, m, models.map_key(m, j))
        prove(ctx, ieq(n2, map_len(m)), key + ':all', 'every partition is considered')
        prove(ctx, ~(g2 ^ part_used(w, part)), key + ':used', 'exactly the used partitions are considered')
        e2 = es2
        a, b = fld(part, 'first_lba'), fld(part, 'last_lba')
        ok = len(e2) == 2
        prove(ctx, ((ieq(e2[0], a) & ieq(e2[1], b)) | (ieq(e2[0], b) & ieq(e2[1], a))) if ok else FALSE, key + ':ends', 'with its first and its last block')
        # as many pairs as half the boundaries
        prove(ctx, ieq(n, add(mk_count(lv2, n2, g2), I(1))), key + ':pairs', 'every pair of boundaries is considered', lin=lin)


def sorts(x, seen=None, out=None):
    seen = set() if seen is None else seen
    out = set() if out is None else out
    if isinstance(x, B):
        for v in tm.bsupport(x):
            sorts(tm.ATOMS[v], seen, out)
        return out
    if isinstance(x, tuple):
        for y in x:
            if isinstance(y, (T, B, tuple)):
                sorts(y, seen, out)
        return out
    if x.id in seen:
        return out
    seen.add(x.id)
    if x.op == 'app' and x.a[0] == 'sort':
        out.add(x)
        return out
    for y in x.a:
        if isinstance(y, (T, B, tuple)):
            sorts(y, seen, out)
    return out
