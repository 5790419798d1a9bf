"""C16: the blocks of an added partition as terms, compared on every successful branch with the free runs reported
before the call; alignment by rewriting remainders (x mod a = x - a * (x div a)) until every monomial has the factor a."""
from .edits import *
from .c17 import Runs, inserted, given, nes, contains


def check(ctx):
    ctx.rule('success => whole blocks of the size, aligned, inside the first reported run with room for them')
    ctx.rule('not-enough-space error <=> no reported run has room at its first aligned block')
    items = [i + (al,) for i in cases(ctx, ops=(ADD,)) for al in (0, 1)]
    ctx.each(items, part)
    ctx.floor('cases', len(items), 24)


def divisible(p, a):
    """polynomial p is a multiple of atom a"""
    for _ in range(8):
        for m, c in p.a[1]:
            t = [x for x in m if x.op == 'app' and x.a[0] == 'mod' and x.a[2] is P(a)]
            if t:
                x = t[0]
                rest = list(m)
                rest.remove(x)
                q = sub(x.a[1], mul(P(a), app('div', x.a[1], P(a), ty=U64)))
                for y in rest:
                    q = mul(q, P(y))
                p = add(sub(p, mk('poly', (0, ((m, c),)))), scale(q, c))
                break
        else:
            break
    return p.a[0] == 0 and all(a in m for m, c in p.a[1])


def part(ctx, item):
    al = item[-1]
    item = item[:-1]
    p, lb, a, b, ro, ch = item
    sc = scen(item)
    base_prep = sc.prep

    def prep(I_, st, args, cells):
        base_prep(I_, st, args, cells)
        t = args[5].ty
        args[5] = variant(t, 'Some', payload(args[5], 'Some')) if al else variant(t, 'None')
    sc.prep = prep
    sc.key = sc.key + (al,)
    s = ctx.summary(p, sc)
    runs = Runs(ctx, item)
    key = name(item) + (',aligned' if al else '')
    _, nm, size, ty_, flags, opt = s.args
    align = payload(opt, 'Some') if al else None
    S = strengthen(ok_of(s))
    ctx.ok(S is not FALSE, 'success:' + key, 'adding by size can succeed')
    N = nes(s)
    ctx.ok(N is not FALSE, 'fails:' + key, 'adding can fail for lack of space')
    facts = search_facts(S)
    ks = runs.positions(S)
    j = sym('j', U64)
    lin = Lin()
    cases_ = [(TRUE, None)]
    if al:
        cases_ = [(ieq(align, I(0)), None), (le(I(1), align), align)]
    k = sym('k', U64)
    okcount = 0
    for C, A in cases_:
        done = False
        for H, v in inserted(ctx, s, S & C, key):
            first, last = fld(v, 'first_lba'), fld(v, 'last_lba')
            H = strengthen(forget(H, about_device))
            first, last = assume(first, H), assume(last, H)
            blocks = add(sub(last, first), I(1))
            # blocks is the size in whole blocks, rounded up
            prove(ctx, imp(H, le(size, scale(blocks, lb)) & lt(scale(sub(blocks, I(1)), lb), size)), 'size:' + key, 'the partition has the size rounded up to whole blocks: %s' % show(blocks))
            given(ctx, H, v, ty_, flags, nm, key)
            prove(ctx, imp(H & facts, contains(runs, ks, first, last)), 'inside:' + key, 'all blocks lie in one reported free run')
            at = [x for x in ks if uses(first, x)]
            if not ctx.ok(len(at) == 1, 'which:' + key, 'the partition is placed in one run: %s' % show(first)):
                continue
            F = at[0]
            g, st, ln = runs.at(F)
            off = sub(first, st)
            if A is not None:
                Aa = atom_of(A)
                for gg, x in poly_leaves(first, H):
                    ctx.ok(divisible(x, Aa), 'align:' + key, 'the first block is a multiple of the alignment: %s' % show(x))
                prove(ctx, imp(H & facts, ge0(off) & lt(off, A)), 'offset:' + key, 'it is the first aligned block of the run')
            else:
                prove(ctx, imp(H & facts, ieq(off, I(0))), 'offset:' + key, 'it starts at the first block of the run')
            # earlier runs have no room at their first aligned block
            offj = assume(sub(replace_term(first, atom_of(F), j), runs.at(j)[1]), H)
            gj, sj, lj = runs.at(j)
            blocksj = replace_term(blocks, atom_of(F), j)
            prove(ctx, imp(H & search_facts(H, [j]) & gj & lt(j, F), lt(lj, add(offj, blocksj))), 'earliest:' + key, 'no earlier run has room for it')
            okcount += 1
            if done:
                continue
            done = True
            # refusing means that no run has room
            NN = strengthen(N & C)
            offk = sub(replace_term(first, atom_of(F), k), runs.at(k)[1])
            gk, sk, lk = runs.at(k)
            blocksk = replace_term(blocks, atom_of(F), k)
            prove(ctx, imp(NN & search_facts(NN, [k]) & gk, lt(lk, add(offk, blocksk))), 'only:' + key, 'the not-enough-space error means that no run has room')
            # any other outcome means that a run has room
            O = strengthen(s.pc & C & ~N)
            prove(ctx, imp(O & search_facts(O), g & le(add(off, blocks), ln)), 'refuse:' + key, 'without such a run the not-enough-space error is reported')
    ctx.ok(okcount >= 1, 'cases:' + key, 'placement analysed')
    ctx.count('placements', okcount)


def uses(t, F):
    a = atom_of(F)
    return a in set(all_terms(t))


def poly_leaves(v, H):
    from .c18 import leaves
    for g, x in leaves(v):
        if (H & g) is not FALSE:
            yield H & g, x
