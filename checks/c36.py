"""C36: every loop that is reachable from an exported function has a bound that is fixed before it starts, or a condition
to continue that contradicts a number of iterations; no function calls itself."""
from engine.effects import Graph

from .c13 import *
from .c30 import FN as ALIGN


def functions(w):
    return sorted({r['path'] for r in w.roots if r['exported'] and not r['derived'] and r['inst'] in w.bodies and '::_::' not in r['path']})


def cases_for(ctx, p):
    sc = scenarios(ctx, p)
    return range(len(sc) if ctx.tier == 'thorough' or p in (ADD, AT, REPLACE, WRITE, WRITE_TAKE) else 1)


def check(ctx):
    ctx.rule('each loop: bound on the iteration number known at entry, or (condition to continue => iteration number < 2^64 for 64-bit ranges); recursion: none in the call graph')
    w = ctx.world()
    fs = functions(w)
    items = [(p, i) for p in fs for i in cases_for(ctx, p)]
    ctx.each(items, part)
    ctx.floor('functions', len(fs), 80)
    ctx.ok(ctx.counts.get('loops', 0) >= 30, 'floor:loops', 'at least 30 loops are examined, found %d' % ctx.counts.get('loops', 0))
    # recursion among the functions of the crate
    g = Graph(w)
    succ = {}
    for b, body in w.bodies.items():
        if not body.get('local', True):
            continue
        out = set(g.closures(body))
        for s in g.sites(b):
            i = ((s.callee or {}).get('res') or {}).get('inst')
            if i is not None and i in w.bodies:
                out.add(i)
        succ[b] = [x for x in out if x in w.bodies and w.bodies[x].get('local', True)]
    for b in sorted(succ):
        seen, todo = set(), list(succ[b])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += succ.get(x, [])
        ctx.ok(b not in seen, 'recursion:' + str(w.bodies[b].get('path')), '%s does not call itself' % w.bodies[b].get('path'), w.bodies[b].get('span'))
    ctx.count('functions without recursion', len(succ))


def part(ctx, item):
    p, i = item
    sc = scenarios(ctx, p)[i]
    s = ctx.summary(p, sc)
    key = '%s/%s' % (p, ','.join('%s' % (x,) for x in sc.key if x))
    for e, path in flat(s.events):
        if e.kind == 'nonterminating':
            ctx.ok(False, '%s:endless:%s' % (key, e.fn), 'a loop without an exit: %s' % e.name.split('@')[0], e.where())
        if e.kind in ('opaque-call', 'unknown') and not known(e):
            ctx.ok(False, '%s:known:%s' % (key, e.fn), 'every call is understood', e.where())
    for lid, (depth, L) in sorted(s.I.loopinfo.items(), key=lambda x: str(x[0])):
        ctx.count('loops')
        nm = L.name.split('@')[0]
        k = '%s:%s' % (key, nm)
        if L.bound is not None and not any(x.op == 'inf' for x in all_terms(L.bound)):
            ctx.ok(L.lv not in L.bound.fv, k + ':bound', 'the loop ends after %s iterations' % show(L.bound)[:80], L.where())
            continue
        if falls(L):
            ctx.ok(True, k + ':falls', 'a whole number falls in every iteration and stays positive or zero', L.where())
            continue
        # the condition to continue limits the number of iterations
        far = ge0(sub(P(L.lv), I(1 << 64)))
        ctx.ok(Lin().sat(L.cont & L.guard & far) is None, k + ':ends', '%s: no argument that the loop ends' % nm, L.where())


def falls(L):
    """a carried whole number that gets less in every iteration, and never less than zero"""
    for key, loc in L.locs.items():
        mu, new = loc[1], L.step.get(key)
        if not (isinstance(mu, T) and mu.op == 'poly' and isinstance(new, T) and new.op == 'poly'):
            continue
        t = atom_of(mu).ty if atom_of(mu) is not None else None
        if t is None or t.s not in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize'):
            continue
        C = L.cont & ge0(mu)
        for a in list(all_terms(new)):
            if a.op == 'app' and a.a[0] in ('div', 'shr') and len(a.a) == 3 and cval(a.a[2]) is not None:
                c = cval(a.a[2]) if a.a[0] == 'div' else 1 << cval(a.a[2])
                if c > 1:
                    q = P(a)
                    C = C & ge0(q) & ge0(sub(a.a[1], mul(q, I(c)))) & ge0(sub(add(mul(q, I(c)), I(c - 1)), a.a[1]))
        if cval(mu) is None and Lin().sat(C & ~lt(new, mu)) is None and Lin().sat(C & ~ge0(new)) is None:
            return True
    return False


def known(e):
    return any(x in (e.fn or '') for x in ('parse_uuid',))
