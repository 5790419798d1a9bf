"""C33: every unsafe operation of the crate, and the condition on which what it takes for granted does not hold."""
from engine.effects import Graph

from . import c13
from .base import *

# operations whose precondition the engine knows; each raises an `unchecked` event with the condition of a violation
KNOWN = ('core::option::Option::<T>::unwrap_unchecked', 'core::result::Result::<T, E>::unwrap_unchecked',
         'core::result::Result::<T, E>::unwrap_err_unchecked', 'core::hint::unreachable_unchecked')


def check(ctx):
    ctx.rule('every unsafe block, function, impl and static of the crate is listed by the compiler; only unchecked unwrapping occurs, and the condition on which the other variant is unwrapped is false')
    w = ctx.world()
    sites = {json.dumps(u, sort_keys=True): u for u in w.d['unsafe']}.values()
    owners = {}
    n = 0
    for u in sites:
        k, o = u['kind'], u['owner']
        n += 1
        if k == 'static':
            ctx.ok(not u['mut'], 'static:' + o, '%s cannot be changed' % o, u['span'])
        elif k in ('extern', 'asm'):
            ctx.ok(False, '%s:%s' % (k, o), 'no foreign code or assembly (%s)' % o, u['span'])
        elif k == 'impl':
            ctx.ok('TrivialClone' in o, 'impl:' + o, 'no unsafe impl (%s)' % o, u['span'])
        elif k == 'block' and u['user']:
            owners.setdefault(o, [])
        elif k == 'op' and not expansion(u):
            owners.setdefault(o, []).append(u)
    for r in w.roots:
        if r['unsafe']:
            owners.setdefault(r['path'], [])
    ctx.count('unsafe constructs', n)
    for o, ops in sorted(owners.items()):
        for u in ops:
            local = u['op'].startswith('call ') and any(r['path'] == u['op'][5:] for r in w.roots)
            ctx.count('unsafe operations')
            ctx.ok(local or (u['op'].startswith('call ') and u['op'][5:] in KNOWN), 'operation:%s:%s' % (o, u['op']), '%s performs only unchecked unwrapping, not `%s`' % (o, u['op']), u['span'])
    done = {}
    for o in sorted(owners):
        settle(ctx, o, o, done, ())
    ctx.count('functions with unsafe code', len(owners))
    ctx.floor('functions', len(w.roots), 100)


def expansion(u):
    """what the formatting macros of the standard library expand to"""
    return u['macro'] and u['op'] in ("call core::fmt::Arguments::<'a>::new", "call core::fmt::Arguments::<'a>::from_str",
                                      "call core::fmt::Arguments::<'a>::from_str_nonconst", "call core::fmt::rt::UnsafeArg::new")


def callers(w, path):
    g = Graph(w)
    ids = {b for b, x in w.bodies.items() if x.get('path') == path}
    out = set()
    for r in w.roots:
        if r['inst'] not in w.bodies or r['path'] == path:
            continue
        todo, seen = [r['inst']], {r['inst']}
        while todo:
            b = todo.pop()
            nxt = [x for x in g.closures(w.bodies[b])]
            for s in g.sites(b):
                res = (s.callee or {}).get('res') or {}
                i = res.get('inst')
                if i in ids or res.get('path') == path:
                    out.add(r['path'])
                # the standard library may call back
                elif i is not None and i in w.bodies and not w.bodies[i].get('local', True):
                    nxt.append(i)
            for i in nxt:
                if i not in seen and i in w.bodies:
                    seen.add(i)
                    todo.append(i)
    return sorted(out)


def safe(s):
    for e, path in flat(s.events):
        if e.kind in ('opaque-call', 'unknown'):
            return '%s is not understood' % e.fn, e
        if e.kind == 'unchecked' and e.guard is not FALSE and Lin().sat(e.guard) is not None:
            return 'unchecked unwrapping of the other variant', e
    return None, None


def settle(ctx, owner, path, done, chain):
    """owner is safe in every call of path; otherwise the obligation moves to the callers of path"""
    w = ctx.world()
    if path in done:
        return done[path]
    done[path] = False
    bad = ev = None
    try:
        bad, ev = safe(ctx.summary(path))
    except Missing:
        raise
    except Exception as e:
        bad = 'the analysis does not finish (%s: %s)' % (type(e).__name__, str(e)[:200])
    if bad is None:
        ctx.ok(True, 'unchecked:%s:%s' % (owner, path), 'in %s every unchecked unwrapping in %s is of the variant stored' % (path, owner))
        done[path] = True
        return True
    r = ctx.root(path)
    up = callers(w, path)
    if r['exported'] and path in c13.device_roots(w):
        ok = True
        for sc in c13.scenarios(ctx, path):
            b, ev = safe(ctx.summary(path, sc))
            ok = ctx.ok(b is None, 'unchecked:%s:%s' % (owner, path), '%s (in %s, through %s)' % (b, owner, path), ev.where() if ev else path) and ok
        done[path] = ok
        return ok
    if r['exported'] or not up or len(chain) > 8:
        return ctx.ok(False, 'unchecked:%s:%s' % (owner, path), '%s (in %s, through %s)' % (bad, owner, path), ev.where() if ev else path)
    done[path] = all([settle(ctx, owner, c, done, chain + (path,)) for c in up])
    return done[path]
