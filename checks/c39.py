"""C39: every function the crate mentions (type-checked program) is classified by a list of modules without effects outside
their arguments; every file that is opened is the one that was asked for, with the access the operation needs."""
from .c13 import *

# modules of the standard library whose functions act on their arguments only
STD = ('std::path::', 'std::f64::', 'std::f32::', 'std::error::', 'std::ffi::', 'std::collections::', 'std::hash::', 'std::ascii::', 'std::fs::File::open', 'std::fs::File::options',
       'std::fs::File::sync_all', 'std::fs::File::sync_data', 'std::fs::File::metadata', 'std::fs::File::set_len', 'std::fs::OpenOptions::', 'std::fs::Metadata::', 'std::fs::File::try_clone')
STDIO = ('stdin', 'stdout', 'stderr', '_print', '_eprint', 'set_output_capture', 'pipe', 'stdio')
NOT = {'core::sync::': 'shared state', 'core::arch::': 'machine instructions', 'alloc::sync::': 'shared state', 'core::ptr::write_volatile': 'raw memory',
       'core::ptr::read_volatile': 'raw memory', 'uuid::v1': 'the clock', 'uuid::v7': 'the clock',
       'uuid::timestamp': 'the clock', 'uuid::v6': 'the clock', 'std::collections::hash': 'random iteration order', 'std::hash::random': 'random state'}
CRATES = ('core', 'alloc', 'gpt', 'crc', 'simple_bytes', 'uuid', 'bitflags')


def check(ctx):
    ctx.rule('every function mentioned in the crate belongs to a module without effects outside its arguments; the path of every opened file is the argument; create, truncate and append are never set, write only by functions that write')
    w = ctx.world()
    names = {}
    for i in range(len(w.types)):
        t = w.ty(i)
        if t.k == 'fndef':
            names[t.path] = None
    g = Graph(w)
    for b in w.bodies:
        for s in g.sites(b):
            if s.callee is not None:
                if names.get(s.callee['decl']) is None:
                    names[s.callee['decl']] = s.where
    for n, at in sorted(names.items()):
        r = outside(n)
        ctx.ok(r is None, 'name:' + n, 'the crate uses nothing but its arguments: %s%s' % (n, '' if r is None else ' reaches ' + r), at)
    ctx.floor('functions mentioned', len(names), 200)
    for u in w.d['unsafe']:
        if u['kind'] == 'static' and not u['macro']:
            ctx.ok(not u['mut'] and u.get('freeze'), 'static:' + u['owner'], '%s holds no state that changes' % u['owner'], u['span'])
    opening = sorted({r['path'] for r in w.roots if r['exported'] and not r['derived'] and r['inst'] in w.bodies
                      and any(effect(w, x) == 'open' for x, _ in g.reach(r['inst']))})
    ctx.each([(p, i) for p in opening for i in range(len(scenarios(ctx, p)))], part)
    ctx.floor('opening operations', len(opening), 6)


def part(ctx, item):
    p, i = item
    s = ctx.summary(p, scenarios(ctx, p)[i])
    evs = list(flat(s.events))
    opens = [(e, path) for e, path in evs if e.kind == 'open' and e.guard is not FALSE]
    writes = [e for e, _ in evs if e.kind in ('write', 'flush', 'sync', 'setlen') and e.guard is not FALSE]
    ctx.ok(opens, 'open:' + p, '%s opens a file' % p)
    for e, path in evs:
        ctx.ok(e.kind not in ('opaque-call', 'unknown'), '%s:known:%s' % (p, e.fn), 'every call is understood', e.where())
    paths = [a.a[0] if a.op in ('ref', 'valref') and isinstance(a.a[0], T) else a for a in s.args if isinstance(a, T)]
    for n, (e, path) in enumerate(opens):
        k = '%s:%d' % (p, n)
        ctx.count('files opened')
        named = [a for a in paths if a is e.path or a is strip(e.path)]
        ctx.ok(not path and len(named) == 1, k + ':path', '%s opens exactly the file it is given (%s)' % (p, show(e.path)), e.where())
        for f, (o, _) in enumerate(opens[:n]):
            prove(ctx, ~(e.guard & o.guard), '%s:once:%d' % (k, f), '%s opens the file once' % p, e.where())
        fl = e.flags
        ctx.ok(fl[0] is TRUE, k + ':read', '%s opens for reading' % p, e.where())
        ctx.ok(all(x is FALSE for x in fl[2:]), k + ':flags', '%s never creates, truncates or appends: %s' % (p, [show(x) for x in fl[2:]]), e.where())
        cfg = next((a for a in s.args if isinstance(a, T) and a.ty is not None and a.ty.k == 'adt' and a.ty.path == 'gpt::GptConfig'), None)
        if cfg is not None:
            want = fld(cfg, 'writable')
            prove(ctx, imp(e.guard, veq(fl[1], want)), k + ':write', '%s asks for write access exactly if the configuration is writable' % p, e.where())
        else:
            ctx.ok(fl[1] is (TRUE if writes else FALSE), k + ':write', '%s asks for write access exactly if it writes' % p, e.where())


def strip(v):
    """the path behind conversions that keep it"""
    while v.op in ('ref', 'valref') and isinstance(v.a[0], T):
        v = v.a[0]
    return v


def outside(n):
    """what a function may reach besides its arguments, None if nothing"""
    m = n.split(' as ', 1)[-1] if n.startswith('<') else n      # a method of a trait acts on what implements it
    for k, why in NOT.items():
        if m.startswith(k):
            return why or k
    c = m.split('::')[0].split('<')[-1]
    if c in CRATES:
        return None
    if c == 'std':
        if m.startswith('std::io::'):
            return 'the standard streams' if any(x in m.split('::') for x in STDIO) else None
        if m.startswith(STD):
            return None
        return 'the environment of the process (%s)' % '::'.join(m.split('::')[:2])
    return 'another crate (%s)' % c
