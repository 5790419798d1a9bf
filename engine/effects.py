"""Call graph over the type-checked program and the device effects of each call site."""
from .terms import *


def is_dev(t, depth=0):
    """a device or a mutable path to one: type parameters, files, trait objects"""
    if t is None or depth > 6:
        return False
    if t.k == 'ref':
        return is_dev(t.to, depth + 1)
    if t.k == 'param' or t.k == 'dyn':
        return True
    if t.k == 'adt':
        if t.path in ('std::fs::File',):
            return True
        if t.path in ('alloc::boxed::Box', 'core::option::Option', 'core::cell::RefCell', 'alloc::rc::Rc', 'std::io::buffered::bufwriter::BufWriter'):
            return any(is_dev(x, depth + 1) for x in t.args if x is not None)
        if t.path.startswith('std::io::') and t.args:
            return any(is_dev(x, depth + 1) for x in t.args if x is not None)
    return False


class Site:
    def __init__(self, body, term, callee, fptr, argtys):
        self.body, self.term, self.callee, self.fptr, self.argtys = body, term, callee, fptr, argtys

    @property
    def where(self):
        return '%s in %s' % (self.term.get('sp'), self.body['path'])


class Graph:
    def __init__(self, w):
        self.w = w
        self._b = {}

    def opty(self, body, o):
        if o['o'] in ('move', 'copy'):
            p = o['p']
            return self.w.ty(p[2]) if len(p) > 2 else self.w.ty(body['locals'][p[0]][0])
        v = o.get('v') or {}
        return self.w.ty(v['t']) if 't' in v else None

    def sites(self, bid):
        r = self._b.get(bid)
        if r is not None:
            return r
        body = self.w.bodies[bid]
        out = []
        for blk in [x for x in body['blocks'] if x]:
            t = blk['t']
            if t.get('t') != 'call':
                continue
            f = t['f']
            callee = None
            if f['o'] == 'const' and (f.get('v') or {}).get('c') == 'fn':
                callee = f['v']['f']
            out.append(Site(body, t, callee, f if callee is None else None, [self.opty(body, a) for a in t['a']]))
        self._b[bid] = out
        return out

    def closures(self, body):
        """closures built in a body: they may be called by whoever receives them"""
        for blk in [x for x in body['blocks'] if x]:
            for s in blk['s']:
                if s[0] == '=' and isinstance(s[2], dict):
                    for t in self._tys(s[2]):
                        if t.k == 'closure' and t.d.get('inst') is not None:
                            yield t.d['inst']

    def _tys(self, r):
        if isinstance(r, dict):
            for k in ('t', 'ty'):
                if isinstance(r.get(k), int) and r[k] < len(self.w.types):
                    yield self.w.ty(r[k])

    def reach(self, bid):
        """all call sites reachable from a body (through calls, and closures it creates), with the path"""
        seen = {bid: ()}
        todo = [bid]
        while todo:
            b = todo.pop()
            body = self.w.bodies[b]
            nxt = []
            for s in self.sites(b):
                yield s, seen[b]
                c = s.callee
                if c is not None:
                    i = (c.get('res') or {}).get('inst')
                    if i is None:
                        i = c.get('inst')
                    if i is not None and i in self.w.bodies:
                        nxt.append((i, s))
            for l in body['locals']:
                t = self.w.ty(l[0])
                if t.k == 'closure' and t.d.get('inst') is not None and t.d['inst'] in self.w.bodies:
                    nxt.append((t.d['inst'], None))
            for i, s in nxt:
                if i not in seen:
                    seen[i] = seen[b] + (body['path'],)
                    todo.append(i)


READS = ('alloc::io::read::Read::', 'std::io::Read::', 'core::io::seek::Seek::', 'std::io::Seek::', 'core::io::read::Read::', 'std::io::BufRead::')
WRITE = ('core::io::write::Write::', 'std::io::Write::', 'alloc::io::write::Write::')
PURE = ('core::mem::', 'core::clone::Clone::', 'core::convert::', 'core::fmt::', 'core::ops::drop::', 'core::ops::deref::', 'core::borrow::', 'core::option::', 'core::result::',
        'core::any::', 'core::ptr::drop_in_place', 'core::hash::', 'core::cmp::', 'simple_bytes::', 'alloc::boxed::Box', 'core::iter::', 'core::default::', 'alloc::string::ToString')
FSOK = ('std::fs::File::open', 'std::fs::OpenOptions::', 'std::fs::File::options', 'std::fs::File::metadata', 'std::fs::File::try_clone', 'std::fs::Metadata::', 'std::fs::metadata')


def effect(w, s):
    """'write', 'read', 'open', None (no device effect) or 'unknown' of an external call site"""
    c = s.callee
    mutdev = any(t is not None and is_dev(t) and (t.k != 'ref' or t.d.get('mut')) for t in s.argtys)
    if c is None:
        return 'unknown' if mutdev else None
    res = c.get('res') or {}
    d = c['decl']
    p = res.get('path') or d
    if d.startswith('std::fs::') or p.startswith('std::fs::') and not (d.startswith(READS) or d.startswith(WRITE)):
        if d.startswith(FSOK):
            return 'open'
        if any(d.startswith(x) for x in PURE):
            return None
        return 'write'
    if d.startswith(('std::os::', 'std::process::', 'libc::', 'rustix::', 'nix::')):
        return 'write'
    if not mutdev:
        return None
    if res.get('inst') in w.bodies:
        return None                     # analysed through its body
    if d.startswith(READS):
        return 'read'
    if d.startswith(WRITE):
        return 'write'
    if d.startswith(PURE):
        return None
    return 'unknown'


def writers(w):
    """{root path: [(site, call path, effect)]} of the exported functions with a write-like device effect, and call sites seen"""
    g = Graph(w)
    out, n = {}, 0
    for r in w.roots:
        if not r['exported'] or r['derived'] or r['inst'] not in w.bodies:
            continue
        for s, p in g.reach(r['inst']):
            n += 1
            e = effect(w, s)
            if e in ('write', 'unknown'):
                out.setdefault(r['path'], []).append((s, p, e))
    return out, n
