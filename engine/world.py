"""Loads one dump of the type-checked program (MIR after drop elaboration) produced by driver/."""
import json
from .terms import *
from . import terms as tm

FNS = []          # callee table
_fnidx = {}


def fnterm(f):
    key = json.dumps([f['decl'], f.get('args'), f.get('res'), f.get('ctor')], sort_keys=True)
    i = _fnidx.get(key)
    if i is None:
        i = len(FNS)
        FNS.append(f)
        _fnidx[key] = i
    return mk('fn', (i,))


class World:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.types = []
        for t in d['types']:
            key = t['s']
            if t['k'] == 'closure':
                key = '%s#%s#%s' % (t['s'], t['path'], t.get('inst'))
            elif t['k'] == 'fndef':
                key = '%s#%s' % (t['s'], t['path'])
            elif t['k'] == 'adt' and t['adt'] != 'union' and _has_closure(t, d['types']):
                key = '%s#%d' % (t['s'], t['id'])
            x = TYPES.get(key)
            if x is None or x.k != t['k'] or x.world is None and t['k'] not in ('int',):
                x = Ty()
                x.s, x.k, x.d, x.world, x.id = t['s'], t['k'], t, self, t['id']
                TYPES[key] = x
            self.types.append(x)
        self.bykey = {x.s: x for x in self.types}
        self.bodies = {b['id']: b for b in d['bodies']}
        self.roots = d['roots']
        self.byname = {}
        for r in d['roots']:
            self.byname.setdefault(r['path'], []).append(r)
        self.unit = self.bykey.get('()')
        self.consts = {c['path']: c for c in d['consts']}
        self._c = {}
        self._cfg = {}
        self.local = d['crate']

    def ty(self, i):
        return self.types[i]

    def tyname(self, s):
        return self.bykey[s]

    def find_ty(self, prefix):
        r = [x for x in self.types if x.k == 'adt' and x.path == prefix]
        return r[0] if r else None

    def root(self, path):
        """the unique root function of that path, or None"""
        rs = self.byname.get(path, [])
        return rs[0] if len(rs) == 1 else None

    def body(self, root):
        return self.bodies[root['inst']]

    # ---- constants
    def const(self, v):
        c = v['c']
        if c == 'int':
            return I(int(v['v']))
        if c == 'bool':
            return TRUE if v['v'] in ('1', 1, True, 'true') else FALSE
        if c == 'char':
            x = v['v']
            return I(int(x)) if not isinstance(x, str) or x.isdigit() else I(ord(x))
        if c == 'str':
            return mk('valref', (strlit(v['v']),), self.types[v['t']])
        if c == 'bytes':
            b = v['v']
            if isinstance(b, str):
                b = bytes.fromhex(b)
            return mk('valref', (mk('seq', (('lit',) + tuple(I(x) for x in b),)) if len(b) else mk('seq', ()),), self.types[v['t']])
        if c == 'fn':
            return fnterm(v['f'])
        if c == 'ref':
            inner = self.const(v['v'])
            if inner.op == 'valref' if isinstance(inner, T) else False:
                ity = inner.ty
                if ity is not None and ity.k == 'ref' and self.types[v['t']].k in ('ref', 'ptr') and self.types[v['t']].to is ity:
                    pass
            return mk('valref', (inner,), self.types[v['t']])
        if c == 'agg':
            key = id(v)
            r = self._c.get(key)
            if r is None:
                ty = self.types[v['t']]
                fs = [self.const(x) for x in v['fields']]
                if ty.k == 'array':
                    r = mk('seq', (('lit',) + tuple(fs),) if fs else (), ty)
                else:
                    r = agg(ty, v['variant'] or 0, fs)
                self._c[key] = r
            return r
        if c == 'float':
            return mk('float', (str(v['v']),), self.types[v['t']] if 't' in v else None)
        if c == 'fnptr':
            return mk('fnptr', (v.get('path'), v.get('inst')))
        return app('unkconst', json.dumps(v, sort_keys=True)[:200], ty=self.types[v['t']] if 't' in v else None)

    # ---- control flow
    def cfg(self, body):
        c = self._cfg.get(body['id'])
        if c is None:
            c = Cfg(body)
            self._cfg[body['id']] = c
        return c


def _has_closure(t, types):
    for a in t.get('args', []):
        if isinstance(a, int):
            u = types[a]
            if u['k'] in ('closure', 'fndef'):
                return True
            if u['k'] == 'adt' and _has_closure(u, types):
                return True
            if u['k'] == 'tuple' and any(types[e]['k'] == 'closure' for e in u.get('elems', [])):
                return True
    return False


def strlit(s):
    return mk('strlit', (s,))


def succs(t):
    k = t['t']
    if k == 'goto':
        return [t['to']]
    if k == 'switch':
        return [x[1] for x in t['v']] + ([t['o']] if t['o'] is not None else [])
    if k in ('drop', 'call', 'assert'):
        return [t['to']] if t.get('to') is not None else []
    return []


class Cfg:
    """reverse post order, natural loops (as a nesting forest) and liveness"""

    def __init__(self, body):
        self.body = body
        bl = body['blocks']
        self.succ = {}
        for i, b in enumerate(bl):
            if b is not None:
                self.succ[i] = [s for s in succs(b['t']) if bl[s] is not None]
        # reachable + rpo
        seen, order = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(n)
                stack.pop()
        order.reverse()
        self.rpo = order
        self.idx = {n: i for i, n in enumerate(order)}
        self.pred = {n: [] for n in order}
        for n in order:
            for s in self.succ[n]:
                self.pred[s].append(n)
        self._doms()
        self._loops()
        self._live()

    def _doms(self):
        idom = {self.rpo[0]: self.rpo[0]}
        ch = True
        while ch:
            ch = False
            for n in self.rpo[1:]:
                new = None
                for p in self.pred[n]:
                    if p in idom:
                        new = p if new is None else self._isect(idom, new, p)
                if idom.get(n) != new:
                    idom[n] = new
                    ch = True
        self.idom = idom

    def _isect(self, idom, a, b):
        while a != b:
            while self.idx[a] > self.idx[b]:
                a = idom[a]
            while self.idx[b] > self.idx[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == self.rpo[0]:
                return False
            b = self.idom[b]

    def _loops(self):
        self.loops = {}      # header -> set of blocks
        self.irreducible = False
        for n in self.rpo:
            for s in self.succ[n]:
                if self.idx[s] <= self.idx[n]:
                    if not self.dominates(s, n):
                        self.irreducible = True
                        continue
                    body = self.loops.setdefault(s, {s})
                    st = [n]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(self.pred[x])

    def _live(self):
        body = self.body
        nl = len(body['locals'])
        self.addr = set()
        use, deff = {}, {}

        def place_use(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == 'i' and e[1] not in d:
                    u.add(e[1])

        def op_use(o, u, d):
            if o['o'] in ('copy', 'move'):
                place_use(o['p'], u, d)
        for n in self.rpo:
            b = body['blocks'][n]
            u, d = set(), set()
            for s in b['s']:
                if s[0] == '=':
                    r = s[2]
                    for k in ('a', 'b'):
                        if k in r and isinstance(r[k], dict) and 'o' in r[k]:
                            op_use(r[k], u, d)
                    if r['r'] == 'agg':
                        for o in r['f']:
                            op_use(o, u, d)
                    if 'p' in r:
                        place_use(r['p'], u, d)
                        if r['r'] in ('ref', 'rawptr') and not any(e == '*' for e in r['p'][1]):
                            if r.get('mut') or r['r'] == 'rawptr':
                                self.addr.add(r['p'][0])
                    p = s[1]
                    if p[1]:
                        place_use(p, u, d)
                    else:
                        d.add(p[0])
                elif s[0] == 'setdisc':
                    place_use(s[1], u, d)
                elif s[0] == 'dead':
                    d.add(s[1])
            t = b['t']
            k = t['t']
            if k == 'switch':
                op_use(t['d'], u, d)
            elif k == 'call':
                op_use(t['f'], u, d)
                for o in t['a']:
                    op_use(o, u, d)
                if t['d'][1]:
                    place_use(t['d'], u, d)
            elif k == 'assert':
                op_use(t['c'], u, d)
            elif k == 'ret':
                if 0 not in d:
                    u.add(0)
            use[n], deff[n] = u, d
            if k == 'call' and not t['d'][1]:
                deff[n] = d | {t['d'][0]}
        live = {n: set() for n in self.rpo}
        ch = True
        while ch:
            ch = False
            for n in reversed(self.rpo):
                out = set()
                for s in self.succ[n]:
                    out |= live[s]
                new = use[n] | (out - deff[n])
                if new != live[n]:
                    live[n] = new
                    ch = True
        self.live = live

    def span(self, n):
        b = self.body['blocks'][n]
        return b['t'].get('sp')
