"""Forward dataflow analysis over MIR: gated value numbering with context-sensitive summaries.

Every function is analysed once per calling context over its control-flow graph in reverse post
order; at a join the incoming values are merged under the guard that selects them, so no path is
ever enumerated.  Loops are summarised (closed forms for inductive locations, first-exit and
exists terms for exits).  Device accesses, panics and calls the analysis cannot see through are
recorded as guarded events.
"""
from .world import *
from .seqs import *
from . import terms as tm


class St:
    __slots__ = ('mem', 'pc')

    def __init__(self, mem, pc):
        self.mem, self.pc = mem, pc

    def copy(self):
        return St(dict(self.mem), self.pc)


class Ev:
    def __init__(self, kind, guard, site, stack, **d):
        self.kind, self.guard, self.site, self.stack, self.d = kind, guard, site, stack, d

    def __getattr__(self, n):
        try:
            return self.__dict__['d'][n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return '%s@%s[%s] %s' % (self.kind, self.site, show(self.guard), {k: (show(v) if isinstance(v, (T, B)) else v) for k, v in self.d.items() if k != 'events'})

    def where(self):
        return '%s (%s)' % (self.site, ' < '.join(reversed([s for s in self.stack])))


class Unsupported(Exception):
    pass


class Abort(Exception):
    pass


class LoopFrame:
    def __init__(self, lv, k):
        self.lv, self.k = lv, k
        self.dec = None        # first decision of the current iteration
        self.skips = []


def LV(level):
    return mk('lv', ('k%d' % level,))


RES = 'core::result::Result'
OPT = 'core::option::Option'


class Interp:
    MAXDEPTH = 70
    UNROLL = 600

    def __init__(self, world, models):
        self.w = world
        self.models = models
        self.events = []
        self.ops = 0
        self.frames = 0
        self.frame_body = {}
        self.heap = 0
        self.loopn = 0
        self.stack = []
        self.sites = []
        self.loops = []
        self.unknown = {}
        self.loopinfo = {}
        self.analysed = set()
        self.callsites = 0
        self.noted = set()

    # -------------------------------------------------------------- events
    def site(self):
        return self.sites[-1] if self.sites else '?'

    def ev(self, kind, guard, **d):
        if guard is FALSE:
            return None
        e = Ev(kind, guard, self.site(), tuple('%s@%s' % (f, s) for f, s in zip(self.stack, self.sites)), **d)
        e.fn = self.stack[-1] if self.stack else '?'
        self.events.append(e)
        return e

    impossible = None    # tells whether a condition is contradictory (optional)

    def panic(self, st, cond, what, **d):
        """path dies when cond holds"""
        g = st.pc & cond
        if g is not FALSE and not (self.impossible and self.impossible(g)):
            self.ev('panic', g, what=what, **d)
            st.pc = st.pc & ~cond

    def opid(self):
        self.ops += 1
        return (self.ops,) + tuple(f.k for f in self.loops if f.lv is not None)

    def decide(self, st, cond):
        if self.loops and self.loops[-1].dec is None:
            c = restrict(cond, st.pc)
            self.loops[-1].dec = c is TRUE or c is FALSE or (cond is TRUE or cond is FALSE) or implies(st.pc, cond) or implies(st.pc, ~cond)

    # -------------------------------------------------------------- memory
    def get_path(self, v, path):
        for p in path:
            v = self.get1(v, p)
        return v

    def get1(self, v, p):
        k = p[0]
        if k == 'f':
            return proj(v, p[1], p[2], p[3])
        if k == 'idx':
            return elem(v, p[1], p[2])
        if k == 'range':
            return sl(v, p[1], p[2])
        if k == 'key':
            return self.map_get(v, p[1], p[2])
        if k == 'arg':
            if v.op == 'ite':
                return mk_ite(v.a[0], self.get1(v.a[1], p), self.get1(v.a[2], p))
            if v.op == 'bottom':
                return BOT
            if v.op in ('iter', 'cur', 'devst'):
                return v.a[p[1]]
            if p[0] == 'arg' and v.op != p[2]:
                return mk('app', ('part', v, p[1]))
        raise Unsupported('path ' + str(p))

    def set_path(self, v, path, new):
        if not path:
            return new
        p = path[0]
        inner = new if len(path) == 1 else self.set_path(self.get1(v, p), path[1:], new)
        return self.set1(v, p, inner)

    def set1(self, v, p, x):
        k = p[0]
        if isinstance(v, T) and v.op == 'ite':
            return mk_ite(v.a[0], self.set1(v.a[1], p, x), self.set1(v.a[2], p, x))
        if k == 'f':
            var = p[1] or 0
            if v.op == 'agg':
                if v.a[0] != var:
                    # writing the fields of a fresh variant
                    n = v.ty.nfields(var)
                    fs = [BOT] * n
                    fs[p[2]] = x
                    return mk('agg', (var,) + tuple(fs), v.ty)
                fs = list(v.a[1:])
                fs[p[2]] = x
                return agg(v.ty, var, fs)
            if v.op == 'bottom':
                ty = p[4] if len(p) > 4 else None
                if ty is None:
                    raise Unsupported('field write to uninitialised')
                n = ty.nfields(var)
                fs = [BOT] * n
                fs[p[2]] = x
                return mk('agg', (var,) + tuple(fs), ty)
            ty = v.ty
            fs = [proj(v, var, i, ty.field_ty(var, i)) for i in range(ty.nfields(var))]
            fs[p[2]] = x
            return agg(ty, var, fs)
        if k == 'idx':
            return setelem(v, p[1], x)
        if k == 'range':
            return splice(v, p[1], p[2], x)
        if k == 'key':
            return mk_mapins(v, p[1], x)
        if k == 'arg':
            if v.op in ('iter', 'cur', 'devst'):
                a = list(v.a)
                a[p[1]] = x
                return mk(v.op, tuple(a), v.ty)
        raise Unsupported('set path ' + str(p))

    def map_get(self, m, k, vty):
        return map_value(m, k, vty)

    def load(self, st, r, want=None):
        """value behind one level of reference"""
        if isinstance(r, B):
            raise Unsupported('load of bool')
        op = r.op
        if op == 'valref':
            return r.a[0]
        if op == 'ref':
            v = st.mem.get(r.a[0], BOT)
            return self.get_path(v, r.a[1])
        if op == 'ite':
            return mk_ite(r.a[0], self.load(st, r.a[1], want), self.load(st, r.a[2], want))
        if op == 'bottom':
            return BOT
        to = None
        if r.ty is not None and r.ty.k in ('ref', 'ptr'):
            to = r.ty.to
        elif want is not None:
            to = want
        if op in ('strlit', 'seq'):
            return r
        return wrap(mk('deref', (r,), to))

    def store(self, st, r, v, guard=TRUE):
        op = r.op
        if op == 'ref':
            old = st.mem.get(r.a[0], BOT)
            if guard is not TRUE:
                v = mk_ite(guard, v, self.get_path(old, r.a[1]))
            st.mem[r.a[0]] = self.set_path(old, r.a[1], v)
            return
        if op == 'ite':
            self.store(st, r.a[1], v, guard & r.a[0])
            self.store(st, r.a[2], v, guard & ~r.a[0])
            return
        if op == 'bottom':
            return
        self.ev('opaque-write', st.pc & guard, target=r)

    def deref_all(self, st, v):
        """follow references down to a non-reference value"""
        n = 0
        while isinstance(v, T) and n < 10:
            if v.op in ('ref', 'valref'):
                v = self.load(st, v)
            elif v.op == 'ite' and _refish(v):
                v = self.load(st, v)
            elif v.ty is not None and v.ty.k in ('ref',):
                v = self.load(st, v)
            else:
                break
            n += 1
        return v

    def innermost_ref(self, st, r):
        """a reference to a place holding a non-reference value"""
        n = 0
        while n < 10:
            if r.op == 'ref':
                v = self.load(st, r)
                if isinstance(v, T) and v.op == 'ref':
                    r = v
                    n += 1
                    continue
            return r
        return r

    def alloc(self, st, v, tag='h'):
        self.heap += 1
        a = (tag, self.heap)
        st.mem[a] = v
        return a

    def ref_to(self, st, v, ty=None):
        return mk('ref', (self.alloc(st, v), ()), ty)

    # -------------------------------------------------------------- joins
    def join(self, states):
        states = [s for s in states if s.pc is not FALSE]
        if not states:
            return None
        # conditions are numbered in program order: join the latest alternatives first
        r = states[-1]
        for s in reversed(states[:-1]):
            r = self.join2(s, r)
        return r

    def join2(self, a, b):
        u = a.pc | b.pc
        g = separate(a.pc, b.pc)
        mem = {}
        for k, v in a.mem.items():
            if k in b.mem:
                w = b.mem[k]
                if v is w:
                    mem[k] = v
                else:
                    v2, w2 = assume(v, g), assume(w, ~g)
                    mem[k] = mk_ite(g, v2, w2)
            else:
                mem[k] = v
        for k, w in b.mem.items():
            if k not in mem:
                mem[k] = w
        return St(mem, u)

    # -------------------------------------------------------------- functions
    def call_body(self, body, args, st, site=None):
        """analyse a body in this context; st is updated in place; returns the value or None"""
        path = body['path']
        if len(self.stack) > self.MAXDEPTH or self.stack.count(path) > 3:
            raise Unsupported('recursion in ' + path)
        if body['krate'] == self.w.local:
            self.analysed.add(path)
        self.frames += 1
        fid = self.frames
        self.frame_body[fid] = body
        self.stack.append(path)
        self.sites.append(site or body.get('span') or '?')
        try:
            mem0 = st.mem
            mem = dict(mem0)
            for i, a in enumerate(args):
                mem[(fid, 1 + i)] = a
            cur = St(mem, st.pc)
            cfg = self.w.cfg(body)
            if cfg.irreducible:
                raise Unsupported('irreducible control flow in ' + path)
            rets = []
            self.region(body, cfg, fid, set(cfg.rpo), 0, [cur], None, rets)
            r = self.join(rets)
            if r is None:
                st.pc = FALSE
                return None
            val = r.mem.get((fid, 0), None)
            for k in [k for k in r.mem if k[0] == fid]:
                del r.mem[k]
            st.mem = r.mem
            st.pc = r.pc
            if val is None:
                val = agg(self.w.unit, 0, []) if self.w.unit is not None else BOT
            return val
        finally:
            self.stack.pop()
            self.sites.pop()

    def region(self, body, cfg, fid, blocks, entry, entry_states, loop_header, rets):
        """process the blocks of a region in reverse post order.
        Returns (back states, {outside target: [states]})"""
        pending = {entry: list(entry_states)}
        back = []
        exits = {}
        order = [n for n in cfg.rpo if n in blocks]
        # blocks of inner loops are handled by their header
        inner = {}
        for h, bs in cfg.loops.items():
            if h in blocks and h != loop_header and bs <= blocks:
                inner[h] = bs
        skip = set()
        for h, bs in inner.items():
            # outermost only
            if not any(h in b2 and h != h2 for h2, b2 in inner.items()):
                skip |= bs - {h}

        def push(target, s):
            if s.pc is FALSE:
                return
            if target == loop_header and loop_header is not None:
                back.append(s)
            elif target in blocks:
                pending.setdefault(target, []).append(s)
            else:
                exits.setdefault(target, []).append(s)
        for n in order:
            if n in skip:
                continue
            ss = pending.pop(n, None)
            if not ss:
                continue
            if len(ss) > 1:
                for s in ss:
                    self.prune(cfg, fid, n, s)
            st = self.join(ss)
            if st is None:
                continue
            if n in inner and not any(n in b2 and n != h2 for h2, b2 in inner.items()):
                self.prune(cfg, fid, n, st)
                bs = inner[n]

                def lbody(s, n=n, bs=bs):
                    b, ex = self.region(body, cfg, fid, bs, n, [s], n, rets_l)
                    out = [(t, x) for t, xs in ex.items() for x in xs]
                    out += [(('ret',), x) for x in rets_l]
                    del rets_l[:]
                    return b, out
                rets_l = []
                for key, s in self.run_loop(st, lbody, '%s@%s' % (body['path'], self._bspan(body, n))):
                    if key == ('ret',):
                        rets.append(s)
                    else:
                        push(key, s)
                continue
            self.block(body, fid, n, st, push, rets)
        return back, exits

    def _bspan(self, body, n):
        t = body['blocks'][n]['t']
        return t.get('sp') or body.get('span')

    def prune(self, cfg, fid, n, st):
        live = cfg.live[n]
        for k in [k for k in st.mem if k[0] == fid and k[1] not in live and k[1] not in cfg.addr and k[1] != 0]:
            del st.mem[k]

    def block(self, body, fid, n, st, push, rets):
        b = body['blocks'][n]
        for s in b['s']:
            k = s[0]
            if k == '=':
                if len(s) > 3:
                    self.sites[-1] = s[3] or self.sites[-1]
                v = self.rvalue(st, fid, body, s[2], s[1])
                if st.pc is FALSE:
                    return
                self.write_place(st, fid, body, s[1], v)
            elif k == 'dead':
                st.mem.pop((fid, s[1]), None)
            elif k == 'setdisc':
                alts = self.place(st, fid, body, s[1])
                ty = self.w.ty(s[1][2])
                for g, c, _ in alts:
                    old = self.read_cur(st, c)
                    v = s[2]
                    if old.op == 'agg' and old.a[0] == v:
                        continue
                    new = agg(ty, v, [BOT] * ty.nfields(v))
                    self.write_cur(st, c, new, g)
            elif k == 'intr':
                pass
        t = b['t']
        k = t['t']
        if t.get('sp'):
            self.sites[-1] = t['sp']
        if k == 'goto':
            push(t['to'], st)
        elif k == 'ret':
            rets.append(st)
        elif k == 'unreachable':
            return
        elif k == 'drop':
            if t.get('to') is not None:
                push(t['to'], st)
        elif k == 'switch':
            d = self.operand(st, fid, body, t['d'])
            rest = TRUE
            if isinstance(d, B):
                conds = []
                for v, tgt in t['v']:
                    c = d if int(v) == 1 else ~d
                    conds.append((c, tgt))
            else:
                dty = self.w.ty(t['ty']) if t.get('ty') is not None else None
                conds = []
                if d is BOT:
                    return
                for v, tgt in t['v']:
                    v = int(v)
                    if dty is not None and dty.k == 'int' and dty.d['signed'] and v >= 1 << (dty.d['bits'] - 1):
                        v -= 1 << dty.d['bits']
                    conds.append((ieq(d, I(v)), tgt))
            if conds:
                self.decide(st, conds[0][0])
            outs = []
            for c, tgt in conds:
                outs.append((rest & c, tgt))
                rest = rest & ~c
            if t['o'] is not None:
                outs.append((rest, t['o']))
            live = [(st.pc & g, tgt) for g, tgt in outs]
            live = [(g, tgt) for g, tgt in live if g is not FALSE and not self._unreach(body, tgt)]
            for i, (g, tgt) in enumerate(live):
                s2 = st if i == len(live) - 1 else st.copy()
                s2.pc = g
                push(tgt, s2)
        elif k == 'assert':
            c = self.operand(st, fid, body, t['c'])
            ok = c if t['e'] else ~c
            self.panic(st, ~ok, t['mk'])
            if st.pc is not FALSE:
                push(t['to'], st)
        elif k == 'call':
            v = self.call_term(st, fid, body, t)
            if st.pc is FALSE or t.get('to') is None:
                return
            self.write_place(st, fid, body, t['d'], v)
            push(t['to'], st)
        else:
            raise Unsupported('terminator ' + str(t)[:80])

    def _unreach(self, body, n):
        b = body['blocks'][n]
        return b is not None and b['t']['t'] == 'unreachable' and not b['s']

    # -------------------------------------------------------------- places
    def place(self, st, fid, body, p):
        """[(guard, cur, ty)]; cur = ('pl', alloc, path) | ('v', value)"""
        lty = self.w.ty(body['locals'][p[0]][0])
        alts = [(TRUE, ('pl', (fid, p[0]), ()), lty)]
        variant = None
        for e in p[1]:
            out = []
            if e == '*':
                for g, c, ty in alts:
                    v = self.read_cur(st, c)
                    to = ty.to if ty.k in ('ref', 'ptr') else (ty.args[0] if ty.k == 'adt' and ty.path == 'alloc::boxed::Box' else None)
                    out += self._deref(st, g, v, to)
                variant = None
            elif e[0] == 'v':
                variant = e[1]
                out = alts
            elif e[0] == 'f':
                fty = self.w.ty(e[2])
                for g, c, ty in alts:
                    if ty.k == 'adt' and (ty.d['adt'] == 'union' or ty.path in TRANSPARENT):
                        out.append((g, c, fty))
                        continue
                    out.append((g, self._ext(c, ('f', variant, e[1], fty, ty)), fty))
                variant = None
            elif e[0] == 'i':
                i = st.mem.get((fid, e[1]), BOT)
                for g, c, ty in alts:
                    ety = ty.elem if ty.k in ('array', 'slice') else None
                    out.append((g, self._ext(c, ('idx', i, ety)), ety))
            elif e[0] == 'ci':
                off, mn, fe = e[1], e[2], e[3]
                for g, c, ty in alts:
                    ety = ty.elem if ty.k in ('array', 'slice') else None
                    i = I(off)
                    if fe:
                        i = sub(slen(self.read_cur(st, c)), I(off))
                    out.append((g, self._ext(c, ('idx', i, ety)), ety))
            elif e[0] == 'sub':
                a, b2, fe = e[1], e[2], e[3]
                for g, c, ty in alts:
                    hi = sub(slen(self.read_cur(st, c)), I(b2)) if fe else I(b2)
                    out.append((g, self._ext(c, ('range', I(a), hi)), ty))
            elif e == 'cast':
                out = alts
            else:
                raise Unsupported('projection ' + str(e))
            alts = out
        if variant is not None:
            alts = [(g, c, ty) for g, c, ty in alts]
        return alts

    def _ext(self, c, e):
        if c[0] == 'v':
            return ('v', self.get1(c[1], e) if e[0] != 'f' else proj(c[1], e[1], e[2], e[3]))
        return ('pl', c[1], c[2] + (e,))

    def _deref(self, st, g, v, to):
        if isinstance(v, B):
            raise Unsupported('deref of bool')
        if v.op == 'ref':
            return [(g, ('pl', v.a[0], v.a[1]), to)]
        if v.op == 'ite':
            return self._deref(st, g & v.a[0], v.a[1], to) + self._deref(st, g & ~v.a[0], v.a[2], to)
        return [(g, ('v', self.load(st, v, to)), to)]

    def read_cur(self, st, c):
        if c[0] == 'v':
            return c[1]
        return self.get_path(st.mem.get(c[1], BOT), c[2])

    def write_cur(self, st, c, v, g):
        if c[0] == 'v':
            self.ev('opaque-write', st.pc & g, target=c[1])
            return
        old = st.mem.get(c[1], BOT)
        if g is not TRUE:
            v = mk_ite(g, v, self.get_path(old, c[2]))
        st.mem[c[1]] = self.set_path(old, c[2], v) if c[2] else v

    def read_place(self, st, fid, body, p):
        alts = self.place(st, fid, body, p)
        r = None
        for g, c, ty in reversed(alts):
            v = self.read_cur(st, c)
            r = v if r is None else mk_ite(g, v, r)
        return r

    def write_place(self, st, fid, body, p, v):
        if not p[1]:
            st.mem[(fid, p[0])] = v
            return
        for g, c, ty in self.place(st, fid, body, p):
            self.write_cur(st, c, v, g)

    # -------------------------------------------------------------- operands, rvalues
    def operand(self, st, fid, body, o):
        k = o['o']
        if k == 'const':
            v = o['v']
            key = id(v)
            r = self.w._c.get(('op', key))
            if r is None:
                r = self.w.const(v)
                self.w._c[('op', key)] = r
            return r
        if k == 'rt':
            return FALSE
        return assume_lazy(self.read_place(st, fid, body, o['p']), st.pc)

    def rvalue(self, st, fid, body, r, dest):
        k = r['r']
        if k == 'use':
            return self.operand(st, fid, body, r['a'])
        if k == 'ref' or k == 'rawptr':
            alts = self.place(st, fid, body, r['p'])
            dty = self.w.ty(dest[2])
            mut = r.get('mut')
            out = None
            for g, c, ty in reversed(alts):
                if mut and c[0] == 'pl':
                    v = mk('ref', (c[1], _strip(c[2])), None)
                elif mut:
                    v = mk('valref', (c[1],), dty) if not (isinstance(c[1], T) and c[1].op == 'deref') else c[1].a[0]
                else:
                    x = self.read_cur(st, c)
                    x = assume_lazy(x, st.pc)
                    v = mkvalref(x, dty)
                out = v if out is None else mk_ite(g, v, out)
            return out
        if k == 'bin':
            return self.binop(st, r['op'], self.operand(st, fid, body, r['a']), self.operand(st, fid, body, r['b']),
                              self.w.ty(dest[2]), self.opty(body, r['a']))
        if k == 'un':
            a = self.operand(st, fid, body, r['a'])
            op = r['op']
            ty = self.w.ty(dest[2])
            if op == 'Not':
                if isinstance(a, B):
                    return ~a
                return int_not(a, ty)
            if op == 'Neg':
                return wrap_int(scale(a, -1), ty)
            if op == 'PtrMetadata':
                return slen(self.deref_all(st, a))
            raise Unsupported('unop ' + op)
        if k == 'disc':
            v = self.read_place(st, fid, body, r['p'])
            v = assume(v, st.pc) if isinstance(v, T) else v
            return disc(v)
        if k == 'cast':
            return self.cast(st, r['k'], self.operand(st, fid, body, r['a']), self.w.ty(r['t']), self.opty(body, r['a']))
        if k == 'agg':
            fs = [self.operand(st, fid, body, x) for x in r['f']]
            ty = self.w.ty(r['t'])
            if r['k'] == 'array':
                return nf([('lit',) + tuple(fs)] if fs else [], None)
            if r['k'] == 'rawptr':
                return fs[0]
            if ty.k == 'adt' and ty.path in TRANSPARENT:
                return fs[0]
            if r.get('variant') is not None and ty.k == 'adt' and ty.d['adt'] == 'union':
                return fs[0]
            return agg(ty, r.get('variant') or 0, fs)
        if k == 'repeat':
            n = r['n']
            return rep(self.operand(st, fid, body, r['a']), I(int(n)))
        if k == 'len':
            return slen(self.read_place(st, fid, body, r['p']))
        raise Unsupported('rvalue ' + str(r)[:100])

    def opty(self, body, o):
        if o['o'] in ('copy', 'move'):
            return self.w.ty(o['p'][2])
        if o['o'] == 'const' and 't' in o['v']:
            return self.w.ty(o['v']['t'])
        return None

    def binop(self, st, op, a, b, dty, aty):
        if a is BOT or b is BOT:
            return BOT if not op.endswith('WithOverflow') else mk('agg', (0, BOT, FALSE), dty)
        if isinstance(a, B) or isinstance(b, B):
            if op == 'BitAnd':
                return a & b
            if op == 'BitOr':
                return a | b
            if op in ('BitXor', 'Ne'):
                return a ^ b
            if op == 'Eq':
                return ~(a ^ b)
            if op in ('Lt', 'Gt', 'Le', 'Ge'):
                return {'Lt': ~a & b, 'Gt': a & ~b, 'Le': ~a | b, 'Ge': a | ~b}[op]
            raise Unsupported('bool op ' + op)
        if a.op != 'poly' or b.op != 'poly':
            if op in ('Eq', 'Ne'):
                e = veq(a, b)
                return e if op == 'Eq' else ~e
            if dty.k == 'bool':
                return bvar(mk('app', ('cmp' + op, a, b), dty))
            return app('op' + op, a, b, ty=dty)
        if op == 'Eq':
            return ieq(a, b)
        if op == 'Ne':
            return ~ieq(a, b)
        if op == 'Lt':
            return lt(a, b)
        if op == 'Le':
            return le(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'Ge':
            return le(b, a)
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            it = dty.field_ty(None, 0)
            r = {'A': add, 'S': sub, 'M': mul}[op[0]](a, b)
            return mk('agg', (0, r, ~in_range(r, it)), dty)
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            r = {'A': add, 'S': sub, 'M': mul}[op[0]](a, b)
            return wrap_int(r, dty, st.pc)
        if op in ('Div', 'Rem'):
            return int_div(a, b) if op == 'Div' else int_mod(a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            return int_bit(op.replace('Unchecked', ''), a, b, dty)
        if op == 'Cmp':
            # core::cmp::Ordering
            return mk_ite(lt(a, b), agg(dty, 0, []), mk_ite(ieq(a, b), agg(dty, 1, []), agg(dty, 2, [])))
        if op == 'Offset':
            return app('offset', a, b, ty=dty)
        raise Unsupported('binop ' + op)

    def cast(self, st, k, a, ty, aty):
        if isinstance(a, B):
            if ty.k == 'int':
                return mk_ite(a, ONE, ZERO)
            return a
        if k in ('IntToInt', 'IntToInt()') and a.op == 'poly':
            return wrap_int(a, ty, st.pc)
        if k == 'Transmute' or k.startswith('PtrToPtr') or k.startswith('PointerCoercion') or k.startswith('BoxDeref') or k.startswith('Subtype'):
            if 'ReifyFnPointer' in k or 'ClosureFnPointer' in k:
                return a
            if k == 'Transmute' and a.op == 'poly' and ty.k == 'int':
                return wrap_int(a, ty, st.pc)
            return a
        if k.startswith('IntToFloat'):
            c = cval(a)
            if c is not None:
                return mk('float', (repr(float(c)),), ty)
            return app('i2f', a, ty=ty)
        if k.startswith('FloatToInt'):
            if a.op == 'float':
                return wrap_int(I(int(float(a.a[0]))), ty, st.pc)
            return app('f2i', a, ty=ty)
        if a.op == 'poly' and ty.k in ('int', 'char'):
            return wrap_int(a, ty, st.pc)
        return a

    # -------------------------------------------------------------- calls
    def call_term(self, st, fid, body, t):
        fo = t['f']
        args = [self.operand(st, fid, body, a) for a in t['a']]
        dty = self.w.ty(t['d'][2])
        site = t.get('sp')
        self.callsites += 1
        if fo['o'] == 'const' and fo['v']['c'] == 'fn':
            return self.call_fn(st, fo['v']['f'], args, dty, site)
        f = self.operand(st, fid, body, fo)
        return self.call_value(st, f, args, dty, site)

    def call_fn(self, st, f, args, dty, site=None):
        """f: callee record"""
        if f.get('ctor') is not None:
            return agg(dty, f['ctor'], args)
        r = f.get('res')
        decl = f['decl']
        path = r['path'] if r else None
        M = self.models
        m = M.pre.get(path) or (M.pre.get(decl) if not (r and r.get('krate') == self.w.local and r.get('inst') is not None) else None)
        if m is not None:
            v = m(self, st, f, args, dty)
            if v is not NotImplemented:
                return v
        if r and r.get('inst') is not None and r['kind'] in ('item', 'closure_once') and r['inst'] in self.w.bodies:
            b = self.w.bodies[r['inst']]
            if self._is_closure_call(decl):
                args = self._untuple(args)
            if r['kind'] == 'closure_once':
                # by-value self for a closure body that expects a reference
                args = [mk('ref', (self.alloc(st, args[0]), ()))] + args[1:]
            return self.call_body(b, args, st, site)
        m = M.post.get(path) or M.post.get(decl)
        if m is not None:
            v = m(self, st, f, args, dty)
            if v is not NotImplemented:
                return v
        if self._is_closure_call(decl):
            return self.call_value(st, args[0], self._untuple(args)[1:], dty, site)
        for pat, m in M.patterns:
            if pat.search(path or decl):
                v = m(self, st, f, args, dty)
                if v is not NotImplemented:
                    return v
        return self.opaque_call(st, path or decl, f, args, dty)

    def _is_closure_call(self, decl):
        return decl in ('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')

    def _untuple(self, args):
        t = args[1]
        if t.op == 'agg':
            return [args[0]] + list(t.a[1:])
        n = t.ty.nfields()
        return [args[0]] + [proj(t, 0, i, t.ty.field_ty(None, i)) for i in range(n)]

    def call_value(self, st, f, args, dty, site=None):
        """call a closure / function value"""
        g = f
        n = 0
        while isinstance(g, T) and g.op in ('ref', 'valref') and n < 8:
            inner = self.load(st, g)
            if isinstance(inner, T) and inner.op == 'agg' and inner.ty is not None and inner.ty.k == 'closure':
                return self._call_closure(st, inner, g if g.op == 'ref' else None, args, dty, site)
            g = inner
            n += 1
        if isinstance(g, T):
            if g.op == 'agg' and g.ty is not None and g.ty.k == 'closure':
                return self._call_closure(st, g, None, args, dty, site)
            if g.op == 'fn':
                return self.call_fn(st, FNS[g.a[0]], args, dty, site)
            if g.op == 'ite' and g.a[0] is not None:
                a, b = st.copy(), st.copy()
                a.pc, b.pc = st.pc & g.a[0], st.pc & ~g.a[0]
                va = self.call_value(a, g.a[1], args, dty, site) if a.pc is not FALSE else None
                vb = self.call_value(b, g.a[2], args, dty, site) if b.pc is not FALSE else None
                if a.pc is not FALSE:
                    a.mem[('tmp', 'ret')] = va
                if b.pc is not FALSE:
                    b.mem[('tmp', 'ret')] = vb
                j = self.join([a, b])
                if j is None:
                    st.pc = FALSE
                    return None
                v = j.mem.pop(('tmp', 'ret'))
                st.mem, st.pc = j.mem, j.pc
                return v
            if g.op == 'fnptr':
                return self.models.fnptr(self, st, g, args, dty)
            if g.op == 'bottom':
                st.pc = FALSE
                return None
        return self.models.unknown_fn(self, st, g, args, dty)

    def _call_closure(self, st, clo, ref, args, dty, site):
        inst = clo.ty.d.get('inst')
        b = self.w.bodies.get(inst)
        if b is None:
            # closures of another instantiation of the same world
            raise Unsupported('closure body missing ' + clo.ty.s)
        selfty = self.w.ty(b['locals'][1][0])
        if selfty.k == 'ref':
            if selfty.d.get('mut'):
                if ref is None:
                    ref = mk('ref', (self.alloc(st, clo), ()))
                a0 = ref
            else:
                a0 = mk('valref', (clo,), selfty)
        else:
            a0 = clo
        # closure bodies take their arguments as one tuple local when 'spread' is set
        if b.get('spread') is not None and len(b['locals']) > 2 and b['argc'] == 2 and self.w.ty(b['locals'][2][0]).k == 'tuple' and len(args) != 1:
            ty = self.w.ty(b['locals'][2][0])
            args = [agg(ty, 0, args)]
        return self.call_body(b, [a0] + list(args), st, site)

    def opaque_call(self, st, name, f, args, dty):
        """a call the analysis does not interpret: the result is an uninterpreted function of the
        arguments, and everything reachable through a mutable reference becomes unknown"""
        self.unknown.setdefault(name, set()).add(self.site())
        vals = []
        muts = []
        for a in args:
            if isinstance(a, T) and _has_ref(a):
                muts.append(a)
                v = self.deref_all(st, a)
                vals.append(v if not (isinstance(v, T) and v.op == 'ref') else BOT)
            else:
                vals.append(a)
        if muts:
            op = self.opid()
            self.ev('opaque-call', st.pc, name=name, args=tuple(vals))
            for i, m in enumerate(muts):
                if m.op == 'ref':
                    old = self.load(st, m)
                    if isinstance(old, B):
                        new = bvar(mk('app', ('havoc', name, op, i)))
                    else:
                        new = wrap(mk('app', ('havoc', name, op, i, old), old.ty if old.op != 'poly' else USIZE))
                    self.store(st, m, new)
            if dty.k == 'never':
                st.pc = FALSE
                return None
            return wrap(mk('app', ('call', name, op) + tuple(vals), dty))
        if dty.k == 'never':
            self.panic(st, TRUE, 'diverging call ' + name)
            return None
        return wrap(mk('app', ('call', name) + tuple(vals), dty))

    # -------------------------------------------------------------- loops
    def run_loop(self, st, body, name):
        """body(state) -> (back states, [(exit key, state)]).  Returns [(exit key, state)]."""
        save = (len(self.events), self.ops, self.frames, self.heap, self.loopn)

        def rollback():
            del self.events[save[0]:]
            self.ops, self.frames, self.heap, self.loopn = save[1:]
        # ---- 1. constant trip count: unroll
        cur = st.copy()
        outs = []
        ok = False
        for it in range(self.UNROLL):
            fr = LoopFrame(None, None)
            fr.head = cur
            self.loops.append(fr)
            try:
                back, exits = body(cur.copy())
            finally:
                self.loops.pop()
            if fr.dec is not True:
                break
            outs += exits
            nx = self.join(back + fr.skips)
            if nx is None:
                ok = True
                break
            cur = nx
        if ok:
            return outs
        rollback()
        # ---- 2. symbolic
        self.loopn += 1
        lid = self.loopn
        save = (save[0], save[1], save[2], save[3], self.loopn)
        lvl = sum(1 for f in self.loops if f.lv is not None)
        lv = LV(lvl)
        k = P(lv)
        locs = {}        # (alloc, path) -> [init, mu, closed or None]
        dead = set()
        failed = set()
        rounds = 0
        muno = [0]
        while True:
            rounds += 1
            if rounds > 40:
                raise Unsupported('loop does not stabilise: ' + name)
            rollback()
            hs = st.copy()
            for a in dead:
                hs.mem.pop(a, None)
            for (a, p), L in locs.items():
                if a in hs.mem:
                    hs.mem[a] = self.set_path(hs.mem[a], p, L[2] if L[2] is not None else L[1])
            fr = LoopFrame(lv, k)
            fr.head = hs
            fr.dec = True
            self.loops.append(fr)
            try:
                back, exits = body(hs.copy())
            finally:
                self.loops.pop()
            b = self.join(back + fr.skips)
            if b is None:
                # never loops back
                evs = self.events[save[0]:]
                del self.events[save[0]:]
                self.events.extend(evs)
                return exits
            changed = False
            steps = {}
            for a in list(hs.mem):
                v0 = hs.mem[a]
                if a not in b.mem:
                    dead.add(a)
                    changed = True
                    continue
                v1 = b.mem[a]
                if v0 is v1:
                    continue
                diffs = []
                self.leafdiff(a, (), assume(v0, b.pc), assume(v1, b.pc), diffs)
                for path, x, y in diffs:
                    key = self._covering(locs, a, path)
                    if key is None:
                        # subsume existing deeper locations
                        for q in [q for q in locs if q[0] == a and q[1][:len(path)] == path]:
                            del locs[q]
                        init = self.get_path(st.mem[a], path)
                        muno[0] += 1
                        locs[(a, path)] = [init, self.mkmu(init, y, lid, muno[0], k, self.loc_type(a, path)), None]
                        changed = True
                    else:
                        full = self.get_path(assume(b.mem[a], b.pc), key[1])
                        steps[key] = full
            if changed:
                # every location starts again from an unknown value
                continue
            # verify closed forms / solve
            bad = False
            for key, L in locs.items():
                if L[2] is not None:
                    new = self.get_path(assume(b.mem[key[0]], b.pc), key[1])
                    exp = L[3](k)
                    if not self._same(assume(exp, b.pc) if isinstance(exp, T) else exp, new, b.pc):
                        failed.add(key)
                        L[2] = None
                        bad = True
            if bad:
                continue
            solved = False
            for key, L in locs.items():
                if L[2] is None and key not in failed:
                    new = steps.get(key)
                    if new is None:
                        new = self.get_path(assume(b.mem[key[0]], b.pc), key[1])
                    r = self.solve(L[0], L[1], new, lv, k, b.pc, st.pc, locs)
                    if r is not None:
                        L[2:] = [r[0], r[1]]
                        solved = True
            if solved:
                continue
            break
        self.last_locs = locs
        evs = self.events[save[0]:]
        del self.events[save[0]:]
        step = {} if b is None else {q: self.get_path(assume(b.mem[q[0]], b.pc), q[1]) for q in locs}
        return self.close_loop(st, hs, b, lv, k, exits, evs, name, lid, locs, step)

    def _covering(self, locs, a, path):
        for q in locs:
            if q[0] == a and path[:len(q[1])] == q[1]:
                return q
        return None

    def _same(self, x, y, pc):
        if x is y:
            return True
        if isinstance(x, B) and isinstance(y, B):
            return ((x ^ y) & pc) is FALSE
        if isinstance(x, B) or isinstance(y, B):
            return False
        try:
            return implies(pc, veq(x, y))
        except TypeError:
            return False

    def loc_type(self, a, path):
        """declared type of a location, if known"""
        if path:
            return path[-1][3] if path[-1][0] == 'f' else None
        b = self.frame_body.get(a[0]) if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], int) else None
        if b is None or not isinstance(a[1], int) or a[1] >= len(b['locals']):
            return None
        return self.w.ty(b['locals'][a[1]][0])

    def mkmu(self, init, y, lid, n, k, decl=None):
        ty = None
        if decl is not None and decl.k == 'int' and isinstance(init, T) and init.op == 'poly':
            return P(mk('mu', (lid, n, k), decl))
        for c in (init, y):
            if isinstance(c, B):
                return bvar(mk('mu', (lid, n, k), self.w.bykey.get('bool')))
            if c.op == 'poly':
                at = atom_of(c)
                ty = at.ty if at is not None else None
                lo = 0
                t2 = ty if ty is not None and ty.k == 'int' else None
                return P(mk('mu', (lid, n, k), t2 if t2 is not None else MUINT))
            if c.ty is not None:
                ty = c.ty
        return wrap(mk('mu', (lid, n, k), ty))

    def leafdiff(self, a, path, x, y, out):
        if x is y or x is BOT or y is BOT:
            if x is not y and x is BOT:
                out.append((path, x, y))
            return
        if isinstance(x, T) and isinstance(y, T):
            if x.op == 'agg' or y.op == 'agg':
                ag = x if x.op == 'agg' else y
                ty = ag.ty
                same_variant = (x.op == 'agg' and y.op == 'agg' and x.a[0] == y.a[0])
                one_opaque = ty is not None and ty.is_struct() and (x.op != 'ite') and (y.op != 'ite')
                if ty is not None and (same_variant or one_opaque):
                    v = ag.a[0]
                    for i in range(len(ag.a) - 1):
                        fty = ty.field_ty(v, i)
                        self.leafdiff(a, path + (('f', v if ty.is_enum() else None, i, fty, ty),), proj(x, v, i, fty), proj(y, v, i, fty), out)
                    return
            if x.op == y.op and x.op in ('iter', 'cur', 'devst') and len(x.a) == len(y.a):
                for i in range(len(x.a)):
                    if x.a[i] is not y.a[i]:
                        if not isinstance(x.a[i], (T, B)):
                            if x.a[i] != y.a[i]:
                                out.append((path, x, y))
                                return
                            continue
                        self.leafdiff(a, path + (('arg', i, x.op),), x.a[i], y.a[i], out)
                return
            if x.op == 'poly' and y.op == 'poly' or True:
                out.append((path, x, y))
                return
        out.append((path, x, y))

    def solve(self, init, mu, new, lv, k, pc, pc0, locs):
        """closed form of a loop-carried location: (value at k, function giving the value at k+1)"""
        if isinstance(mu, B):
            m = ATOMS[mu.v]
            if not isinstance(init, B) or not isinstance(new, B):
                return None
            new = restrict(new, pc)
            n0, n1 = _cof(new, mu.v)
            # new = mu ? n1 : n0
            if n1 is TRUE and n0 is not FALSE:
                c = _drop_done(n0)
                if not _mentions(c, m):
                    ex = mk_exists(lv, k, c)
                    return (init | ex, lambda k_: init | ex | c)
            if n0 is FALSE and n1 is not TRUE:
                c = ~n1
                if not _mentions(c, m):
                    ex = mk_exists(lv, k, c)
                    return (init & ~ex, lambda k_: init & ~ex & ~c)
            return None
        if not isinstance(init, T) or not isinstance(new, T):
            return None
        if init.op == 'poly' and new.op == 'poly':
            m = atom_of(mu)
            d = sub(new, mu)
            if not _mentions(d, m):
                if lv not in d.fv and not _any_mu(d, locs):
                    r = add(init, mul(d, k))
                    return (r, lambda k_: add(r, d))
                leaves = _leaves(d)
            else:
                leaves = _leaves_guarded(new)
                # conditional increment: every leaf is mu + c
                ls = []
                for g, x in leaves:
                    e = sub(x, mu)
                    if _mentions(e, m):
                        return self.solve_other(init, mu, new, lv, k, pc, locs)
                    ls.append((g, e))
                leaves = ls
            consts = {}
            for g, x in leaves:
                c = cval(x)
                if c is None:
                    return self.solve_other(init, mu, new, lv, k, pc, locs)
                consts[c] = consts.get(c, FALSE) | g
            for c, g in consts.items():
                if c and _mentions(g, m):
                    g = consts[c] = _drop_atoms(g, pc, lambda at: _mentions(at, m))
                    if _mentions(g, m):
                        return self.solve_other(init, mu, new, lv, k, pc, locs)
            r = init
            stp = ZERO
            for c, g in consts.items():
                if c == 0:
                    continue
                if _any_mu(g, locs):
                    return None
                r = add(r, scale(mk_count(lv, k, g), c))
                stp = add(stp, mk_ite(g, I(c), ZERO))
            return (r, lambda k_: add(r, stp))
        # sequences: append
        r = self.solve_append(init, mu, new, lv, k, locs, pc)
        if r is not None:
            return r
        return self.solve_other(init, mu, new, lv, k, pc, locs)

    def solve_append(self, init, mu, new, lv, k, locs, pc):
        merged = {}
        for g, x in _leaves_guarded(new):
            if x is not mu:
                merged[x] = merged.get(x, FALSE) | g
        running = lambda at: at.op in ('ge0', 'eq0') and _running(at)
        merged = {x: g for x, g in merged.items() if g & pc is not FALSE}
        if not merged:
            return None
        total = FALSE
        for g in merged.values():
            total = total | g
        care, total = pc & total, _drop_atoms(total, pc, running)
        def clean(v):
            """v without the outcomes of overflow checks about running values, where it does not depend on them"""
            if isinstance(v, B):
                return _drop_atoms(v, care, running)
            for i in reversed(range(tm.vmask(v).bit_length())):
                if (tm.vmask(v) >> i) & 1 and running(ATOMS[i]):
                    a = bvar(ATOMS[i])
                    n1, n0 = assume(v, a), assume(v, ~a)
                    if self._same(n0, n1, care & a):
                        v = n0
                    elif self._same(n0, n1, care & ~a):
                        v = n1
            return v
        if _mentions(total, mu) or _any_mu(total, locs):
            return None
        kinds = set()
        for x in merged:
            if x.op == 'seq' and x.a and x.a[0] == ('opq', mu) and all(s[0] == 'lit' for s in x.a[1:]):
                kinds.add(('seq', sum(len(s) - 1 for s in x.a[1:])))
            elif x.op == 'mapins' and x.a[0] is mu:
                kinds.add(('map', 2))
            else:
                return None
        if len(kinds) != 1:
            return None
        kind = kinds.pop()[0]
        vs = None
        for x, g in merged.items():
            es = x.a[1:3] if kind == 'map' else [e for s in x.a[1:] for e in s[1:]]
            vs = list(es) if vs is None else [mk_ite(g, e, v) if isinstance(v, T) else (g & e) | (~g & v) for e, v in zip(es, vs)]
        vs = [clean(assume(v, total) if isinstance(v, T) else restrict(v, total)) for v in vs]
        if any(_mentions(v, mu) or _any_mu(v, locs) for v in vs):
            return None
        if kind == 'map':
            f = mk_mapflat(lv, k, total, vs[0], vs[1], init)
            stepv = mk_ite(total, mk_mapins(f, vs[0], vs[1]), f)
        else:
            f = concat(init, mk_flat(lv, k, total, vs))
            stepv = mk_ite(total, concat(f, lit(vs)), f)
        return (f, lambda k_: stepv)

    def solve_other(self, init, mu, new, lv, k, pc, locs):
        """candidates proved by induction: another solved location with the same start value"""
        if init.op != 'poly':
            return None
        m = atom_of(mu)
        for key, L in locs.items():
            if L[2] is None or not isinstance(L[2], T) or L[2].op != 'poly' or L[1] is mu:
                continue
            if not (isinstance(L[0], T) and L[0].op == 'poly'):
                continue
            off = sub(init, L[0])
            if lv in off.fv:
                continue
            cand = add(L[2], off)
            nxt = add(L[3](k), off)
            got = _replace(new, m, cand)
            if self._same(assume(nxt, pc), assume(got, pc), pc):
                return (cand, lambda k_, nxt=nxt: nxt)
        # a value that depends on the iteration only (not on its own past) and starts equal to it
        if not _mentions(new, m) and not _any_mu(new, locs):
            pass
        return None

    def close_loop(self, st, hs, b, lv, k, exits, evs, name, lid, locs, step):
        # which exit is the exhaustion of the loop's bound?
        bound = None
        exh = []
        rest = []
        for key, s in exits:
            if s.pc is FALSE:
                continue
            r = restrict(s.pc, st.pc)
            L = _bound_literal(r, lv)
            if L is not None and (bound is None or bound is L):
                bound = L
                exh.append((key, s))
            else:
                rest.append((key, s, r))
        E = FALSE
        inb = TRUE
        if bound is not None:
            inb = lt(k, bound)
        rest2 = []
        for key, s, r in rest:
            r = restrict(r, inb) if bound is not None else r
            rest2.append((key, s, r))
            E = E | r
        out = []
        le_ = Ev('loop', st.pc, self.site(), tuple('%s@%s' % (f, s) for f, s in zip(self.stack, self.sites)),
                 lv=lv, bound=bound, events=evs, name=name, lid=lid, exit_cond=E, head=hs, locs=locs, step=step, cont=FALSE if b is None else b.pc)
        le_.fn = self.stack[-1] if self.stack else '?'
        if bound is None:
            X = TRUE
            K = P(mk('first', (lv, INFB, E))) if E is not FALSE else None
            if K is None:
                self.ev('nonterminating', st.pc, name=name)
        elif E is FALSE:
            X = FALSE
            K = None
        else:
            X = mk_exists(lv, bound, E)
            K = P(mk('first', (lv, bound, E)))
        le_.d['exists'] = X
        le_.d['first'] = K
        self.loopinfo[lid] = (len(self.loops), le_)
        for key, s in exh:
            s2 = self.sub_state(s, {lv: bound})
            s2.pc = st.pc & ~X
            out.append((key, s2))
        for key, s, r in rest2:
            if K is None:
                continue
            s2 = self.sub_state(s, {lv: K})
            s2.pc = st.pc & X & subst(r, {lv: K})
            out.append((key, s2))
        if evs or rest2:
            self.events.append(le_)
        return out

    def sub_state(self, s, m):
        keys = set(m)
        mem = {}
        for a, v in s.mem.items():
            if v.fv & keys:
                v = subst(v, m)
            mem[a] = v
        return St(mem, s.pc)


MUINT = None
INFB = mk('inf')
TRANSPARENT = {'core::mem::manually_drop::ManuallyDrop', 'core::mem::maybe_dangling::MaybeDangling', 'core::mem::maybe_uninit::MaybeUninit',
               'alloc::boxed::Box', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull', 'core::num::wrapping::Wrapping',
               'core::cmp::Reverse_'}


def _refish(v):
    while v.op == 'ite':
        v = v.a[1]
    return v.op in ('ref', 'valref') or (v.ty is not None and v.ty.k == 'ref')


def _has_ref(v):
    if not isinstance(v, T):
        return False
    if v.op == 'ref':
        return True
    if v.op in ('ite',):
        return _has_ref(v.a[1]) or _has_ref(v.a[2])
    if v.op == 'agg':
        return any(_has_ref(x) for x in v.a[1:])
    return False


def _strip(path):
    return tuple(path)


def mkvalref(x, ty):
    if isinstance(x, T):
        if x.op == 'deref' and (ty is None or x.a[0].ty is None or x.a[0].ty.k == 'ref' and not x.a[0].ty.d.get('mut')):
            return x.a[0]
        if x.op == 'poly':
            at = atom_of(x)
            if at is not None and at.op == 'deref' and at.a[0].ty is not None and not at.a[0].ty.d.get('mut'):
                return at.a[0]
    return mk('valref', (x,), None)


def assume_lazy(v, pc):
    return v


def _cof(f, v):
    """cofactors of BDD f w.r.t. variable v"""
    memo = {}

    def go(n, val):
        if n.v > v:
            return n
        if n.v == v:
            return n.hi if val else n.lo
        key = (n.id, val)
        r = memo.get(key)
        if r is None:
            r = tm.bite(tm._bmk(n.v, FALSE, TRUE), go(n.hi, val), go(n.lo, val))
            memo[key] = r
        return r
    return go(f, False), go(f, True)


def _drop_done(c):
    return c


def _mentions(x, t, seen=None):
    """term t occurs in x"""
    if seen is None:
        seen = set()
    if x is t:
        return True
    if isinstance(x, tuple):
        return any(_mentions(y, t, seen) for y in x if isinstance(y, (T, B, tuple)))
    if not isinstance(x, (T, B)):
        return False
    if id(x) in seen:
        return False
    seen.add(id(x))
    if isinstance(x, B):
        if x.v == BIG:
            return False
        return _mentions(ATOMS[x.v], t, seen) or _mentions(x.lo, t, seen) or _mentions(x.hi, t, seen)
    if x.op == 'poly':
        for mo, c in x.a[1]:
            for y in mo:
                if _mentions(y, t, seen):
                    return True
        return False
    for y in x.a:
        if isinstance(y, (T, B, tuple)) and _mentions(y, t, seen):
            return True
    return False


def mus_in(x, acc=None, seen=None):
    if acc is None:
        acc, seen = set(), set()
    if isinstance(x, tuple):
        for y in x:
            mus_in(y, acc, seen)
        return acc
    if not isinstance(x, (T, B)) or id(x) in seen:
        return acc
    seen.add(id(x))
    if isinstance(x, B):
        if x.v != BIG:
            mus_in(ATOMS[x.v], acc, seen)
            mus_in(x.lo, acc, seen)
            mus_in(x.hi, acc, seen)
        return acc
    if x.op == 'mu':
        acc.add(x)
        return acc
    if x.op == 'poly':
        for mo, c in x.a[1]:
            for y in mo:
                mus_in(y, acc, seen)
        return acc
    for y in x.a:
        mus_in(y, acc, seen)
    return acc


def _drop_atoms(g, pc, bad):
    """a condition equal to g on the branches in pc with fewer of the atoms for which bad holds"""
    for v in sorted(tm.bsupport(g), reverse=True):
        if bad(ATOMS[v]):
            x = bvar(ATOMS[v])
            a, b = restrict(g, x), restrict(g, ~x)
            for r in (a | b, a & b):
                if ((r ^ g) & pc) is FALSE:
                    g = r
                    break
    return g


def _running(at):
    """the atom is about a running value of a loop (a count or a value not solved)"""
    return any(y.op in ('mu', 'count') for m, _ in at.a[0].a[1] for y in m)


def _any_mu(x, locs):
    ms = set()
    for L in locs.values():
        m = L[1]
        if isinstance(m, B):
            ms.add(ATOMS[m.v])
        else:
            ms.add(atom_of(m) if m.op == 'poly' else m)
    return bool(mus_in(x) & ms)


def _leaves(d):
    return _leaves_guarded(d)


def _leaves_guarded(d, g=TRUE, out=None):
    if out is None:
        out = []
    if d.op == 'ite':
        _leaves_guarded(d.a[1], g & d.a[0], out)
        _leaves_guarded(d.a[2], g & ~d.a[0], out)
        return out
    if d.op == 'poly':
        it = tm._some_ite(d)
        if it is not None:
            c = it.a[0]
            _leaves_guarded(assume(d, c), g & c, out)
            _leaves_guarded(assume(d, ~c), g & ~c, out)
            return out
    out.append((g, d))
    return out


def replace_term(x, old, new):
    return _replace(x, old, new)


def _replace(x, old, new):
    """replace atom term old by value new"""
    memo = {}

    def go(y):
        if isinstance(y, tuple):
            return tuple(go(z) for z in y)
        if not isinstance(y, (T, B)):
            return y
        r = memo.get(y)
        if r is not None:
            return r
        if y is old:
            r = new
        elif isinstance(y, B):
            if y.v == BIG:
                r = y
            else:
                at = go(ATOMS[y.v])
                if not isinstance(at, B):
                    at = tm.bvar(at)
                r = bite(at, go(y.hi), go(y.lo))
        elif y.op == 'poly':
            r = I(y.a[0])
            for mo, c in y.a[1]:
                q = I(c)
                for z in mo:
                    w = go(z)
                    q = mul(q, w if w.op == 'poly' else P(w))
                r = add(r, q)
        elif y.op in ('sym', 'lv', 'bottom', 'strlit', 'fn'):
            r = y
        else:
            a = tuple(go(z) for z in y.a)
            if all(p is q for p, q in zip(a, y.a)):
                r = y
            elif a == y.a:
                r = y
            else:
                r = tm.rebuild(y.op, a, y.ty, y)
        memo[y] = r
        return r
    return go(x)


def _bound_literal(r, lv):
    """r is the single literal k >= L (exit when the counter reaches L): L"""
    l = single_literal(r)
    if l is None:
        return None
    at, pos = l
    if at.op == 'ge0':
        p = at.a[0]
        if not pos:
            p = add(scale(p, -1), I(-1))
        c = dict(p.a[1]).get((lv,))
        if c == 1:
            L = sub(P(lv), p)
            if lv not in L.fv:
                return L
    if at.op == 'eq0' and pos:
        p = at.a[0]
        c = dict(p.a[1]).get((lv,))
        if c in (1, -1):
            L = sub(P(lv), scale(p, c))
            if lv not in L.fv and prange(L)[0] >= 0:
                return L
    return None


# ------------------------------------------------------------------ binder constructors


def mk_exists(lv, n, c):
    if c is FALSE or n is ZERO:
        return FALSE
    return bvar(mk('exists', (lv, n, c)))


REBUILD['exists'] = lambda a, ty: mk_exists(*a)
REBUILD['first'] = lambda a, ty: P(mk('first', a))
REBUILD['valref'] = lambda a, ty: mkvalref(a[0], None)


def _deref_rebuild(a, ty):
    x = a[0]
    if x.op == 'valref':
        return x.a[0]
    if x.op == 'ite':
        return mk_ite(x.a[0], _deref_rebuild((x.a[1],), ty), _deref_rebuild((x.a[2],), ty))
    return wrap(mk('deref', a, ty))


REBUILD['deref'] = _deref_rebuild


def _ival(a, ty):
    return ival(a[0])


def ival(p):
    """an integer with internal joins hidden behind one atom (loop bounds)"""
    if tm._some_ite(p) is None:
        return p
    return P(mk('app', ('ival', p)))


REBUILD['app:ival'] = _ival

# ------------------------------------------------------------------ maps


def mk_mapins(m, k, v):
    if m.op == 'bottom':
        return BOT
    return mk('mapins', (m, k, v), m.ty)


REBUILD['mapins'] = lambda a, ty: mk_mapins(*a)


def mk_maprem(m, k):
    return mk('maprem', (m, k), m.ty)


REBUILD['maprem'] = lambda a, ty: mk_maprem(*a)


def mk_mapflat(lv, n, g, key, val, base):
    if n is ZERO or g is FALSE:
        return base
    return mk('mapflat', (lv, n, g, key, val, base), base.ty)


REBUILD['mapflat'] = lambda a, ty: mk_mapflat(*a)


def map_has(m, k):
    op = m.op
    if op == 'bottom':
        return FALSE
    if op == 'ite':
        return bite(m.a[0], map_has(m.a[1], k), map_has(m.a[2], k))
    if op == 'mapempty':
        return FALSE
    if op == 'mapins':
        return veq(m.a[1], k) | map_has(m.a[0], k)
    if op == 'maprem':
        return ~veq(m.a[1], k) & map_has(m.a[0], k)
    return bvar(mk('app', ('maphas', m, k)))


REBUILD['app:maphas'] = lambda a, ty: map_has(*a)


def map_value(m, k, vty):
    op = m.op
    if op in ('bottom', 'mapempty'):
        return BOT
    if op == 'ite':
        return mk_ite(m.a[0], map_value(m.a[1], k, vty), map_value(m.a[2], k, vty))
    if op == 'mapins':
        return mk_ite(veq(m.a[1], k), m.a[2], map_value(m.a[0], k, vty))
    if op == 'maprem':
        return map_value(m.a[0], k, vty)
    return wrap(mk('app', ('mapget', m, k), vty))


REBUILD['app:mapget'] = lambda a, ty: map_value(a[0], a[1], ty)


def map_len(m):
    op = m.op
    if op == 'mapempty':
        return ZERO
    if op == 'ite':
        return mk_ite(m.a[0], map_len(m.a[1]), map_len(m.a[2]))
    if op == 'mapins':
        return add(map_len(m.a[0]), mk_ite(map_has(m.a[0], m.a[1]), ZERO, ONE))
    if op == 'maprem':
        return sub(map_len(m.a[0]), mk_ite(map_has(m.a[0], m.a[1]), ONE, ZERO))
    return P(mk('app', ('maplen', m)))


REBUILD['app:maplen'] = lambda a, ty: map_len(*a)


# ------------------------------------------------------------------ integer helpers


def in_range(p, ty):
    lo, hi = trange(ty)
    r = TRUE
    a, b = prange(p)
    if a < lo:
        r = r & ge0(add(p, I(-lo)))
    if b > hi:
        r = r & ge0(sub(I(hi), p))
    return r


def wrap_int(p, ty, pc=TRUE):
    if p.op != 'poly':
        return p
    lo, hi = trange(ty)
    a, b = prange(p)
    if lo <= a and b <= hi:
        return p
    ok = in_range(p, ty)
    if implies(pc, ok):
        return p
    c = cval(p)
    if c is not None:
        m = hi - lo + 1
        return I((c - lo) % m + lo)
    it = tm._some_ite(p)
    if it is not None:
        c = it.a[0]
        return mk_ite(c, wrap_int(assume(p, c), ty, pc), wrap_int(assume(p, ~c), ty, pc))
    if lo == 0 and a >= 0:
        return int_mod(p, I(hi + 1))
    return P(mk('app', ('wrap', p, ty.s), ty))


REBUILD['app:wrap'] = lambda a, ty: wrap_int(a[0], ty)


def int_div(a, b):
    ca, cb = cval(a), cval(b)
    if cb == 1:
        return a
    if ca is not None and cb:
        q = abs(ca) // abs(cb)
        return I(q if (ca >= 0) == (cb > 0) else -q)
    it = tm._some_ite(b)
    if it is not None:
        c = it.a[0]
        return mk_ite(c, int_div(assume(a, c), assume(b, c)), int_div(assume(a, ~c), assume(b, ~c)))
    it = tm._some_ite(a)
    if it is not None:
        c = it.a[0]
        return mk_ite(c, int_div(assume(a, c), b), int_div(assume(a, ~c), b))
    if cb is not None and cb > 0 and prange(a)[0] >= 0:
        lo, hi = prange(a)
        if hi < cb:
            return ZERO
        # pull out multiples of the divisor
        q = {}
        rest = {}
        for m, c in a.a[1]:
            if c % cb == 0:
                q[m] = c // cb
            else:
                rest[m] = c
        c0 = a.a[0]
        if q and rest and all(c > 0 for c in q.values()):
            r = tm._mkpoly(c0, rest)
            if prange(r)[0] >= 0:
                return add(tm._mkpoly(0, q), int_div(r, b))
        if q and not rest and c0 == 0:
            return tm._mkpoly(0, q)
        if q and not rest and 0 <= c0 < cb and prange(tm._mkpoly(0, q))[0] >= 0:
            return tm._mkpoly(0, q)
        # (x div c) div d
        at = atom_of(a)
        if at is not None and at.op == 'app' and at.a[0] == 'div':
            c2 = cval(at.a[2])
            if c2 is not None and c2 > 0:
                return int_div(at.a[1], I(c2 * cb))
    if a is b:
        return ONE
    return P(mk('app', ('div', a, b), None))


REBUILD['app:div'] = lambda a, ty: int_div(*a)


def int_mod(a, b):
    ca, cb = cval(a), cval(b)
    if cb == 1:
        return ZERO
    if ca is not None and cb:
        return I(ca % cb if ca >= 0 else -((-ca) % abs(cb)))
    it = tm._some_ite(b)
    if it is not None:
        c = it.a[0]
        return mk_ite(c, int_mod(assume(a, c), assume(b, c)), int_mod(assume(a, ~c), assume(b, ~c)))
    it = tm._some_ite(a)
    if it is not None:
        c = it.a[0]
        return mk_ite(c, int_mod(assume(a, c), b), int_mod(assume(a, ~c), b))
    if cb is not None and cb > 0 and prange(a)[0] >= 0:
        if prange(a)[1] < cb:
            return a
    return P(mk('app', ('mod', a, b), None))


REBUILD['app:mod'] = lambda a, ty: int_mod(*a)


def int_not(a, ty):
    lo, hi = trange(ty)
    if lo == 0:
        return sub(I(hi), a)
    return sub(I(-1), a)


def int_bit(op, a, b, ty):
    ca, cb = cval(a), cval(b)
    lo, hi = trange(ty)
    for x, f in ((a, 0), (b, 1)):
        it = tm._some_ite(x)
        if it is not None:
            c = it.a[0]
            return mk_ite(c, int_bit(op, assume(a, c), assume(b, c), ty), int_bit(op, assume(a, ~c), assume(b, ~c), ty))
    bits = ty.d['bits'] if ty.k == 'int' else 32
    if ca is not None and cb is not None:
        if op == 'BitAnd':
            return I(ca & cb)
        if op == 'BitOr':
            return I(ca | cb)
        if op == 'BitXor':
            return I(ca ^ cb)
        if op == 'Shl':
            return wrap_int(I(ca << (cb % bits)), ty)
        if op == 'Shr':
            return I(ca >> (cb % bits))
    if op == 'Shl' and cb is not None:
        return wrap_int(scale(a, 1 << (cb % bits)), ty)
    if op == 'Shl' and ca == 1:
        return P(mk('app', ('pow2', b), ty))
    if op == 'Shr' and cb is not None and prange(a)[0] >= 0:
        return int_div(a, I(1 << (cb % bits)))
    if op == 'BitAnd':
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if cb is not None and cb >= 0 and prange(a)[0] >= 0:
            if cb == 0:
                return ZERO
            if (cb & (cb + 1)) == 0:
                return int_mod(a, I(cb + 1))
            inv = hi ^ cb if lo == 0 else None
            if inv is not None and (inv & (inv + 1)) == 0:
                # clear low bits
                return sub(a, int_mod(a, I(inv + 1)))
    if op == 'BitOr' and ((ca == 0) or (cb == 0)):
        return b if ca == 0 else a
    if op in ('BitOr', 'BitXor') and lo == 0:
        r = _disjoint_or(a, b)
        if r is not None:
            return r
    x, y = (a, b) if a.id < b.id or op in ('Shl', 'Shr') else (b, a)
    return P(mk('app', ('bit' + op, x, y), ty))


def _lowzeros(p):
    """number of low zero bits of every value of p"""
    n = 64
    for c in [p.a[0]] + [c for m, c in p.a[1]]:
        if c:
            n = min(n, (c & -c).bit_length() - 1)
    return n


def _disjoint_or(a, b):
    for x, y in ((a, b), (b, a)):
        lo, hi = prange(x)
        if lo >= 0 and hi != INF and prange(y)[0] >= 0 and hi < (1 << _lowzeros(y)):
            return add(x, y)
    return None


# ------------------------------------------------------------------ iteration over terms


def exists_atom(l):
    return l
