"""C30: the loop over the partitions is run in a finite abstraction: a partition is unused, or its first block is zero or
an odd multiple of 2^v for v = 0..63; the carried values stay concrete.  Every state that can be reached is visited
together with the largest power of two that divides all blocks seen so far, and the result must be that power."""
from .base import *

FN = 'gpt::GptDisk::<D>::calculate_alignment'
TOP = (1 << 64) - 1
LIMIT = 200          # iterations of an inner loop: more is reported as not terminating
STATES = 4000


class Undecided(Exception):
    pass


class Diverges(Exception):
    pass


class Num:
    """numbers lo..hi; all are odd multiples of 2^v"""
    __slots__ = ('lo', 'hi', 'v')

    def __init__(self, lo, hi, v):
        self.lo, self.hi, self.v = lo, hi, v

    def key(self):
        return ('num', self.lo, self.hi, self.v)

    def __eq__(self, o):
        return isinstance(o, Num) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return 'odd multiple of 2^%d' % self.v


def num(v):
    return Num(1 << v, TOP - (1 << v) + 1, v)


def check(ctx):
    ctx.rule('for every reachable loop state and every kind of partition: carried values = function of the largest power of two (at most 2048) dividing all first blocks seen; the result is that power; inner loops end; nothing panics')
    w = ctx.world()
    s = ctx.summary(FN)
    part_ty = ty(w, PART)
    ev = Eval(s, w, part_ty)
    for e, path in flat(s.events):
        ctx.ok(e.kind not in ('opaque-call', 'unknown', 'nonterminating') + ('open', 'tell', 'seek', 'read', 'write', 'flush'), 'event:%s:%s' % (e.kind, e.fn), 'the computation only looks at the partitions', e.where())
    try:
        run(ctx, s, ev)
    except Diverges as e:
        ctx.ok(False, 'terminates', 'the computation ends: %s' % e, FN)
    except Undecided as e:
        ctx.ok(False, 'decided', 'every step is decided by the kinds of the partitions: %s' % e, FN)
    ctx.floor('loop states', ctx.counts.get('loop states visited', 0), 2)
    ctx.floor('steps', ctx.counts.get('steps evaluated', 0), 100)


def run(ctx, s, ev):
    empty = ev.empty
    for e, path in flat(s.events):
        if e.kind == 'panic' and not path:
            ctx.ok(not holds_sat(e.guard & empty), 'panic:empty:%s' % e.fn, 'no panic for an empty map', e.where())
    r = assume(s.ret, empty)
    ctx.ok(implies(empty, s.pc) and cval(r) == 0, 'empty', 'the alignment of a disk without partitions is 0, got %s' % show(r), FN)
    least = min([d for d, L in s.I.loopinfo.values()], default=0)
    loops = [L for d, L in s.I.loopinfo.values() if d == least and holds_sat(L.guard & ~empty)]
    if not ctx.ok(loops, 'loop', 'a loop over the partitions'):
        return
    if not ev.finish(loops):
        return sets(ctx, s, ev)
    kinds = [None, 0] + list(range(64))     # unused, zero, odd multiple of 2^v
    start = (ev.initial(), None)
    seen = {start}
    todo = [start]
    while todo:
        st, best = todo.pop()
        ctx.count('loop states visited')
        if len(seen) > STATES:
            raise Diverges('more than %d loop states' % STATES)
        want = 1 << (11 if best is None else best)
        got = ev.result(st)
        if not ctx.ok(got == want, "result", "after partitions whose first blocks have 2^%s as their largest common power, the alignment is %d, got %s" % (best if best is not None else "(none in use)", want, got), FN):
            return
        for n, kind in enumerate(kinds):
            elem = None if kind is None else ('zero', 0) if n == 1 else ('v', kind)
            ctx.count('steps evaluated')
            nb = best if elem is None else min(11 if best is None else best, 11 if elem[0] == 'zero' else elem[1])
            r = ev.step(st, elem)
            for what, at in ev.panics:
                ctx.ok(False, 'panic:%s:%s' % (what, at.fn), 'no panic (%s)' % what, at.where())
                return
            if r[0] == 'exit':
                ok = nb == 0 and r[1] == 1
                if not ctx.ok(ok, 'early', 'stopping before all partitions are seen is right only when the alignment is 1, got %s' % (r[1],), FN):
                    return
                continue
            nxt = (r[1], nb)
            if nxt not in seen:
                seen.add(nxt)
                todo.append(nxt)
    ctx.ok(True, 'states', '%d states' % len(seen))


ALL = [None, ('zero', 0)] + [('v', v) for v in range(64)]


def sets(ctx, s, ev):
    """every search over the partitions is answered by the kinds that are present; all sets of kinds are tried"""
    ev.answers = {}
    low = [('v', v) for v in range(12)]
    top_loops = Ev('loop', TRUE, None, (), events=[e for e in s.events if e.kind == 'loop'])
    for bits in range(1 << len(low)):
        for extra in ((), (None,)) if bits else ((None,),):
            ctx.count('loop states visited')
            ctx.count('steps evaluated')
            ev.env, ev.memo, ev.panics, ev.elem, ev.mode = {}, {}, [], None, 'end'
            ev.kinds = [k for i, k in enumerate(low) if bits >> i & 1] + list(extra)
            want = 1 << min([11] + [k[1] for k in ev.kinds if k])
            ok = ev.truth(assume(s.pc, ~ev.empty))
            got = ev.ev(assume(s.ret, ~ev.empty)) if ok else 'no result'
            ev.check(top_loops, 0)
            if ev.panics:
                ctx.ok(False, 'panic', 'no panic', ev.panics[0][1].where())
                return
            if got != want:
                ctx.ok(False, 'result', 'for first blocks that are odd multiples of %s, the alignment is %d, got %s' % (sorted(1 << k[1] for k in ev.kinds if k), want, got), FN)
                return
    ctx.ok(True, 'result', 'all sets of kinds')
    same = all(r[k] == r['v', 11] for r in ev.answers.values() for k in ALL[1:] if k[0] == 'zero' or k[1] >= 11)
    ctx.ok(same, 'kinds', 'first blocks that are multiples of 2048 are not told apart', FN)


def holds_sat(f):
    return f is not FALSE and Lin().sat(f) is not None


class State:
    """values of the carried locations of each loop over the partitions"""
    __slots__ = ('loops',)

    def __init__(self, loops):
        self.loops = loops

    def __eq__(self, o):
        return self.loops == o.loops

    def __hash__(self):
        return hash(self.loops)


class Eval:
    def __init__(self, s, w, pt):
        self.s, self.w, self.pt = s, w, pt
        self.map = None
        self.inner = {}
        self.steps = 0
        d = pre(s)
        self.map = fld(d, 'partitions')
        self.len = P(mk('app', ('maplen', self.map)))
        self.empty = ieq(self.len, ZERO)

    kinds = None

    def some(self, L, cond):
        """some partition of the present kinds satisfies the condition of a search"""
        key = (L.lid, cond, tuple(sorted((k.id if isinstance(k, T) else -1, repr(v)) for k, v in self.env.items())))
        if self.searches(cond):
            key += (tuple(self.kinds),)
        r = self.answers.get(key)
        if r is None:
            if any(x.op == 'mu' and x.a[0] == L.lid for x in all_terms(cond)):
                raise Undecided('a search that carries values')
            mode, elem, memo = self.mode, self.elem, self.memo
            r = self.answers[key] = {}
            for k in ALL:
                self.mode, self.elem, self.memo = 'step', k, {}
                r[k] = self.truth(cond)
            self.mode, self.elem, self.memo = mode, elem, memo
        return any(r[k] for k in self.kinds)

    def searches(self, cond, memo={}):
        r = memo.get(cond)
        if r is None:
            r = memo[cond] = any(x.op in ('first', 'exists', 'mu') for x in all_terms(cond))
        return r

    def finish(self, loops):
        """the loops over the partitions, in order"""
        self.loops = loops
        self.bylid = {lid: L for lid, (d, L) in self.s.I.loopinfo.items()}
        self.over = [L for L in self.bylid.values() if L.bound is not None and veq_(L.bound, self.len)]
        if all(L in self.over for L in loops):
            return True
        # questions about all partitions inside another loop
        self.loops = []
        return False

    # ---- states
    def initial(self):
        self.env = {}
        self.panics = []
        out = []
        for L in self.loops:
            out.append(tuple((q, self.ev(x[0])) for q, x in sorted(L.locs.items(), key=repr) if self.carried(x)))
        return State(tuple(out))

    def carried(self, x):
        """locations with a closed form in the iteration number alone (positions of iterators) are not needed"""
        return x[2] is None

    def bind(self, st, elem, mode):
        self.env = {}
        self.elem, self.mode = elem, mode
        self.memo = {}
        for L, vals in zip(self.loops, st.loops):
            for q, v in vals:
                m = L.locs[q][1]
                self.env[self.muname(m)] = v

    def muname(self, m):
        a = ATOMS_(m)
        return (a.a[0], a.a[1])

    def result(self, st):
        self.bind(st, None, 'end')
        self.panics = []
        r = self.ev(assume(self.s.ret, ~self.empty))
        if not self.truth(assume(self.s.pc, ~self.empty)):
            return 'no result'
        return r

    def step(self, st, elem):
        self.panics = []
        out = []
        self.bind(st, elem, 'step')
        for L, vals in zip(self.loops, st.loops):
            if not self.truth(assume(L.guard, ~self.empty)):
                out.append(vals)
                continue
            self.check(L, 0)
            if self.panics:
                return ('panic',)
            if self.truth(L.exit_cond):
                self.mode = 'exit'
                self.memo = {}
                return ('exit', self.ev(assume(self.s.ret, ~self.empty)))
            out.append(tuple((q, self.ev(L.step[q])) for q, _ in vals))
        return ('next', State(tuple(out)))

    def check(self, L, depth):
        if self.kinds is not None and L in self.over:
            mode, elem = self.mode, self.elem
            for self.elem in self.kinds:
                self.mode, self.memo = 'step', {}
                for e in L.events:
                    if e.kind != 'panic' or self.truth(e.guard):
                        self.panics.append((e.kind, e))
            self.mode, self.elem, self.memo = mode, elem, {}
            return
        for e in L.events:
            if e.kind == 'panic' and self.truth(e.guard):
                self.panics.append((e.what, e))
            elif e.kind == 'loop' and self.truth(e.guard):
                if self.kinds is not None and e in self.over:
                    self.check(e, depth + 1)
                    continue
                n = self.count(e)
                for k in range(n + 1):
                    self.env[e.lv] = k
                    self.memo = {}
                    self.check(e, depth + 1)
                self.env.pop(e.lv, None)
                self.memo = {}

    def count(self, L):
        """iterations of an inner loop before it ends"""
        old = self.env.get(L.lv)
        try:
            for k in range(LIMIT):
                self.env[L.lv] = k
                self.memo = {}
                if L.bound is not None and self.ev(L.bound) <= k:
                    return k
                if self.truth(L.exit_cond):
                    return k
        finally:
            if old is None:
                self.env.pop(L.lv, None)
            else:
                self.env[L.lv] = old
            self.memo = {}
        raise Diverges('%s does not end for a first block that is %s' % (L.d.get('name', 'a loop').split('@')[0], self.elem))

    def inner_mu(self, lid, no, k):
        """value of a location of an inner loop at iteration k"""
        L = self.bylid.get(str(lid)) or self.bylid.get(lid)
        if L is None:
            raise Undecided('a value of an unknown loop')
        k = self.ev(k)
        if not isinstance(k, int) or k > LIMIT:
            raise Undecided('iteration number')
        old = dict(self.env)
        try:
            vals = {q: self.ev(x[0]) for q, x in L.locs.items() if x[2] is None}
            for i in range(k):
                self.env[L.lv] = i
                for q, v in vals.items():
                    self.env[self.muname(L.locs[q][1])] = v
                self.memo = {}
                vals = {q: self.ev(L.step[q]) for q in vals}
            for q, v in vals.items():
                if self.muname(L.locs[q][1]) == (lid, no):
                    return v
        finally:
            self.env = old
            self.memo = {}
        raise Undecided('a value of a loop')

    # ---- conditions
    def truth(self, f):
        if f is TRUE or f is FALSE:
            return f is TRUE
        try:
            b = self.atom(tm.ATOMS[f.v])
        except Undecided:
            x, y = self.truth(f.hi), self.truth(f.lo)
            if x != y:
                raise
            return x
        return self.truth(f.hi if b else f.lo)

    def atom(self, a):
        if a.op == 'eq0':
            if a is tm.ATOMS[self.empty.v]:
                return False
            v = self.ev(a.a[0])
            if isinstance(v, int):
                return v == 0
            if v.lo > 0 or v.hi < 0 or v.v is not None:
                return False
            raise Undecided(show(a)[:200])
        if a.op == 'ge0':
            p = a.a[0]
            if self.inside(p):
                return True
            v = self.ev(p)
            if isinstance(v, int):
                return v >= 0
            if v.lo >= 0:
                return True
            if v.hi < 0:
                return False
            raise Undecided(show(a)[:200])
        if a.op == 'eqv' and self.kinds is not None and self.mode == 'end':
            raise Undecided('a partition outside a loop')
        if a.op == 'eqv':
            g, x = a.a if a.a[0].op in ('agg', 'seq') else (a.a[1], a.a[0])
            if self.mode != 'end' and self.unused(g, x):
                return self.elem is None
            raise Undecided(show(a)[:200])
        if a.op == 'app' and a.a[0] == 'ispow2':
            v = self.ev(a.a[1])
            if isinstance(v, int):
                return v > 0 and v & (v - 1) == 0
        if a.op == 'exists':
            for L in self.loops:
                if a.a[0] is L.lv:
                    return self.mode == 'exit'
            for L in self.over:
                if a.a[0] is L.lv and self.kinds is not None:
                    return self.some(L, a.a[2])
            for L in self.bylid.values():
                if a.a[0] is L.lv and L.bound is not None and L.exit_cond is not FALSE:
                    n, bound = self.count(L), self.ev(L.bound)
                    return n < bound
        if a.op == 'isv':
            v = self.ev(a.a[0])
            if isinstance(v, tuple) and v[0] == 'agg':
                return v[1] == a.a[1]
        if a.op == 'mu':
            v = self.env.get((a.a[0], a.a[1]))
            if isinstance(v, bool):
                return v
        raise Undecided(show(a)[:200])

    def inside(self, p):
        """the current iteration is below the number of partitions"""
        for L in self.loops or self.over:
            if p is sub(sub(self.len, P(L.lv)), ONE):
                return True
        return False

    def unused(self, g, x):
        """x is the type of the current partition and g the type of unused entries"""
        for pth in (('part_type_guid', 'guid'), ('part_type_guid',)):
            e = self.field(x, pth)
            if e:
                z = [t for t in all_terms(g) if t.op == 'seq']
                return len(z) == 1 and len(z[0].a) == 1 and all(cval(b) == 0 for b in z[0].a[0][1:]) and len(z[0].a[0]) == 17
        return False

    def field(self, x, names):
        """x is that field of the current partition"""
        for nm in reversed(names):
            if x.op != 'proj':
                return False
            b = x.a[0]
            t = b.ty
            if t is None or t.k != 'adt' or x.a[2] != fidx_(t, nm):
                return False
            x = b
        return x.ty is not None and x.ty.path == PART and self.current(x)

    def current(self, x):
        if x.op == 'app' and x.a[0] == 'mapget' and x.a[1] is self.map:
            k = x.a[2]
            for L in self.loops or self.over:
                for i in (P(L.lv),) + ((L.first,) if L.d.get('first') is not None else ()):
                    if k is P(mk('app', ('mapkey', self.map, i))) or any(y.op == 'app' and y.a[0] == 'mapkey' and y.a[1] is self.map and y.a[2] is i for y in top(k)):
                        return True
        return False

    # ---- values
    def ev(self, t):
        if isinstance(t, B):
            return self.truth(t)
        if isinstance(t, (int, bool)):
            return t
        r = self.memo.get(t) if hasattr(self, 'memo') else None
        if r is None:
            r = self.value(t)
            if hasattr(self, 'memo'):
                self.memo[t] = r
        return r

    def value(self, t):
        self.steps += 1
        if t.op == 'poly':
            return self.poly(t)
        if t.op == 'ite':
            return self.ev(t.a[1] if self.truth(t.a[0]) else t.a[2])
        if t.op == 'lv':
            if t in self.env:
                return self.env[t]
            raise Undecided('iteration number of ' + show(t))
        if t.op == 'mu':
            k = (t.a[0], t.a[1])
            if k in self.env:
                return self.env[k]
            return self.inner_mu(t.a[0], t.a[1], t.a[2])
        if t.op == 'first':
            for L in self.bylid.values():
                if L.lv is t.a[0] and L.bound is None or L.lv is t.a[0] and L not in self.loops:
                    return self.count(L)
            raise Undecided(show(t)[:200])
        if t.op == 'agg':
            return ('agg', t.a[0], t.ty.s if t.ty is not None else '') + tuple(self.ev(x) for x in t.a[1:])
        if t.op == 'proj':
            if self.mode != 'end' and self.elem is not None and self.field(t, ('first_lba',)):
                return 0 if self.elem[0] == 'zero' else num(self.elem[1])
            if t.a[0].op in ('mu', 'ite', 'agg'):
                b = self.ev(t.a[0])
                if isinstance(b, tuple) and b[0] == 'agg' and b[1] == (t.a[1] or 0):
                    return b[3 + t.a[2]]
        if t.op == 'app':
            return self.app(t)
        raise Undecided(show(t)[:200])

    def poly(self, t):
        c = t.a[0]
        total = Num(c, c, None) if False else c
        for m, k in t.a[1]:
            v = 1
            for x in m:
                v = self.times(v, self.ev(x))
            total = self.plus(total, self.times(k, v))
        return total

    def times(self, a, b):
        if isinstance(a, bool) or isinstance(b, bool) or not isinstance(a, (int, Num)) or not isinstance(b, (int, Num)):
            raise Undecided('a product')
        if isinstance(a, int) and isinstance(b, int):
            return a * b
        if isinstance(a, Num) and isinstance(b, Num):
            if a.lo >= 0 and b.lo >= 0 and a.v is not None and b.v is not None:
                return Num(a.lo * b.lo, a.hi * b.hi, a.v + b.v)
            raise Undecided('a product')
        if isinstance(a, Num):
            a, b = b, a
        if a == 0:
            return 0
        lo, hi = sorted((a * b.lo, a * b.hi))
        return Num(lo, hi, None if b.v is None else b.v + val2(a))

    def plus(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        if a == 0 and isinstance(a, int):
            return b
        if b == 0 and isinstance(b, int):
            return a
        la, ha, va = (a, a, val2(a)) if isinstance(a, int) else (a.lo, a.hi, a.v)
        lb, hb, vb = (b, b, val2(b)) if isinstance(b, int) else (b.lo, b.hi, b.v)
        return Num(la + lb, ha + hb, min(va, vb) if va is not None and vb is not None and va != vb else None)

    def app(self, t):
        n, a = t.a[0], t.a[1:]
        v = [self.ev(x) for x in a if isinstance(x, (T, B))]
        ints = all(isinstance(x, int) and not isinstance(x, bool) for x in v)
        if n == 'pow2' and ints and 0 <= v[0] < 64:
            return 1 << v[0]
        if n == 'pow2' and ints and v[0] >= 64:
            return 0
        if n in ('mod', 'div') and len(v) == 2 and isinstance(v[1], int) and v[1] > 0:
            x, y = v
            if isinstance(x, int) and x >= 0:
                return x % y if n == 'mod' else x // y
            if y & (y - 1) == 0 and isinstance(x, Num) and x.v is not None and x.lo >= 0:
                e = y.bit_length() - 1
                if n == 'mod':
                    return 0 if e <= x.v else Num(1 << x.v, y - (1 << x.v), x.v)
                if e <= x.v:
                    return Num(x.lo >> e, x.hi >> e, x.v - e)
                return Num(x.lo >> e, x.hi >> e, None)
        if n == 'mod' and len(v) == 2 and isinstance(v[1], Num) and isinstance(v[0], int) and v[0] == 0 and v[1].lo > 0:
            return 0
        if n == 'trailing_zeros' and v:
            if isinstance(v[0], int):
                return 64 if v[0] == 0 else val2(v[0])
            if v[0].v is not None:
                return v[0].v
        if n in ('ilog2', 'checked_ilog2') and ints and v[0] > 0 and n == 'ilog2':
            return v[0].bit_length() - 1
        if n in ('bitBitOr', 'bitBitXor', 'bitBitAnd') and len(v) == 2:
            x, y = v
            if n == 'bitBitAnd' and not ints and any(isinstance(z, int) and z >= 0 for z in v):
                m, z = (x, y) if isinstance(x, int) else (y, x)
                if m & (m + 1) == 0 and z.v is not None and z.lo >= 0:
                    return 0 if m < 1 << z.v else Num(1 << z.v, m, z.v)
                if m < 1 << (z.v or 0):
                    return 0
            if ints:
                return x | y if n == 'bitBitOr' else x ^ y if n == 'bitBitXor' else x & y
            if n == 'bitBitOr':
                vx, vy = (val2(z) if isinstance(z, int) else z.v for z in (x, y))
                if isinstance(x, int) and x == 0:
                    return y
                if isinstance(y, int) and y == 0:
                    return x
                if vx is not None and vy is not None and min(lo_of(x), lo_of(y)) >= 0:
                    m = min(vx, vy)
                    return num(m)
        if n in ('bitShl', 'bitShr') and ints and 0 <= v[1] < 64:
            return (v[0] << v[1]) & TOP if n == 'bitShl' else v[0] >> v[1]
        raise Undecided(show(t)[:200])


def lo_of(x):
    return x if isinstance(x, int) else x.lo


def val2(x):
    return None if x == 0 else (x & -x).bit_length() - 1


def fidx_(t, nm):
    try:
        return t.findex(nm, 0)
    except Exception:
        return -1


def top(k):
    """atoms of a polynomial that is a single atom"""
    if isinstance(k, T) and k.op == 'poly':
        if k.a[0] == 0 and len(k.a[1]) == 1 and k.a[1][0][1] == 1 and len(k.a[1][0][0]) == 1:
            return [k.a[1][0][0][0]]
        return []
    return [k] if isinstance(k, T) else []


def ATOMS_(m):
    if isinstance(m, B):
        return tm.ATOMS[m.v]
    x = top(m)
    return x[0]


def veq_(a, b):
    return a is b or (isinstance(a, T) and isinstance(b, T) and holds(ieq(a, b)))
