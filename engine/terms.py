"""Value domain of the dataflow analysis: hash-consed terms with BDD guards.

 * integers are linear normal forms ("poly") over opaque atoms; arithmetic is exact (overflow is
   a separate panic site, see interp.py);
 * booleans are BDD nodes over canonicalised atomic conditions;
 * enums/structs are aggregates, or gated ("ite") joins of aggregates;
 * anything the analysis does not interpret is an uninterpreted application.
"""
import sys
sys.setrecursionlimit(200000)

# ---------------------------------------------------------------- terms


class T:
    __slots__ = ('op', 'a', 'ty', 'id', 'fv', '_r', '__weakref__')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_next = [0]


def _fv(x, acc):
    if isinstance(x, T):
        if x.fv:
            acc |= x.fv
    elif isinstance(x, B):
        f = x.fv
        if f:
            acc |= f
    elif isinstance(x, tuple):
        for y in x:
            _fv(y, acc)


_EMPTY = frozenset()
# op(lv, bound, inner...): lv is bound in inner
BINDERS = {'exists', 'first', 'count', 'flat', 'mapflat', 'fold'}


def mk(op, a=(), ty=None):
    key = (op, a, ty)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    t.ty = ty
    t.id = _next[0]
    t._r = 0
    _next[0] += 1
    if op == 'lv':
        t.fv = frozenset((t,))
    elif op in BINDERS:
        acc = set()
        for x in a[2:]:
            _fv(x, acc)
        acc.discard(a[0])
        _fv(a[1], acc)
        t.fv = frozenset(acc) if acc else _EMPTY
    else:
        acc = set()
        for x in a:
            _fv(x, acc)
        t.fv = frozenset(acc) if acc else _EMPTY
    _tab[key] = t
    return t


# ---------------------------------------------------------------- BDD


class B:
    """BDD node. var = index of an atom; terminals have var = BIG."""
    __slots__ = ('v', 'lo', 'hi', 'id', '_fv')

    def __repr__(self):
        return show(self)

    @property
    def fv(self):
        f = self._fv
        if f is None:
            acc = set()
            if self.v != BIG:
                acc |= ATOMS[self.v].fv
                acc |= self.lo.fv
                acc |= self.hi.fv
            f = frozenset(acc) if acc else _EMPTY
            self._fv = f
        return f

    def __and__(self, o):
        return bite(self, o, FALSE)

    def __or__(self, o):
        return bite(self, TRUE, o)

    def __invert__(self):
        return bite(self, FALSE, TRUE)

    def __xor__(self, o):
        return bite(self, ~o, o)

    def __lt__(self, o):
        return self.id < o.id


BIG = 1 << 60
_btab = {}
_bn = [0]


def _bmk(v, lo, hi):
    if lo is hi:
        return lo
    k = (v, lo.id, hi.id)
    n = _btab.get(k)
    if n is None:
        n = B()
        n.v, n.lo, n.hi, n._fv = v, lo, hi, None
        n.id = _bn[0]
        _bn[0] += 1
        _btab[k] = n
    return n


def _term(i):
    n = B()
    n.v, n.lo, n.hi, n._fv, n.id = BIG, None, None, _EMPTY, i
    return n


FALSE = _term(-2)
TRUE = _term(-1)
ATOMS = []          # index -> atom term
_aidx = {}          # atom term -> index
_itec = {}


def bite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    k = (f.id, g.id, h.id)
    r = _itec.get(k)
    if r is not None:
        return r
    v = min(f.v, g.v, h.v)
    f0, f1 = (f.lo, f.hi) if f.v == v else (f, f)
    g0, g1 = (g.lo, g.hi) if g.v == v else (g, g)
    h0, h1 = (h.lo, h.hi) if h.v == v else (h, h)
    r = _bmk(v, bite(f0, g0, h0), bite(f1, g1, h1))
    _itec[k] = r
    return r


def bvar(atom):
    i = _aidx.get(atom)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(atom)
        _aidx[atom] = i
    return _bmk(i, FALSE, TRUE)


def implies(a, b):
    return (a & ~b) is FALSE


_rc = {}
CARE_LIMIT = 150
_bigc = {}


def big(f):
    """more than CARE_LIMIT nodes"""
    r = _bigc.get(f.id)
    if r is None:
        seen = set()
        todo = [f]
        while todo and len(seen) <= CARE_LIMIT:
            n = todo.pop()
            if n.v == BIG or n.id in seen:
                continue
            seen.add(n.id)
            todo.append(n.lo)
            todo.append(n.hi)
        r = len(seen) > CARE_LIMIT
        _bigc[f.id] = r
    return r



def restrict(f, c):
    """simplify f under care set c (Coudert-Madre restrict)"""
    if c is FALSE:
        return FALSE
    if c is TRUE or f is TRUE or f is FALSE:
        return f
    k = (f.id, c.id)
    r = _rc.get(k)
    if r is not None:
        return r
    if not (bmask(f) & bmask(c)):
        return f
    if c.v < f.v:
        if c.lo is FALSE:
            r = restrict(f, c.hi)
        elif c.hi is FALSE:
            r = restrict(f, c.lo)
        elif big(c.lo) or big(c.hi):
            r = f           # simplification is optional: give up on large care sets
        else:
            r = restrict(f, c.lo | c.hi)
    elif c.v == f.v:
        if c.lo is FALSE:
            r = restrict(f.hi, c.hi)
        elif c.hi is FALSE:
            r = restrict(f.lo, c.lo)
        else:
            r = _bmk(f.v, restrict(f.lo, c.lo), restrict(f.hi, c.hi))
    else:
        r = _bmk(f.v, restrict(f.lo, c), restrict(f.hi, c))
    _rc[k] = r
    return r


_lits = {}


def literals(f):
    """atoms that hold / that fail on every branch of f, as two bit masks"""
    if f.v == BIG:
        return (0, 0)
    r = _lits.get(f.id)
    if r is None:
        m = 1 << f.v
        if f.lo is FALSE:
            p, n = literals(f.hi)
            r = (p | m, n)
        elif f.hi is FALSE:
            p, n = literals(f.lo)
            r = (p, n | m)
        else:
            p, n = literals(f.lo)
            q, o = literals(f.hi)
            r = (p & q, n & o)
        _lits[f.id] = r
    return r


def cube(lits):
    r = TRUE
    for i in sorted((abs(x) for x in lits), reverse=True):
        r = _bmk(i - 1, FALSE, r) if i in lits else _bmk(i - 1, r, FALSE)
    return r


_sep = {}


def separate(a, b):
    """condition that holds on the branches a and fails on the (disjoint) branches b, over few atoms if possible; atoms
    created first are dropped first"""
    k = (a.id, b.id)
    r = _sep.get(k)
    if r is not None:
        return r
    r = restrict(a, a | b)
    if not (r.v == BIG or (r.lo.v == BIG and r.hi.v == BIG)):
        for x, y, neg in ((a, b, False), (b, a, True)):
            p, n = literals(x)
            q, o = literals(y)
            m = bmask(y)
            p, n = p & ~q & m, n & ~o & m
            lits = [i + 1 for i in range(p.bit_length()) if (p >> i) & 1] + [-i - 1 for i in range(n.bit_length()) if (n >> i) & 1]
            if not lits or (y & cube(set(lits))) is not FALSE:
                continue
            lits.sort(key=abs)
            todo = [lits]
            keep = set(lits)
            while todo:
                part = todo.pop()
                less = keep - set(part)
                if (y & cube(less)) is FALSE:
                    keep = less
                elif len(part) > 1:
                    h = len(part) // 2
                    todo.append(part[h:])
                    todo.append(part[:h])
            r = cube(keep)
            if neg:
                r = ~r
            break
    _sep[k] = r
    return r


def bsupport(f, acc=None, seen=None):
    if acc is None:
        acc, seen = set(), set()
    if f.v == BIG or f.id in seen:
        return acc
    seen.add(f.id)
    acc.add(f.v)
    bsupport(f.lo, acc, seen)
    bsupport(f.hi, acc, seen)
    return acc


def single_literal(f):
    """(atom, positive) if f is one literal"""
    if f.v == BIG:
        return None
    if f.lo is FALSE and f.hi is TRUE:
        return ATOMS[f.v], True
    if f.lo is TRUE and f.hi is FALSE:
        return ATOMS[f.v], False
    return None


# ---------------------------------------------------------------- types


class Ty:
    """structural type, interned by its printed form"""
    __slots__ = ('s', 'k', 'd', 'world', 'id')

    def __repr__(self):
        return '<' + self.s + '>'

    def field_ty(self, variant, i):
        if self.k == 'tuple':
            return self.world.types[self.d['elems'][i]]
        if self.k == 'closure':
            return self.world.types[self.d['upvars'][i]]
        if self.k == 'adt':
            v = self.d['variants'][variant or 0]
            return self.world.types[v['fields'][i][1]]
        raise KeyError('field of ' + self.s)

    @property
    def elem(self):
        return self.world.types[self.d['elem']]

    @property
    def to(self):
        return self.world.types[self.d['to']]

    @property
    def path(self):
        return self.d.get('path')

    @property
    def variants(self):
        return self.d['variants']

    @property
    def args(self):
        return [self.world.types[x] if isinstance(x, int) else x for x in self.d.get('args', [])]

    def is_enum(self):
        return self.k == 'adt' and self.d['adt'] == 'enum'

    def is_struct(self):
        return (self.k == 'adt' and self.d['adt'] == 'struct') or self.k in ('tuple', 'closure')

    def nfields(self, variant=0):
        if self.k == 'tuple':
            return len(self.d['elems'])
        if self.k == 'closure':
            return len(self.d['upvars'])
        if self.k == 'adt':
            return len(self.d['variants'][variant]['fields'])
        return None

    def vindex(self, name):
        for i, v in enumerate(self.variants):
            if v['name'] == name:
                return i
        raise KeyError(name)

    def findex(self, name, variant=0):
        for i, f in enumerate(self.variants[variant]['fields']):
            if f[0] == name:
                return i
        raise KeyError(name)


TYPES = {}


class _IntTy(Ty):
    __slots__ = ()


def int_ty(bits, signed=False, name=None):
    s = name or ('i' if signed else 'u') + str(bits)
    t = TYPES.get(s)
    if t is None:
        t = Ty()
        t.s, t.k, t.d, t.world, t.id = s, 'int', {'bits': bits, 'signed': signed}, None, -1
        TYPES[s] = t
    return t


def is_int(ty):
    return ty is not None and ty.k in ('int', 'char')


# ---------------------------------------------------------------- integers (polynomials)


def I(c):
    return mk('poly', (int(c), ()))


ZERO = I(0)
ONE = I(1)


def P(atom):
    return mk('poly', (0, (((atom,), 1),)))


def cval(p):
    if isinstance(p, T) and p.op == 'poly' and not p.a[1]:
        return p.a[0]
    return None


def atom_of(p):
    if isinstance(p, T) and p.op == 'poly':
        c, it = p.a
        if c == 0 and len(it) == 1 and it[0][1] == 1 and len(it[0][0]) == 1:
            return it[0][0][0]
        return None
    return p


def _mkpoly(c, d):
    items = tuple(sorted(((m, k) for m, k in d.items() if k != 0), key=lambda x: tuple(y.id for y in x[0])))
    return mk('poly', (c, items))


def add(a, b, k=1):
    if a.op != 'poly' or b.op != 'poly':
        raise TypeError('add %r %r' % (a, b))
    if not b.a[1]:
        if b.a[0] == 0:
            return a
        return mk('poly', (a.a[0] + k * b.a[0], a.a[1]))
    d = dict(a.a[1])
    for m, c in b.a[1]:
        d[m] = d.get(m, 0) + k * c
    # merge complementary ite atoms is left to canonicalisation of ite
    return _mkpoly(a.a[0] + k * b.a[0], d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if k == 0:
        return ZERO
    if k == 1:
        return a
    return mk('poly', (a.a[0] * k, tuple((m, c * k) for m, c in a.a[1])))


def is_ite_poly(p):
    at = atom_of(p)
    return at if at is not None and at.op == 'ite' else None


_mulc = {}


def mul(a, b):
    if not a.a[1] or not b.a[1] or len(a.a[1]) > 1 or len(b.a[1]) > 1:
        k = (a, b)
        r = _mulc.get(k)
        if r is None:
            r = _mulc[k] = _mul(a, b)
        return r
    return _mul(a, b)


def _mul(a, b):
    ca, cb = cval(a), cval(b)
    if ca is not None:
        if cb is None:
            it = is_ite_poly(b)
            if it is not None and ca not in (0, 1):
                return mk_ite(it.a[0], mul(a, it.a[1]), mul(a, it.a[2]))
        return scale(b, ca)
    if cb is not None:
        return mul(b, a)
    ia = _some_ite(a)
    if ia is not None:
        c = ia.a[0]
        return mk_ite(c, mul(cof(a, c, True), cof(b, c, True)), mul(cof(a, c, False), cof(b, c, False)))
    ib = _some_ite(b)
    if ib is not None:
        c = ib.a[0]
        return mk_ite(c, mul(a, cof(b, c, True)), mul(a, cof(b, c, False)))
    d = {}
    for m1, c1 in list(a.a[1]) + ([((), a.a[0])] if a.a[0] else []):
        for m2, c2 in list(b.a[1]) + ([((), b.a[0])] if b.a[0] else []):
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            d[m] = d.get(m, 0) + c1 * c2
    c0 = d.pop((), 0)
    return _mkpoly(c0, d)


def _some_ite(p):
    for m, c in p.a[1]:
        for x in m:
            if x.op == 'ite':
                return x
    return None


def cof(p, c, val):
    """value of int poly p when BDD condition c has value val (only replaces ite atoms directly
    gated by c, recursively by BDD simplification)"""
    return assume(p, c if val else ~c)


# ---------------------------------------------------------------- ranges

INF = float('inf')


def trange(ty):
    if ty is None:
        return (-INF, INF)
    if ty.k == 'int':
        b = ty.d['bits']
        if ty.d['signed']:
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1)
        return (0, (1 << b) - 1)
    if ty.k == 'char':
        return (0, 0x10FFFF)
    return (-INF, INF)


USZ = (0, (1 << 64) - 1)
ISZ = (0, (1 << 63) - 1)


def arange(t):
    r = t._r
    if r != 0:
        return r
    r = _arange(t)
    t._r = r
    return r


def _arange(t):
    op = t.op
    if op == 'ite':
        a, b = (arange(x) if x.op == 'ite' else prange(x) for x in t.a[1:3])
        return (min(a[0], b[0]), max(a[1], b[1]))
    r = trange(t.ty)
    if op == 'app':
        n = t.a[0]
        if n == 'byte':
            return (0, 255)
        if n == 'le':
            return (0, (1 << (8 * (len(t.a) - 1))) - 1)
        if n in ('len', 'maplen', 'slen'):
            return ISZ
        if n == 'flatlen':
            a = prange(t.a[1])
            return (0, INF)
        if n == 'div':
            a, b = prange(t.a[1]), prange(t.a[2])
            if a[0] >= 0 and b[0] >= 1:
                hi = a[1] if a[1] == INF else a[1] // b[0]
                lo = 0 if b[1] == INF else (0 if a[0] == INF else a[0] // b[1])
                return (max(lo, 0), min(hi, r[1]))
        if n == 'mod':
            a, b = prange(t.a[1]), prange(t.a[2])
            if a[0] >= 0 and b[0] >= 1:
                hi = b[1] - 1
                return (0, min(hi, a[1]))
        if n == 'ival':
            return arange(t.a[1]) if t.a[1].op == 'ite' else prange(t.a[1])
        if n == 'first':
            return (0, INF)
        if n == 'count':
            return (0, INF)
    if op in ('lv', 'first', 'count'):
        return (0, INF)
    return r


def mrange(m):
    lo, hi = 1, 1
    for x in m:
        a, b = arange(x)
        c = []
        for u in (lo, hi):
            for v in (a, b):
                if u == 0 or v == 0:
                    c.append(0)
                else:
                    c.append(u * v)
        lo, hi = min(c), max(c)
    return lo, hi


def prange(p):
    r = p._r
    if r != 0:
        return r
    lo = hi = p.a[0]
    for m, c in p.a[1]:
        a, b = mrange(m)
        x, y = a * c, b * c
        if x > y:
            x, y = y, x
        lo += x
        hi += y
    p._r = (lo, hi)
    return lo, hi


# ---------------------------------------------------------------- comparisons


def _norm_sign(p):
    """canonical sign: leading monomial positive"""
    return p.a[1][0][1] > 0


from math import gcd


def _gcd(p):
    g = 0
    for m, c in p.a[1]:
        g = gcd(g, abs(c))
    return g


def _lift(p, f):
    it = _some_ite(p)
    if it is not None:
        c = it.a[0]
        return bite(c, f(assume(p, c)), f(assume(p, ~c)))
    return None


_ge0c = {}


def ge0(p):
    """p >= 0"""
    r = _ge0c.get(p)
    if r is None:
        r = _ge0(p)
        _ge0c[p] = r
    return r


def _ge0(p):
    lo, hi = prange(p)
    if lo >= 0:
        return TRUE
    if hi < 0:
        return FALSE
    r = _lift(p, ge0)
    if r is not None:
        return r
    g = _gcd(p)
    if g > 1:
        p = mk('poly', (p.a[0] // g, tuple((m, c // g) for m, c in p.a[1])))
    # x >= 0 with x a nonneg atom and p = x - 1  ==  not (x == 0)
    if len(p.a[1]) == 1 and len(p.a[1][0][0]) == 1:
        (m, c), = p.a[1]
        at = m[0]
        alo, ahi = arange(at)
        if c == 1 and -p.a[0] == alo + 1:
            return ~eq0(add(P(at), I(-alo)))
        if c == -1 and p.a[0] == alo:
            return eq0(add(P(at), I(-alo)))
        if c == 1 and -p.a[0] == ahi:
            return eq0(add(P(at), I(-ahi)))
        if c == -1 and p.a[0] == ahi - 1:
            return ~eq0(add(P(at), I(-ahi)))
    if _norm_sign(p):
        return bvar(mk('ge0', (p,)))
    n = add(scale(p, -1), I(-1))
    return ~bvar(mk('ge0', (n,)))


_eq0c = {}


def eq0(p):
    r = _eq0c.get(p)
    if r is None:
        r = _eq0(p)
        _eq0c[p] = r
    return r


def _eq0(p):
    lo, hi = prange(p)
    if lo == hi == 0:
        return TRUE
    if lo > 0 or hi < 0:
        return FALSE
    r = _lift(p, eq0)
    if r is not None:
        return r
    g = _gcd(p)
    if g > 1:
        if p.a[0] % g:
            return FALSE
        p = mk('poly', (p.a[0] // g, tuple((m, c // g) for m, c in p.a[1])))
    if not _norm_sign(p):
        p = scale(p, -1)
    return bvar(mk('eq0', (p,)))


def lt(a, b):
    return ge0(add(sub(b, a), I(-1)))


def le(a, b):
    return ge0(sub(b, a))


def ieq(a, b):
    return eq0(sub(a, b))


# ---------------------------------------------------------------- generic constructors

BOT = mk('bottom')
UNIT_TY = None


def app(name, *args, ty=None):
    """uninterpreted application, wrapped according to type"""
    return wrap(mk('app', (name,) + args, ty))


def wrap(t):
    ty = t.ty
    if ty is None:
        return t
    if ty.k in ('int', 'char'):
        lo, hi = arange(t)
        return P(t)
    if ty.k == 'bool':
        return bvar(t)
    if ty.k == 'tuple' and not ty.d['elems']:
        return mk('agg', (0,), ty)
    return t


def sym(name, ty):
    return wrap(mk('sym', (name,), ty))


def agg(ty, variant, fields):
    fields = tuple(fields)
    # eta: struct rebuilt from its own projections
    if fields and ty is not None and ty.is_struct():
        b = _proj_base(fields[0])
        if b is not None and b[0].ty is ty and b[2] == 0:
            ok = True
            for i, f in enumerate(fields):
                x = _proj_base(f)
                if x is None or x[0] is not b[0] or x[2] != i:
                    ok = False
                    break
            if ok:
                return b[0]
    return mk('agg', (variant,) + fields, ty)


def _proj_base(f):
    if isinstance(f, B):
        l = single_literal(f)
        if l is None or not l[1]:
            return None
        f = l[0]
    else:
        f = atom_of(f)
        if f is None:
            return None
    if f.op == 'proj':
        return f.a
    if f.op == 'valref':
        return None
    return None


def proj(t, variant, i, fty):
    if isinstance(t, B) or t.op == 'poly':
        return BOT
    if t.op == 'agg':
        if t.ty is not None and t.ty.is_enum() and variant is not None and t.a[0] != variant:
            return BOT
        return t.a[1 + i]
    if t.op == 'ite':
        return mk_ite(t.a[0], proj(t.a[1], variant, i, fty), proj(t.a[2], variant, i, fty))
    if t.op == 'bottom':
        return BOT
    if variant is None:
        variant = 0
    return wrap(mk('proj', (t, variant, i), fty))


def isv(t, v):
    """t is enum value of variant v"""
    if t.op == 'agg':
        return TRUE if t.a[0] == v else FALSE
    if t.op == 'ite':
        return bite(t.a[0], isv(t.a[1], v), isv(t.a[2], v))
    if t.op == 'bottom':
        return FALSE
    ty = t.ty
    n = len(ty.variants)
    if n == 1:
        return TRUE
    if n == 2:
        # one atom per two-variant enum
        a = bvar(mk('isv', (t, 0)))
        return a if v == 0 else ~a
    # chain encoding keeps variants exclusive
    r = TRUE
    for j in range(n - 1):
        a = bvar(mk('isv', (t, j)))
        if j == v:
            return r & a
        r = r & ~a
    return r


def disc(t):
    """discriminant value"""
    if t.op == 'agg':
        return I(t.ty.variants[t.a[0]]['discr'])
    if t.op == 'ite':
        return mk_ite(t.a[0], disc(t.a[1]), disc(t.a[2]))
    if t.op == 'bottom':
        return BOT
    ty = t.ty
    vs = ty.variants
    r = I(vs[-1]['discr'])
    for j in range(len(vs) - 2, -1, -1):
        r = mk_ite(bvar(mk('isv', (t, j))), I(vs[j]['discr']), r)
    return r


_isimp = {}


def topv(x):
    """BDD variable on top of the decision spine of a value"""
    if isinstance(x, B):
        return x.v
    if x.op == 'ite':
        return x.a[0].v
    if x.op == 'poly':
        p = x.a
        if p[0] == 0 and len(p[1]) == 1:
            m, k = p[1][0]
            if k == 1 and len(m) == 1 and m[0].op == 'ite':
                return m[0].a[0].v
    return BIG


def _cofs(x, v):
    if isinstance(x, B):
        return (x.lo, x.hi) if x.v == v else (x, x)
    if x.op == 'poly':
        y = atom_of(x)
        if y is not None and y.op == 'ite' and y.a[0].v == v:
            return y.a[2], y.a[1]
        return x, x
    if x.op == 'ite' and x.a[0].v == v:
        return x.a[2], x.a[1]
    return x, x


def mk_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is BOT:
        return b
    if b is BOT:
        return a
    if isinstance(a, B) and isinstance(b, B):
        return bite(c, a, b)
    if isinstance(a, B) or isinstance(b, B):
        return mk('junk', (c, a, b))   # ill-typed join (dead temp)
    k = (c, a, b)
    r = _isimp.get(k)
    if r is not None:
        return r
    if a.op == b.op and a.op in _PUSH:
        r = _merge(c, a, b)
        if r is not None:
            _isimp[k] = r
            return r
    v = min(c.v, topv(a), topv(b))
    c0, c1 = (c.lo, c.hi) if c.v == v else (c, c)
    a0, a1 = _cofs(a, v)
    b0, b1 = _cofs(b, v)
    r = _node(v, mk_ite(c1, a1, b1), mk_ite(c0, a0, b0))
    _isimp[k] = r
    return r


_PUSH = {'agg', 'valref', 'cur', 'devst', 'iter', 'openopts', 'ref', 'seq'}


def _merge(c, a, b):
    """join of two values with the same head: push the condition into the components"""
    if a is b:
        return a
    if a.op == 'agg' and b.op == 'agg' and a.ty is b.ty and a.a[0] == b.a[0] and len(a.a) == len(b.a) and not (
            a.ty is not None and a.ty.s == 'uuid::Uuid'):
        return agg(a.ty, a.a[0], [mk_ite(c, x, y) for x, y in zip(a.a[1:], b.a[1:])])
    if a.op == b.op and a.op in ('valref',):
        return mk(a.op, (mk_ite(c, a.a[0], b.a[0]),), a.ty)
    if a.op == b.op and a.op in ('cur', 'devst'):
        return mk(a.op, (mk_ite(c, a.a[0], b.a[0]), mk_ite(c, a.a[1], b.a[1])), a.ty)
    if a.op == 'iter' and b.op == 'iter' and a.a[0] is b.a[0] and a.a[2] == b.a[2]:
        return mk('iter', (a.a[0], mk_ite(c, a.a[1], b.a[1]), a.a[2]) + tuple(mk_ite(c, x, y) for x, y in zip(a.a[3:], b.a[3:])), a.ty)
    if a.op == 'openopts' and b.op == 'openopts':
        return mk('openopts', tuple(mk_ite(c, x, y) for x, y in zip(a.a, b.a)), a.ty)
    if a.op == 'ref' and b.op == 'ref' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
        path = []
        for p, q in zip(a.a[1], b.a[1]):
            if p == q:
                path.append(p)
            elif p[0] == q[0] == 'idx':
                path.append(('idx', mk_ite(c, p[1], q[1])))
            else:
                path = None
                break
        if path is not None:
            return mk('ref', (a.a[0], tuple(path)), a.ty)
    if a.op == 'seq' and b.op == 'seq' and len(a.a) == len(b.a):
        segs = []
        ok = True
        for x, y in zip(a.a, b.a):
            if x == y:
                segs.append(x)
            elif x[0] == y[0] == 'lit' and len(x) == len(y):
                segs.append(('lit',) + tuple(mk_ite(c, p, q) for p, q in zip(x[1:], y[1:])))
            elif x[0] == y[0] == 'rep' and x[1] is y[1]:
                segs.append(('rep', x[1], mk_ite(c, x[2], y[2])))
            else:
                ok = False
                break
        if ok:
            return mk('seq', tuple(segs), a.ty)
    return None


def _node(v, a, b):
    c = _bmk(v, FALSE, TRUE)
    a, b = assume(a, c), assume(b, ~c)
    if a is b:
        return a
    if a is BOT:
        return b
    if b is BOT:
        return a
    if isinstance(a, B) and isinstance(b, B):
        return bite(c, a, b)
    at = ATOMS[v]
    if at.op == 'eqv':
        # under x == const the two are interchangeable: keep x
        if a is at.a[0]:
            a2 = at.a[1]
        elif a is at.a[1]:
            a2 = at.a[0]
        else:
            a2 = None
        if a2 is b:
            return b
    if a.op == 'poly' and b.op == 'poly':
        return P(mk('ite', (c, a, b), None))
    r = _merge(c, a, b)
    if r is not None:
        return r
    # enum eta: ite(isv(t,v), V(proj t..), W(proj t ..)) = t
    if at.op == 'isv' and a.op == 'agg' and b.op == 'agg' and a.ty is b.ty and a.ty is not None:
        t, w = at.a
        if t.ty is a.ty and len(t.ty.variants) == 2:
            if a.a[0] == w and b.a[0] == 1 - w and _is_projs(a, t) and _is_projs(b, t):
                return t
    return mk('ite', (c, a, b), a.ty if a.ty is b.ty else None)


def _is_projs(x, t):
    for i, f in enumerate(x.a[1:]):
        p = _proj_base(f)
        if p is None or p[0] is not t or p[1] != x.a[0] or p[2] != i:
            return False
    return True


# ---------------------------------------------------------------- simplification under a guard

_as = {}


def assume(t, pc):
    """t simplified knowing the guard pc holds"""
    if pc is TRUE:
        return t
    if isinstance(t, B):
        return restrict(t, pc)
    if t.op in ('sym', 'lv', 'bottom', 'fn'):
        return t
    if not (vmask(t) & bmask(pc)):
        return t
    k = (t, pc)
    r = _as.get(k)
    if r is not None:
        return r
    r = _assume(t, pc)
    _as[k] = r
    return r


_bm = {}


def bmask(f):
    """set of variables of a BDD, as a bit mask"""
    if f.v == BIG:
        return 0
    r = _bm.get(f.id)
    if r is None:
        r = (1 << f.v) | bmask(f.lo) | bmask(f.hi)
        _bm[f.id] = r
    return r


_vm = {}
_DEEP = {'agg', 'valref', 'seq', 'cur', 'devst', 'iter', 'app', 'proj', 'mapins', 'maprem', 'ref', 'openopts', 'crcd', 'src'}


def vmask(t):
    """BDD variables at the value level of t (what assume can simplify)"""
    if isinstance(t, B):
        return bmask(t)
    if isinstance(t, tuple):
        r = 0
        for x in t:
            r |= vmask(x)
        return r
    if not isinstance(t, T):
        return 0
    r = _vm.get(t)
    if r is not None:
        return r
    r = 0
    if t.op == 'ite':
        r = bmask(t.a[0]) | vmask(t.a[1]) | vmask(t.a[2])
    elif t.op == 'poly':
        for m, c in t.a[1]:
            for x in m:
                r |= vmask(x)
    elif t.op in _DEEP:
        for x in t.a:
            r |= vmask(x)
    _vm[t] = r
    return r


_hi = {}


def has_ite(t):
    """contains a gated join (or a BDD) that can be simplified at the value level"""
    if isinstance(t, B):
        return t.v != BIG
    if isinstance(t, tuple):
        for x in t:
            if has_ite(x):
                return True
        return False
    if not isinstance(t, T):
        return False
    r = _hi.get(t)
    if r is not None:
        return r
    if t.op == 'ite':
        r = True
    elif t.op in ('poly',):
        r = any(x.op == 'ite' or has_ite(x) for m, c in t.a[1] for x in m)
    elif t.op in ('agg', 'valref', 'seq', 'cur', 'devst', 'iter', 'app', 'proj', 'mapins', 'maprem', 'ref'):
        r = any(has_ite(x) for x in t.a)
    else:
        r = False
    _hi[t] = r
    return r


def _assume(t, pc):
    op = t.op
    if op == 'ite':
        c, a, b = t.a
        c2 = restrict(c, pc)
        if c2 is TRUE or implies(pc, c):
            return assume(a, pc)
        if c2 is FALSE or implies(pc, ~c):
            return assume(b, pc)
        a2, b2 = assume(a, restrict(pc, c)), assume(b, restrict(pc, ~c))
        if a2 is a and b2 is b:
            return t
        return mk_ite(c, a2, b2)
    if op == 'poly':
        c0, items = t.a
        r = I(c0)
        ch = False
        for m, c in items:
            q = I(c)
            hit = False
            for x in m:
                y = assume(x, pc)
                if y is not x:
                    hit = True
                q = mul(q, y if isinstance(y, T) and y.op == 'poly' else P(y))
            ch |= hit
            r = add(r, q)
        return r if ch else t
    new = map_args(t, lambda x: assume(x, pc))
    return new


def map_args(t, f):
    """rebuild t with f applied to every sub term/BDD"""
    ch = [False]

    def g(x):
        if isinstance(x, (T, B)):
            y = f(x)
            if y is not x:
                ch[0] = True
            return y
        if isinstance(x, tuple):
            return tuple(g(y) for y in x)
        return x
    a = tuple(g(x) for x in t.a)
    if not ch[0]:
        return t
    return rebuild(t.op, a, t.ty, t)


REBUILD = {}


def rebuild(op, a, ty, old=None):
    if op == 'poly':
        raise AssertionError
    if op == 'ite':
        return mk_ite(*a)
    if op == 'agg':
        return agg(ty, a[0], a[1:])
    if op == 'proj':
        return proj(a[0], a[1], a[2], ty)
    if op == 'isv':
        return isv(a[0], a[1])
    if op == 'ge0':
        return ge0(a[0])
    if op == 'eq0':
        return eq0(a[0])
    f = REBUILD.get(op)
    if f is not None:
        return f(a, ty)
    if op == 'app':
        f = REBUILD.get('app:' + a[0])
        if f is not None:
            return f(a[1:], ty)
        return wrap(mk('app', a, ty))
    return mk(op, a, ty)


# ---------------------------------------------------------------- substitution of loop variables


def subst(t, m):
    """m: {lv term -> int poly}"""
    memo = {}
    keys = frozenset(m)

    def go(x):
        if isinstance(x, (T, B)):
            if not (x.fv & keys):
                return x
        else:
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if isinstance(x, B):
            r = bite(goatom(ATOMS[x.v]), go(x.hi), go(x.lo))
        elif x.op == 'lv':
            r = m.get(x, x)
        elif x.op == 'poly':
            c0, items = x.a
            r = I(c0)
            for mo, c in items:
                q = I(c)
                for y in mo:
                    z = go(y)
                    if isinstance(z, B):
                        raise TypeError
                    q = mul(q, z if z.op == 'poly' else P(z))
                r = add(r, q)
        elif x.op == 'ite':
            r = mk_ite(go(x.a[0]), go(x.a[1]), go(x.a[2]))
        elif x.op in BINDERS and x.a[0] in keys:
            # the bound variable shadows: substitute in the bound, and the others inside
            m2 = {q: w for q, w in m.items() if q is not x.a[0]}
            inner = tuple(_subst_any(y, m2) for y in x.a[2:]) if m2 else x.a[2:]
            r = rebuild(x.op, (x.a[0], go(x.a[1])) + inner, x.ty, x)
        else:
            a = tuple(go(y) for y in x.a)
            r = rebuild(x.op, a, x.ty, x)
        memo[x] = r
        return r

    def goatom(at):
        r = go(at)
        if isinstance(r, B):
            return r
        if isinstance(r, T) and r.op == 'poly':
            raise TypeError('atom became int')
        return bvar(r)

    return go(t)


def _subst_any(x, m):
    if isinstance(x, (T, B)):
        return subst(x, m)
    if isinstance(x, tuple):
        return tuple(_subst_any(y, m) for y in x)
    return x


# ---------------------------------------------------------------- generic equality

EQHOOKS = []


def veq(a, b):
    """BDD for a == b (structural equality)"""
    if a is b:
        return TRUE
    if isinstance(a, B) and isinstance(b, B):
        return ~(a ^ b)
    if isinstance(a, B) or isinstance(b, B):
        raise TypeError('veq bool/term')
    if a is BOT or b is BOT:
        return FALSE
    if a.op == 'poly' and b.op == 'poly':
        return ieq(a, b)
    if a.op == 'ite' or b.op == 'ite':
        key = (a.id, b.id)
        r = _VEQ.get(key)
        if r is None:
            r = _VEQ[key] = _veq(a, b)
        return r
    return _veq(a, b)


_VEQ = {}


def _veq(a, b):
    for h in EQHOOKS:
        r = h(a, b)
        if r is not None:
            return r
    if a.op == 'ite':
        return bite(a.a[0], veq(a.a[1], b), veq(a.a[2], b))
    if b.op == 'ite':
        return bite(b.a[0], veq(a, b.a[1]), veq(a, b.a[2]))
    if a.op == 'valref' and b.op == 'valref':
        return veq(a.a[0], b.a[0])
    if a.op == 'agg' and b.op == 'agg':
        if a.a[0] != b.a[0] or len(a.a) != len(b.a):
            return FALSE
        r = TRUE
        for x, y in zip(a.a[1:], b.a[1:]):
            r = r & veq(x, y)
            if r is FALSE:
                break
        return r
    ty = a.ty or b.ty
    if ty is not None and ty.k in ('adt', 'tuple') and (a.op == 'agg' or b.op == 'agg'):
        if a.op != 'agg':
            a, b = b, a
        v = a.a[0]
        r = isv(b, v) if ty.is_enum() else TRUE
        for i, x in enumerate(a.a[1:]):
            r = r & veq(x, proj(b, v, i, ty.field_ty(v, i)))
        return r
    x, y = (a, b) if a.id < b.id else (b, a)
    return bvar(mk('eqv', (x, y)))


REBUILD['eqv'] = lambda a, ty: veq(a[0], a[1])


# ---------------------------------------------------------------- printing


def show(x, d=0):
    if d > 7:
        return '…'
    if isinstance(x, B):
        if x is TRUE:
            return 'true'
        if x is FALSE:
            return 'false'
        l = single_literal(x)
        if l:
            return ('' if l[1] else '!') + show(ATOMS[x.v], d + 1)
        # conjunction chain
        parts = []
        n = x
        while n.v != BIG:
            if n.lo is FALSE:
                parts.append(show(ATOMS[n.v], d + 2))
                n = n.hi
            elif n.hi is FALSE:
                parts.append('!' + show(ATOMS[n.v], d + 2))
                n = n.lo
            else:
                break
        if n is TRUE:
            return '(' + ' & '.join(parts) + ')'
        s = 'if %s {%s} else {%s}' % (show(ATOMS[n.v], d + 2), show(n.hi, d + 2), show(n.lo, d + 2))
        return '(' + ' & '.join(parts + [s]) + ')'
    if isinstance(x, tuple):
        return '(' + ','.join(show(y, d + 1) for y in x) + ')'
    if not isinstance(x, T):
        return str(x)
    op = x.op
    if op == 'poly':
        c, it = x.a
        s = []
        for m, k in it:
            ms = '*'.join(show(y, d + 1) for y in m)
            s.append(ms if k == 1 else '%d*%s' % (k, ms))
        if c or not s:
            s.append(str(c))
        return '+'.join(s) if len(s) == 1 else '(' + '+'.join(s) + ')'
    if op in ('sym', 'lv'):
        return str(x.a[0])
    if op == 'app':
        return '%s(%s)' % (x.a[0], ','.join(show(y, d + 1) for y in x.a[1:]))
    if op == 'agg':
        n = x.ty.s.split('<')[0].split('::')[-1] if x.ty is not None else '?'
        if x.ty is not None and x.ty.is_enum():
            n = x.ty.variants[x.a[0]]['name']
        return '%s{%s}' % (n, ','.join(show(y, d + 1) for y in x.a[1:]))
    if op == 'ite':
        return 'ite(%s, %s, %s)' % tuple(show(y, d + 1) for y in x.a)
    if op == 'proj':
        t, v, i = x.a
        n = str(i)
        try:
            n = t.ty.variants[v]['fields'][i][0]
            if t.ty.is_enum():
                n = t.ty.variants[v]['name'] + '.' + n
        except Exception:
            pass
        return '%s.%s' % (show(t, d + 1), n)
    if op == 'isv':
        try:
            return 'is_%s(%s)' % (x.a[0].ty.variants[x.a[1]]['name'], show(x.a[0], d + 1))
        except Exception:
            pass
    if op == 'ge0':
        return '(%s>=0)' % show(x.a[0], d + 1)
    if op == 'eq0':
        return '(%s==0)' % show(x.a[0], d + 1)
    if op == 'valref':
        return '&' + show(x.a[0], d)
    return '%s(%s)' % (op, ','.join(show(y, d + 1) for y in x.a))
