"""Entailment of gate formulas in the domain of (disjunctions of) integer polyhedra.

A gate formula is a BDD whose atoms are linear (in)equalities and opaque facts.  A fact is established if the
polyhedron of every branch of its complement is empty; emptiness is decided by elimination (Gauss for equalities,
Fourier-Motzkin with integer rounding for inequalities).  The domain never gives an unsound answer: if elimination
gives up, the polyhedron counts as non-empty and the fact as not established."""
from math import gcd
from .terms import *
from . import terms as tm
from .interp import int_div, int_mod

LIMIT = 4000


class Poly:
    """conjunction of constraints: dict monomial -> coefficient, constant (sum + c >= 0 or == 0)"""


def _norm(d, c, eq):
    d = {m: k for m, k in d.items() if k}
    if not d:
        if eq:
            return None if c == 0 else False
        return None if c >= 0 else False
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if eq:
        if c % g:
            return False
    d = {m: k // g for m, k in d.items()}
    return (tuple(sorted(d.items(), key=lambda x: tuple(y.id for y in x[0]))), c // g, eq)


def norm_poly(p, eq=False):
    return _norm(dict(p.a[1]), p.a[0], eq)


def _subst(con, m, expr, ec, k):
    """replace k*m = -(expr + ec) in con"""
    d = dict(con[0])
    c = d.pop(m, 0)
    if not c:
        return con
    # con: c*m + rest ; k*m + expr + ec = 0  => multiply con by |k| and eliminate
    s = abs(k)
    f = -c * s // k
    nd = {x: y * s for x, y in d.items()}
    nc = con[1] * s
    for x, y in expr.items():
        nd[x] = nd.get(x, 0) + f * y
    nc += f * ec
    return _norm(nd, nc, con[2])


def empty(cons):
    """True only if no integer point satisfies all constraints"""
    eqs = [c for c in cons if c[2]]
    ineqs = set(c for c in cons if not c[2])
    while eqs:
        e = eqs.pop()
        d = dict(e[0])
        m = min(d, key=lambda x: (abs(d[x]), tuple(y.id for y in x)))
        k = d.pop(m)
        ne = []
        for o in eqs:
            r = _subst(o, m, d, e[1], k)
            if r is False:
                return True
            if r is not None:
                ne.append(r)
        eqs = ne
        ni = set()
        for o in ineqs:
            r = _subst(o, m, d, e[1], k)
            if r is False:
                return True
            if r is not None:
                ni.add(r)
        ineqs = ni
    # inequalities: keep the strongest for each left side
    best = {}

    def put(con):
        if con is False:
            return False
        if con is None:
            return True
        o = best.get(con[0])
        if o is None or con[1] < o:
            best[con[0]] = con[1]
        return True
    for c in ineqs:
        put(c)
    while best:
        pos, neg = {}, {}
        for lhs in best:
            for m, k in lhs:
                (pos if k > 0 else neg).setdefault(m, []).append(lhs)
        # drop one-sided variables
        one = [m for m in list(pos) + list(neg) if m not in pos or m not in neg]
        if one:
            for m in one:
                for lhs in pos.get(m, []) + neg.get(m, []):
                    best.pop(lhs, None)
            continue
        m = min(pos, key=lambda x: (len(pos[x]) * len(neg[x]), tuple(y.id for y in x)))
        ps = [(l, best[l]) for l in pos[m]]
        ns = [(l, best[l]) for l in neg[m]]
        for l, _ in ps + ns:
            best.pop(l, None)
        for l, c in ps:
            dl = dict(l)
            a = dl.pop(m)
            for l2, c2 in ns:
                d2 = dict(l2)
                b = -d2.pop(m)
                nd = {x: y * b for x, y in dl.items()}
                for x, y in d2.items():
                    nd[x] = nd.get(x, 0) + y * a
                if not put(_norm(nd, c * b + c2 * a, False)):
                    return True
        if len(best) > LIMIT:
            return False
    return False


_defs = {}


def defs_of(m):
    """constraints that hold for monomial m by the types and definitions of its atoms"""
    r = _defs.get(m)
    if r is not None:
        return r
    out = []
    _defs[m] = out
    lo, hi = tm.mrange(m)
    v = mk('poly', (0, ((m, 1),)))
    if lo != -INF:
        out.append(add(v, I(-lo)))
    if hi != INF:
        out.append(sub(I(hi), v))
    for a in m:
        if a.op == 'app' and a.a[0] in ('div', 'mod'):
            x, y = a.a[1], a.a[2]
            if prange(x)[0] >= 0 and prange(y)[0] >= 1 and tm._some_ite(x) is None and tm._some_ite(y) is None:
                q = int_div(x, y)
                if tm._some_ite(q) is None:
                    if a.a[0] == 'div' and m == (a,):
                        rest = sub(x, mul(y, P(a)))
                        out += [rest, sub(add(y, I(-1)), rest)]
                    elif m == (a,):
                        rest = sub(sub(x, mul(y, q)), P(a))
                        out += [rest, scale(rest, -1), sub(add(y, I(-1)), P(a))]
        if a.op == 'first' and m == (a,) and isinstance(a.a[1], T) and a.a[1].op != 'inf':
            out.append(sub(a.a[1], P(a)))
        if a.op == 'count' and m == (a,) and tm._some_ite(a.a[1]) is None and prange(a.a[1])[0] >= 0:
            out += [sub(a.a[1], P(a)), P(a)]
    return out


def close(polys):
    """definitions of everything mentioned"""
    done = set()
    todo = list(polys)
    out = []
    while todo:
        p = todo.pop()
        for m, _ in p.a[1]:
            if m in done:
                continue
            done.add(m)
            for d in defs_of(m):
                out.append(d)
                todo.append(d)
    return out


_cdefs = {}


def cond_defs_of(m):
    """(preconditions, constraints): the definition of a division whose operands are not known to be in range by type"""
    r = _cdefs.get(m)
    if r is not None:
        return r
    out = _cdefs[m] = []
    if len(m) == 1 and m[0].op == 'app' and m[0].a[0] in ('div', 'mod'):
        a = m[0]
        x, y = a.a[1], a.a[2]
        if tm._some_ite(x) is None and tm._some_ite(y) is None and not (prange(x)[0] >= 0 and prange(y)[0] >= 1):
            if a.a[0] == 'div':
                rest = sub(x, mul(y, P(a)))
                ds = [rest, sub(add(y, I(-1)), rest), P(a)]
            else:
                ds = [P(a), sub(add(y, I(-1)), P(a))]
            out.append(([x, add(y, I(-1))], ds))
    return out


_uv = {}


def ival_of(p):
    """a guarded value (ite with at most four outcomes) inside a polynomial: its term"""
    for m, _ in p.a[1]:
        for y in m:
            if y.op == 'app' and y.a[0] == 'ival' and _outcomes(y.a[1]) <= 4:
                return y
    return None


def _outcomes(t):
    g = tm._some_ite(t)
    if g is None:
        return 1
    n = _outcomes(assume(t, g.a[0]))
    return n if n > 4 else n + _outcomes(assume(t, ~g.a[0]))


def unival(f):
    """f with the guarded values in its linear atoms resolved into cases"""
    r = _uv.get(f)
    if r is not None:
        return r
    r = f
    for v in sorted(bsupport(f)):
        at = ATOMS[v]
        if at.op in ('ge0', 'eq0') and ival_of(at.a[0]) is not None:
            g = _cases(at.op, at.a[0])
            x = bvar(at)
            r = (g & restrict(r, x)) | (~g & restrict(r, ~x))
    _uv[f] = r
    return r


def _cases(op, p):
    y = ival_of(p) if p.op == 'poly' else None
    if y is None:
        return ge0(p) if op == 'ge0' else eq0(p)

    def go(t):
        g = tm._some_ite(t)
        if g is not None:
            return (g.a[0] & go(assume(t, g.a[0]))) | (~g.a[0] & go(assume(t, ~g.a[0])))
        return _cases(op, put(p, y, t))
    return go(y.a[1])


def put(p, y, t):
    """polynomial p with the atom y replaced by the polynomial t"""
    r = I(p.a[0])
    for m, c in p.a[1]:
        x = I(c)
        for z in m:
            x = mul(x, t if z is y else P(z))
        r = add(r, x)
    return r


class Lin:
    def __init__(self, facts=()):
        self.memo = {}
        self.facts = list(facts)
        self.checks = 0
        self._e = {}

    def infeasible(self, lits):
        r = self._e.get(lits)
        if r is not None:
            return r
        self.checks += 1
        cons = []
        neqs = []
        polys = []
        for kind, p in lits:
            if kind == 'ne':
                lo, hi = prange(p)
                if lo >= 0:
                    cons.append(norm_poly(add(p, I(-1))))
                elif hi <= 0:
                    cons.append(norm_poly(add(scale(p, -1), I(-1))))
                else:
                    neqs.append(p)
            else:
                cons.append(norm_poly(p, kind == 'eq'))
            polys.append(p)
        for d in close(polys):
            cons.append(norm_poly(d))
        if any(c is False for c in cons):
            self._e[lits] = True
            return True
        cons = [c for c in cons if c is not None]
        r = empty(cons)
        if not r:
            cons, r = self._conditional(cons, polys)
        if not r and neqs:
            r = self._split(cons, neqs)
        self._e[lits] = r
        return r

    def _conditional(self, cons, polys):
        """add the definitions of divisions whose operands are in range on this branch"""
        done = set()
        while True:
            added = False
            mons = set()
            for c in cons:
                for m, _ in c[0]:
                    mons.add(m)
            for m in sorted(mons, key=lambda m: tuple(y.id for y in m)):
                if m in done:
                    continue
                for need, ds in cond_defs_of(m):
                    if all(self._must(cons, p) for p in need):
                        new = [norm_poly(d) for d in ds]
                        new += [norm_poly(d) for d in close(ds)]
                        if any(c is False for c in new):
                            return cons, True
                        cons = cons + [c for c in new if c is not None and c not in cons]
                        done.add(m)
                        added = True
            if not added:
                return cons, False
            if empty(cons):
                return cons, True

    def _must(self, cons, p):
        """p >= 0 on the whole polyhedron"""
        n = norm_poly(add(scale(p, -1), I(-1)))
        if n is False:
            return True
        return empty(cons + ([n] if n else []))

    def _split(self, cons, neqs):
        # a disequality can only matter if one side of it is empty
        for p in neqs:
            up, dn = norm_poly(add(p, I(-1))), norm_poly(add(scale(p, -1), I(-1)))
            eu = up is False or empty(cons + ([up] if up else []))
            ed = dn is False or empty(cons + ([dn] if dn else []))
            if eu and ed:
                return True
            if eu or ed:
                rest = [q for q in neqs if q is not p]
                k = dn if eu else up
                c2 = cons + ([k] if k else [])
                return self._split(c2, rest) if rest else False
        return False

    def lit(self, at, pos):
        if at.op == 'ge0':
            p = at.a[0]
            return ('ge', p if pos else add(scale(p, -1), I(-1)))
        if at.op == 'eq0':
            return ('eq' if pos else 'ne', at.a[0])
        return None

    def sat(self, f):
        """a branch (tuple of literals) on which f may hold, or None if there is none"""
        for x in self.facts:
            f = f & x
        return self._sat(unival(f), (), ())

    def _sat(self, f, lits, cube):
        if f is FALSE:
            return None
        if f is TRUE:
            return cube
        key = (f.id, frozenset(lits))
        if key in self.memo:
            return None
        at = ATOMS[f.v]
        for child, pos in ((f.hi, True), (f.lo, False)):
            if child is FALSE:
                continue
            l = self.lit(at, pos)
            nl = lits
            if l is not None:
                nl = lits + (l,)
                if self.infeasible(frozenset(nl)):
                    continue
            r = self._sat(child, nl, cube + ((at, pos),))
            if r is not None:
                return r
        self.memo[key] = True
        return None

    def valid(self, f):
        return self.sat(~f) is None

    def implies(self, a, b):
        return self.sat(a & ~b) is None


def cube_text(cube, n=12):
    return ', '.join(('' if pos else 'not ') + show(at) for at, pos in (cube or ())[:n])
