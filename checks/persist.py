"""Shared by the checks on persisting a disk: the device accesses of a write, with the headers they belong to."""
from .edits import *
from .disk import header_write, is_alg

WRITE, WRITE_TAKE = G + 'write_inplace', G + 'write'


class Persist(Scen):
    """a writable disk whose current header has entries of a given size (None: any)"""

    def __init__(self, size=None, **kw):
        super().__init__(writable=1, **kw)
        self.size = size
        self.key += ('persist', size)

    def prep(self, I_, st, args, cells):
        super().prep(I_, st, args, cells)
        if self.size is None:
            return
        for i, a in enumerate(args):
            c = a.a[0] if isinstance(a, T) and a.op == 'ref' and a.a[0] in st.mem else None
            v = st.mem[c] if c is not None else a
            if isinstance(v, T) and v.ty is not None and v.ty.path == DISK:
                hs = {}
                for nm in ('primary_header', 'backup_header'):
                    h = fld(v, nm)
                    if is_variant(h, 'Ok') is TRUE:
                        x = payload(h, 'Ok')
                        hs[nm] = variant(h.ty, 'Ok', with_fields(x, part_size=I(self.size)))
                v = with_fields(v, **hs)
                if c is not None:
                    st.mem[c] = v
                else:
                    args[i] = v


def variants(ctx, sizes=(None,), ops=(WRITE,), backup=(0, 1), lbs=(512, 4096)):
    """(operation, block size, primary state, backup state, readonly_backup, entry size)"""
    return [(p, lb, a, b, ro, n) for p in ops for lb in lbs for a, b in STATES for ro in backup for n in sizes]


def scenario(item):
    p, lb, a, b, ro, n = item
    return Persist(size=n, lb=lb, primary=a, backup=b, readonly_backup=ro)


def label(item):
    p, lb, a, b, ro, n = item
    return '%s:lb=%d,primary=%s,backup=%s,readonly_backup=%d%s' % (p.rsplit('::', 1)[-1], lb, a, b, ro, '' if n is None else ',size=%d' % n)


class Case:
    """one orientation of the headers on which a write succeeds"""

    def __init__(self, ctx, s, item, S, d, key):
        self.ctx, self.s, self.item, self.S, self.key = ctx, s, item, S, key
        self.lb, self.ro = item[1], item[4]
        self.d = d
        self.lin = Lin()
        self.P = deepv(payload(fld(d, 'primary_header'), 'Ok'), S)
        self.B = None if self.ro else deepv(payload(fld(d, 'backup_header'), 'Ok'), S)
        self.m = fld(pre(s), 'partitions')
        self.accesses = []
        for i, (e, path) in enumerate(flat(s.events)):
            if (e.guard & S) is FALSE:
                continue
            if path and (path[0].guard & S) is FALSE:
                continue
            self.accesses.append((i, e, path))

    def headers(self):
        return [('primary', self.P)] + ([('backup', self.B)] if self.B is not None else [])

    def within(self, path):
        """the condition on which an iteration of the enclosing loops of an access runs"""
        S = self.S
        for L in path:
            S = at_iteration(S, L.lv, L.bound if L.bound is not None else I(1 << 64))
        return strengthen(S)

    def writes(self):
        """[(kind, header name, event, condition, path)]: every write with the structure it belongs to"""
        r = getattr(self, '_w', None)
        if r is not None:
            return r
        r = []
        for i, e, path in self.accesses:
            if e.kind != 'write':
                continue
            C = self.within(path) & e.guard
            if C is FALSE:
                continue
            C, (off, n, seq) = settle(C, e.off, slen(e.seq), e.seq, facts=self.facts())
            F = map_facts(self.m)
            for L in path:
                F = F & ge0(P(L.lv)) & (lt(P(L.lv), L.bound) if L.bound is not None else TRUE)
            off, n = (unwrap_mod(deepv(v, C), C & F, lin=self.lin) for v in (off, n))
            r.append(self.classify(i, e, path, C, off, n, seq))
        self._w = r
        return r

    def facts(self):
        h = self.P
        return ge0(fld(h, 'num_parts')) & ge0(fld(h, 'part_size'))

    def classify(self, i, e, path, C, off, n, seq):
        w = Write()
        w.index, w.ev, w.path, w.C, w.off, w.n, w.seq = i, e, path, C, off, n, seq
        w.kind, w.head, w.h = 'unknown', None, None
        for nm, h in self.headers():
            at = scale(deepv(fld(h, 'current_lba'), C), self.lb)
            if not path and sub(off, at) is I(0):
                w.kind, w.head, w.h = 'header', nm, h
                return w
            base = scale(deepv(fld(h, 'part_start'), C), self.lb)
            d = sub(off, base)
            if not mentions_place(d):
                w.kind, w.head, w.h, w.d = 'array', nm, h, d
                return w
        return w


class Write:
    pass


def mentions_place(d):
    """the distance depends on where a header lies"""
    for m, _ in d.a[1]:
        for x in m:
            if x.op in ('proj', 'sym') and any(isinstance(y, str) and y in ('current_lba', 'backup_lba', 'part_start', 'first_usable', 'last_usable') for y in names_of(x)):
                return True
            if x.op == 'ite':
                return True
    return False


def names_of(x):
    return show(x).split('.')


def persisted(ctx, item):
    """the cases on which the operation of the item succeeds"""
    s = ctx.summary(item[0], scenario(item))
    S = strengthen(ok_of(s))
    if not ctx.ok(S is not FALSE, label(item) + ':succeeds', 'persisting can succeed'):
        return s, []
    d = post(s)
    S, (d,) = settle(S, d)
    old = current(pre(s), item[2])
    p = sub(fld(old, 'current_lba'), fld(old, 'backup_lba'))
    out = []

    def split(S, x, key, depth):
        """one case per outcome of the comparisons the geometry depends on"""
        gates = [g for g in gate_atoms(tuple(fld(payload(fld(x, nm + '_header'), 'Ok'), f) for nm in ('primary', 'backup') if (is_variant(fld(x, nm + '_header'), 'Ok') & S) is not FALSE
                                             for f in ('current_lba', 'backup_lba', 'first_usable', 'last_usable', 'part_start', 'num_parts', 'part_size')))
                 if g.op in ('ge0', 'eq0') and not implies(S, bvar(g)) and not implies(S, ~bvar(g))]
        if not gates or depth == 0:
            out.append(Case(ctx, s, item, S, x, key))
            return
        for i, c in enumerate((bvar(gates[0]), ~bvar(gates[0]))):
            C = S & c
            if C is not FALSE and Lin().sat(C):
                C, (y,) = settle(C, x)
                split(C, y, '%s,case%d' % (key, i), depth - 1)
    for nm, c in ((',swapped', ge0(p)), ('', ~ge0(p))):
        C = S & c
        if C is FALSE or not Lin().sat(C):
            continue
        C, (x,) = settle(C, d)
        split(C, x, label(item) + nm, 4)
    return s, out


def extent_facts(ctx, c, w):
    """linear facts about products of a slot number and the entry size: 0 <= i <= n implies 0 <= size * i <= size * n"""
    h = w.h
    size, n = fld(h, 'part_size'), fld(h, 'num_parts')
    F = map_facts(c.m)
    for L in w.path:
        F = F & ge0(P(L.lv)) & (lt(P(L.lv), L.bound) if L.bound is not None else TRUE)
    if cval(size) is not None:
        return F
    sz = atom_of(size)
    for m, k in w.d.a[1] + w.n.a[1]:
        if sz in m and len(m) == 2:
            rest = list(m)
            rest.remove(sz)
            i = P(rest[0])
            G = w.C & F
            if holds(imp(G, ge0(i)), c.lin):
                F = F & ge0(mul(size, i))
                if w.path and holds(imp(G, lt(i, n)), c.lin):
                    F = F & le(mul(size, add(i, I(1))), mul(size, n))
                elif holds(imp(G, le(i, n)), c.lin):
                    F = F & le(mul(size, i), mul(size, n))
    return F
