"""C29: the summary (result, memory, device accesses, possible panics) of every exported function with each logging
feature compared with the one without logging, by a fingerprint that does not depend on how conditions are nested."""
import hashlib
import heapq

from .c13 import *

PRIME = (1 << 89) - 1


def check(ctx):
    ctx.rule('fingerprint(result, memory, device accesses, panics) is the same without logging and with each logging feature, and none of these depends on the state of the logging libraries')
    feats = ['none', 'log', 'tracing'] + (['both'] if ctx.tier == 'thorough' else [])
    ctx.files = {f: build.dump(f) for f in feats}
    try:
        roots = {f: names(p) for f, p in ctx.files.items()}
        for f in feats[1:]:
            ctx.ok(roots[f] == roots['none'], 'roots:' + f, 'the exported functions are the same with ' + f)
        big = [p for p in (ADD, AT, REPLACE, WRITE, WRITE_TAKE) if p in roots['none']]
        todo = [(p, n) for p in big for n in range(len(cases_of(ctx, p)))] + [(p, None) for p in sorted(roots['none'] - set(big))]
        todo = [x for x in todo if all(x[0] in roots[f] for f in feats)]
        got = compare(ctx, feats, todo, 0)
        # an arithmetic check inside a message may precede the same check elsewhere: there, discard what cannot happen
        again = [x for x in todo if any(t != got['none', x] or not c for f in feats for t in [got[f, x]] for c in [all(o[1] for o in t)])]
        ctx.count('compared again without impossible panics', len(again))
        got.update(compare(ctx, feats, again, 1))
    finally:
        for p in ctx.files.values():
            os.unlink(p)
    n = 0
    for x in todo:
        ref = {k: v for k, _, v in got['none', x]}
        for f in feats[1:]:
            for key, cond, text in got[f, x]:
                if key.startswith('='):
                    n += 1
                    ctx.ok(ref.get(key) == text, '%s:%s' % (f, key[1:]), '%s is the same with the feature %s' % (key[1:], f))
                else:
                    ctx.ok(cond, '%s:%s' % (f, key), text)
            for k in set(ref) - {k for k, _, _ in got[f, x]}:
                ctx.ok(False, '%s:%s' % (f, k[1:]), '%s is the same with the feature %s' % (k[1:], f))
    ctx.floor('functions', len(roots['none']), 60)
    ctx.floor('values compared', n, 600)


def compare(ctx, feats, todo, deep):
    """(feature, (function, case)) -> obligations"""
    items = [(f, x[0], x[1], deep) for x in todo for f in feats]
    got = {(f, x): [] for x in todo for f in feats}
    ctx.items, mark = items, len(ctx.obls)
    ctx.each(items, part)
    obls = ctx.obls[mark:]
    del ctx.obls[mark:]
    for k in [k for k in ctx.viol if k.startswith('@')]:
        del ctx.viol[k]
    for key, cond, text in obls:
        if key.startswith('@'):
            _, i, key = key.split('@', 2)
            f, p, n, _ = items[int(i)]
            got[f, (p, n)].append((key, cond, text))
        else:
            ctx.ok(cond, key, text)
    for k, v in got.items():
        ctx.ok(v, 'analysis:%s' % (k,), 'the analysis of %s did not finish' % (k,))
    return got


def names(path):
    d = json.load(open(path))
    return {r['path'] for r in d['roots'] if r['exported'] and not r['derived'] and '::_::' not in r['path'] and not r['path'].endswith('::fmt')}


def part(ctx, item):
    f, p, only, deep = item
    tag = '@%d@' % ctx.items.index(item)
    w = ctx._w['none'] = World(ctx.files[f])
    Interp.impossible = Impossible(Lin()) if deep else None
    for n, sc in enumerate(cases_of(ctx, p)):
        if only not in (None, n):
            continue
        s = ctx.summary(p, sc)
        fp = Prints()
        lin = Lin()
        k = '%s/%s' % (p, ','.join('%s' % (x,) for x in sc.key if x))

        def put(what, v, under=TRUE):
            off = quiet(v)
            ctx.ok(True, '%s=%s: %s' % (tag, k, what), fp.hex(off))
            same = TRUE if off is v else ~(off ^ v) if isinstance(v, B) else veq(off, v)
            ctx.ok(holds(imp(under, same), lin), '%s%s:messages:%s' % (tag, k, what), '%s: %s does not depend on whether messages are printed' % (k, what))
        put('result', s.ret, s.pc)
        put('condition on which it returns', s.pc)
        for c in s.cells:
            put('memory behind ' + c, s.st.mem.get(s.cells[c]), s.pc)
        i = 0
        for e, path in flat(s.events):
            if e.kind not in ACCESS + ('panic', 'opaque-call', 'unknown', 'nonterminating') and not (e.kind == 'loop' and has_access(e)):
                continue
            what = e.d.get('what', e.kind)
            i += 1
            nm = '%s %d in %s' % (what, i, e.fn)
            put(nm, e.guard)
            for a, b in sorted(e.d.items()):
                if a not in ('events', 'head', 'locs', 'op', 'first', 'name', 'lid') and isinstance(b, (T, B)):
                    put('%s: %s' % (nm, a), b, e.guard)
        ctx.ok(True, '%s=%s: number of accesses and panics' % (tag, k), str(i))
        ctx.count('accesses and panics', i)
        ctx._s.clear()


class Impossible:
    """a panic that cannot happen is no behaviour (and in a message it may precede the same panic elsewhere)"""

    def __init__(self, lin):
        self.lin, self.memo = lin, {}

    def __call__(self, g):
        r = self.memo.get(g)
        if r is None:
            r = self.memo[g] = self.lin.sat(g) is None
        return r


def cases_of(ctx, p):
    if ctx.tier == 'thorough':
        return scenarios(ctx, p)
    if p in (ADD, AT, REPLACE):
        return [scen((p, 512, a, b, ro, ch)) for a, b in STATES[1:] for ro, ch in ((0, 1), (1, 0))]
    if p in (WRITE, WRITE_TAKE):
        return [scenario(i) for i in variants(ctx, ops=(p,), lbs=(512,))]
    return [x for x in scenarios(ctx, p) if x.lb == 512]


def has_access(L):
    return any(e.kind in ACCESS for e, _ in flat(L.events))


_atoms, _terms, _conds = {}, {}, {}


def about_messages(t):
    """whether a value depends on the state of the logging libraries"""
    if isinstance(t, tuple):
        return any(about_messages(x) for x in t)
    if isinstance(t, B):
        return messages(tm.bmask(t)) is not TRUE
    if not isinstance(t, T):
        return False
    r = _terms.get(t)
    if r is None:
        r = _terms[t] = t.op == 'app' and t.a[0] == 'logging' or any(about_messages(x) for x in t.a)
    return r


def messages(mask):
    """conjunction of the negated conditions of a set that ask for the state of the logging libraries"""
    r = _conds.get(mask)
    if r is None:
        r, m = TRUE, mask
        while m:
            v = (m & -m).bit_length() - 1
            m &= m - 1
            if v not in _atoms:
                _atoms[v] = about_messages(tm.ATOMS[v])
            if _atoms[v]:
                r = r & ~bvar(tm.ATOMS[v])
        _conds[mask] = r
    return r


def quiet(v):
    """v for one fixed state of the logging libraries"""
    return assume(v, messages(tm.vmask(v))) if isinstance(v, (T, B)) else v


class Prints:
    """fingerprints of values: of a condition the value of its multilinear extension at a point given by its atoms (the
    same for equal Boolean functions, whatever their decision diagrams), of a gated value the sum over its outcomes"""

    def __init__(self):
        self.memo = {}
        self.bm = {TRUE.id: 1, FALSE.id: 0}
        self.at = {}

    def hex(self, v):
        return '%x' % self.of(v)

    def of(self, v):
        if isinstance(v, B):
            return self.cond(v)
        if isinstance(v, T):
            r = self.memo.get(v)
            if r is None:
                r = self.memo[v] = self.term(v)
            return r
        if isinstance(v, tuple):
            return self.mix('tuple', *[self.of(x) for x in v])
        return self.mix('raw', repr(v))

    def mix(self, *xs):
        return int.from_bytes(hashlib.blake2b('|'.join(str(x) for x in xs).encode(), digest_size=16).digest(), 'big') % PRIME

    def atom(self, i):
        r = self.at.get(i)
        if r is None:
            r = self.at[i] = self.mix('atom', self.of(tm.ATOMS[i]))
        return r

    def cond(self, f):
        r = self.bm.get(f.id)
        if r is None:
            x = self.atom(f.v)
            r = self.bm[f.id] = (x * self.cond(f.hi) + (1 - x) * self.cond(f.lo)) % PRIME
        return r

    def term(self, v):
        from engine.world import FNS
        if v.op == 'ite':
            ls = leaves(v)
            if ls is None:
                return self.mix('ite', self.cond(v.a[0]), self.of(v.a[1]), self.of(v.a[2]))
            return sum(self.cond(c) * self.of(x) for x, c in ls) % PRIME
        if v.op == 'poly':
            return self.mix('poly', v.a[0], *sorted((c,) + tuple(sorted(self.of(x) for x in m)) for m, c in v.a[1]))
        if v.op == 'fn':
            f = FNS[v.a[0]]
            return self.mix('fn', f['decl'])
        t = v.ty
        ts = '' if t is None else t.s if t.k != 'closure' else t.d['path']
        return self.mix(v.op, ts, *[self.of(x) for x in v.a])


def leaves(v, most=400):
    """(value, condition) of a gated value; each gate is visited once, parents before children"""
    out, gates, todo = {}, {v: TRUE}, [(-v.id, v)]
    while todo:
        _, x = heapq.heappop(todo)
        g = gates.pop(x)
        for y, c in ((x.a[1], g & x.a[0]), (x.a[2], g & ~x.a[0])):
            if c is FALSE:
                continue
            if isinstance(y, T) and y.op == 'ite':
                if y not in gates:
                    heapq.heappush(todo, (-y.id, y))
                gates[y] = gates.get(y, FALSE) | c
            else:
                out[y] = out.get(y, FALSE) | c
                if len(out) > most:
                    return None
    return list(out.items())
