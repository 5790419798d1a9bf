"""Sequences (arrays, slices, vectors, byte strings) as concatenations of segments.

 ('lit', v...)      explicit elements
 ('rep', v, n)      n copies of v
 ('opq', t)         an uninterpreted sequence term
"""
from .terms import *
from . import terms as tm

LITMAX = 1100
U8 = int_ty(8)
U16 = int_ty(16)
U32 = int_ty(32)
U64 = int_ty(64)
USIZE = int_ty(64, name='usize')


def nf(segs, ty=None):
    out = []
    for s in segs:
        if s[0] == 'lit':
            if len(s) == 1:
                continue
            if out and out[-1][0] == 'lit':
                out[-1] = out[-1] + s[1:]
            else:
                out.append(s)
        elif s[0] == 'rep':
            n = cval(s[2])
            if n is not None:
                if n <= 0:
                    continue
                if n <= LITMAX:
                    s2 = ('lit',) + (s[1],) * n
                    if out and out[-1][0] == 'lit':
                        out[-1] = out[-1] + s2[1:]
                    else:
                        out.append(s2)
                    continue
            if out and out[-1][0] == 'rep' and out[-1][1] is s[1]:
                out[-1] = ('rep', s[1], add(out[-1][2], s[2]))
            else:
                out.append(s)
        else:
            if s[1].op == 'seq':
                for x in s[1].a:
                    if x[0] == 'lit' and out and out[-1][0] == 'lit':
                        out[-1] = out[-1] + x[1:]
                    else:
                        out.append(x)
            else:
                t = s[1]
                # adjacent device reads merge
                if out and out[-1][0] == 'opq' and _mergeable(out[-1][1], t):
                    p = out[-1][1]
                    out[-1] = ('opq', devr_raw(p.a[1], p.a[2], p.a[3], add(p.a[4], t.a[4])))
                else:
                    out.append(s)
    if len(out) == 1 and out[0][0] == 'opq':
        return out[0][1]
    return mk('seq', tuple(out), ty)


def _mergeable(p, t):
    return (p.op == 'app' and t.op == 'app' and p.a[0] == 'devr' and t.a[0] == 'devr' and p.a[1] is t.a[1]
            and p.a[2] is t.a[2] and add(p.a[3], p.a[4]) is t.a[3])


REBUILD['seq'] = lambda a, ty: nf(a, ty)


def devr_raw(dev, ver, off, n):
    return mk('app', ('devr', dev, ver, off, n))


def devbyte(dev, ver, off):
    return P(mk('app', ('devbyte', dev, ver, off), U8))


def devread(dev, ver, off, n):
    """the n bytes of device content at off"""
    if dev.op == 'ite':
        return mk_ite(dev.a[0], devread(dev.a[1], ver, off, n), devread(dev.a[2], ver, off, n))
    c = cval(n)
    if c is not None and c <= LITMAX:
        return lit([devbyte(dev, ver, add(off, I(i))) for i in range(c)])
    return devr_raw(dev, ver, off, n)


REBUILD['app:devr'] = lambda a, ty: devread(*a)


def lit(xs):
    return mk('seq', (('lit',) + tuple(xs),) if xs else ())


def rep(v, n):
    return nf([('rep', v, n)])


def segs(t):
    if t.op == 'seq':
        return list(t.a)
    return [('opq', t)]


def concat(a, b):
    if a.op == 'ite' and not (b.op == 'ite'):
        return mk_ite(a.a[0], concat(a.a[1], b), concat(a.a[2], b))
    if b.op == 'ite':
        return mk_ite(b.a[0], concat(a, b.a[1]), concat(a, b.a[2]))
    return nf(segs(a) + segs(b))


def slen(t):
    op = t.op
    if op == 'bottom':
        return ZERO
    if op == 'seq':
        r = ZERO
        for s in t.a:
            if s[0] == 'lit':
                r = add(r, I(len(s) - 1))
            elif s[0] == 'rep':
                r = add(r, s[2])
            else:
                r = add(r, slen(s[1]))
        return r
    if op == 'ite':
        return mk_ite(t.a[0], slen(t.a[1]), slen(t.a[2]))
    if op == 'flat':
        lv, n, g, es = t.a
        return mul(mk_count(lv, n, g), I(len(es)))
    if op == 'app':
        n = t.a[0]
        if n == 'devr':
            return t.a[4]
        if n == 'slice':
            return sub(t.a[3], t.a[2])
        if n == 'sort':
            return slen(t.a[1])
        if n == 'setelem':
            return slen(t.a[1])
        if n == 'havocbuf':
            return t.a[2]
    if op == 'strlit':
        return I(len(t.a[0].encode()))
    if t.ty is not None and t.ty.k == 'array':
        return I(t.ty.d['len'])
    if t.ty is not None and t.ty.k == 'adt' and t.ty.path == 'uuid::Uuid':
        return I(16)
    return P(mk('app', ('len', t)))


REBUILD['app:len'] = lambda a, ty: slen(a[0])


def mk_count(lv, n, g):
    if g is TRUE:
        return n
    if g is FALSE or n is ZERO:
        return ZERO
    return P(mk('count', (lv, n, g)))


REBUILD['count'] = lambda a, ty: mk_count(*a)


def mk_flat(lv, n, g, es):
    if n is ZERO or g is FALSE or not es:
        return mk('seq', ())
    return mk('flat', (lv, n, g, tuple(es)))


REBUILD['flat'] = lambda a, ty: mk_flat(*a)


def elem(t, i, ety=None):
    """i-th element (assumed in bounds)"""
    op = t.op
    if op == 'bottom':
        return BOT
    if op == 'ite':
        return mk_ite(t.a[0], elem(t.a[1], i, ety), elem(t.a[2], i, ety))
    if op == 'seq':
        c = cval(i)
        pos = ZERO
        for s in t.a:
            if s[0] == 'lit':
                n = I(len(s) - 1)
            elif s[0] == 'rep':
                n = s[2]
            else:
                n = slen(s[1])
            off = sub(i, pos)
            oc, nc = cval(off), cval(n)
            if oc is not None and nc is not None:
                if oc < nc:
                    if oc < 0:
                        return BOT
                    if s[0] == 'lit':
                        return s[1 + oc]
                    if s[0] == 'rep':
                        return s[1]
                    return elem(s[1], off, ety)
            elif oc is not None and s[0] == 'rep' and prange(n)[0] > oc >= 0:
                return s[1]
            else:
                break
            pos = add(pos, n)
        if len(t.a) == 1:
            s = t.a[0]
            if s[0] == 'rep':
                return s[1]
            if s[0] == 'lit' and len(s) <= 80:
                xs = s[1:]
                if all(x is xs[0] for x in xs):
                    return xs[0]
                it = is_ite_poly(i)
                if it is not None:
                    return mk_ite(it.a[0], elem(t, it.a[1], ety), elem(t, it.a[2], ety))
                r = xs[-1]
                for j in range(len(xs) - 2, -1, -1):
                    r = mk_ite(ieq(i, I(j)), xs[j], r)
                return r
    it = is_ite_poly(i)
    if it is not None:
        return mk_ite(it.a[0], elem(t, it.a[1], ety), elem(t, it.a[2], ety))
    if op == 'app':
        if t.a[0] == 'devr':
            return devbyte(t.a[1], t.a[2], add(t.a[3], i))
        if t.a[0] == 'slice':
            return elem(t.a[1], add(t.a[2], i), ety)
    if op == 'flat':
        lv, n, g, es = t.a
        if g is TRUE and len(es) == 1:
            return subst(es[0], {lv: i})
    if op == 'strlit':
        c = cval(i)
        b = t.a[0].encode()
        if c is not None and 0 <= c < len(b):
            return I(b[c])
    if ety is None and t.ty is not None and t.ty.k in ('array', 'slice'):
        ety = t.ty.elem
    if ety is None and t.ty is not None and t.ty.k == 'adt' and t.ty.path == 'alloc::vec::Vec':
        ety = t.ty.args[0]
    return wrap(mk('app', ('elem', t, i), ety))


REBUILD['app:elem'] = lambda a, ty: elem(a[0], a[1], ty)


def sl(t, a, b):
    """t[a..b]"""
    if t.op == 'bottom':
        return BOT
    if a is ZERO and b is slen(t):
        return t
    if a is b:
        return mk('seq', ())
    if t.op == 'ite':
        return mk_ite(t.a[0], sl(t.a[1], a, b), sl(t.a[2], a, b))
    if t.op == 'app' and t.a[0] == 'devr':
        return devread(t.a[1], t.a[2], add(t.a[3], a), sub(b, a))
    if t.op == 'app' and t.a[0] == 'slice':
        return sl(t.a[1], add(t.a[2], a), add(t.a[2], b))
    ca = cval(a)
    cb = cval(b)
    if ca is not None and cb is not None and ca <= cb:
        if t.op == 'seq':
            out = []
            pos = 0
            ok = True
            for s in t.a:
                if pos >= cb:
                    break
                n = cval(slen(mk('seq', (s,)) if s[0] != 'opq' else s[1]))
                if n is None:
                    # an open-ended segment: fine if the slice ends inside it
                    if s[0] == 'rep' and prange(s[2])[0] >= cb - pos:
                        lo = max(ca - pos, 0)
                        out.append(('rep', s[1], I(cb - pos - lo)))
                        pos = cb
                        break
                    ok = False
                    break
                lo, hi = max(ca - pos, 0), min(cb - pos, n)
                if lo < hi:
                    if s[0] == 'lit':
                        out.append(('lit',) + s[1 + lo:1 + hi])
                    elif s[0] == 'rep':
                        out.append(('rep', s[1], I(hi - lo)))
                    else:
                        out.append(('opq', sl(s[1], I(lo), I(hi))))
                pos += n
            if ok and pos >= cb:
                return nf(out)
        elif cb - ca <= 64 and t.ty is not None and t.ty.k in ('array',) and is_int(t.ty.elem):
            return lit([elem(t, I(i), t.ty.elem) for i in range(ca, cb)])
    elif ca is not None and t.op == 'seq':
        # drop a constant prefix
        out = []
        pos = 0
        ss = list(t.a)
        while ss and pos < ca:
            s = ss[0]
            n = cval(slen(mk('seq', (s,)) if s[0] != 'opq' else s[1]))
            if n is None:
                break
            if pos + n <= ca:
                pos += n
                ss.pop(0)
                continue
            if s[0] == 'lit':
                ss[0] = ('lit',) + s[1 + ca - pos:]
                pos = ca
            elif s[0] == 'rep':
                ss[0] = ('rep', s[1], I(n - (ca - pos)))
                pos = ca
            break
        if pos == ca and ca:
            rest = nf(ss)
            return sl(rest, ZERO, sub(b, a))
        if pos == ca and ca == 0:
            # try to cut at a segment border
            acc = ZERO
            for i in range(len(ss) + 1):
                if acc is b:
                    return nf(ss[:i])
                if i < len(ss):
                    acc = add(acc, slen(mk('seq', (ss[i],)) if ss[i][0] != 'opq' else ss[i][1]))
    return mk('app', ('slice', t, a, b), None)


REBUILD['app:slice'] = lambda a, ty: sl(*a)


def setelem(t, i, v):
    if t.op == 'bottom':
        return t
    if t.op == 'ite':
        return mk_ite(t.a[0], setelem(t.a[1], i, v), setelem(t.a[2], i, v))
    it = is_ite_poly(i)
    if it is not None:
        return mk_ite(it.a[0], setelem(t, it.a[1], v), setelem(t, it.a[2], v))
    c = cval(i)
    n = cval(slen(t))
    if c is not None:
        if t.op == 'seq':
            out = []
            pos = 0
            done = False
            for s in t.a:
                if done:
                    out.append(s)
                    continue
                m = cval(slen(mk('seq', (s,)) if s[0] != 'opq' else s[1]))
                if m is None and s[0] == 'rep' and prange(s[2])[0] > c - pos:
                    k = c - pos
                    out += [('rep', s[1], I(k)), ('lit', v), ('rep', s[1], sub(s[2], I(k + 1)))]
                    done = True
                    continue
                if m is None:
                    break
                if c < pos + m:
                    k = c - pos
                    if s[0] == 'lit':
                        out.append(s[:1 + k] + (v,) + s[2 + k:])
                    elif s[0] == 'rep':
                        out += [('rep', s[1], I(k)), ('lit', v), ('rep', s[1], I(m - k - 1))]
                    else:
                        out += [('opq', sl(s[1], ZERO, I(k))), ('lit', v), ('opq', sl(s[1], I(k + 1), I(m)))]
                    done = True
                    continue
                out.append(s)
                pos += m
            if done:
                return nf(out, t.ty)
        elif n is not None and n <= LITMAX:
            ety = t.ty.elem if t.ty is not None and t.ty.k in ('array', 'slice') else None
            xs = [elem(t, I(j), ety) for j in range(n)]
            if c < n:
                xs[c] = v
            return lit(xs)
    elif t.op == 'seq' and len(t.a) == 1 and t.a[0][0] == 'lit' and len(t.a[0]) <= 80:
        return lit([mk_ite(ieq(i, I(j)), v, x) for j, x in enumerate(t.a[0][1:])])
    return mk('app', ('setelem', t, i, v))


REBUILD['app:setelem'] = lambda a, ty: setelem(*a)


def splice(t, a, b, new):
    """t with t[a..b] replaced by new (same length)"""
    return concat(concat(sl(t, ZERO, a), new), sl(t, b, slen(t)))


def expand(t, ety=None):
    """list of elements if the length is a small constant"""
    n = cval(slen(t))
    if n is None or n > LITMAX:
        return None
    if t.op == 'seq' and len(t.a) == 1 and t.a[0][0] == 'lit':
        return list(t.a[0][1:])
    return [elem(t, I(i), ety) for i in range(n)]


def seq_eq(a, b, ety=None):
    """BDD of a == b as sequences"""
    if a is b:
        return TRUE
    if a.op == 'ite':
        return bite(a.a[0], seq_eq(a.a[1], b, ety), seq_eq(a.a[2], b, ety))
    if b.op == 'ite':
        return bite(b.a[0], seq_eq(a, b.a[1], ety), seq_eq(a, b.a[2], ety))
    la, lb = slen(a), slen(b)
    le = ieq(la, lb)
    if le is FALSE:
        return FALSE
    xa, xb = None, None
    na, nb = cval(la), cval(lb)
    if na is not None and na <= LITMAX:
        if nb is None:
            if a.op == 'seq' and na <= 64:
                xa = expand(a, ety)
                xb = [elem(b, I(i), ety) for i in range(na)]
        else:
            xa, xb = expand(a, ety), expand(b, ety)
    elif nb is not None:
        return seq_eq(b, a, ety)
    if xa is not None and (xa == [] or not any(isinstance(x, T) and x.op == 'app' and x.a[0] == 'elem' and x.ty is None for x in xa + xb)):
        r = le
        for x, y in zip(xa, xb):
            r = r & veq(x, y)
            if r is FALSE:
                break
        return r
    x, y = (a, b) if a.id < b.id else (b, a)
    return bvar(mk('eqv', (x, y)))


def _is_seqlike(t):
    if t.op in ('seq', 'flat', 'strlit'):
        return True
    if t.op == 'app' and t.a[0] in ('devr', 'slice', 'setelem', 'sort'):
        return True
    return t.ty is not None and (t.ty.k in ('array', 'slice') or (t.ty.k == 'adt' and t.ty.path == 'alloc::vec::Vec'))


# ---- strings: content terms -------------------------------------------------------------


def _str_eq(lit_, o):
    s = lit_.a[0]
    if o.op == 'strlit':
        return TRUE if o.a[0] == s else FALSE
    if o.op == 'app' and o.a[0] == 'utf8lossy' and '\ufffd' not in s:
        b = s.encode()
        return seq_eq(o.a[1], lit([I(x) for x in b]), U8)
    if o.op == 'app' and o.a[0] == 'strof':
        return seq_eq(o.a[1], lit([I(x) for x in s.encode()]), U8)
    return None


def is_uuid(t):
    return t.ty is not None and t.ty.k == 'adt' and t.ty.path == 'uuid::Uuid'


def uuid_bytes(u):
    if u.op == 'agg':
        return u.a[1]
    if u.op == 'ite':
        return mk_ite(u.a[0], uuid_bytes(u.a[1]), uuid_bytes(u.a[2]))
    return proj(u, 0, 0, u.ty.field_ty(0, 0))


def _uuid_const(u):
    if u.op != 'agg':
        return None
    xs = expand(u.a[1], U8)
    if xs is None:
        return None
    cs = [cval(x) for x in xs]
    return tuple(cs) if None not in cs else None


def _uuid_canon(u):
    c = _uuid_const(u)
    return u if c is None else tm.agg(u.ty, 0, [lit([I(x) for x in c])])


def _eqhook(a, b):
    if a.op == 'ite' or b.op == 'ite':
        return None
    if is_uuid(a) and is_uuid(b):
        if a.op == 'agg' and b.op == 'agg':
            ca, cb = _uuid_const(a), _uuid_const(b)
            if ca is not None and cb is not None:
                return TRUE if ca == cb else FALSE
            if seq_eq(a.a[1], b.a[1], U8) is FALSE:
                return FALSE
            if a.a[1] is b.a[1]:
                return TRUE
        a, b = _uuid_canon(a), _uuid_canon(b)
        x, y = (a, b) if a.id < b.id else (b, a)
        return bvar(mk('eqv', (x, y)))
    if a.op == 'strlit':
        r = _str_eq(a, b)
        if r is not None:
            return r
    if b.op == 'strlit':
        r = _str_eq(b, a)
        if r is not None:
            return r
    if a.op == 'strlit' or b.op == 'strlit':
        x, y = (a, b) if a.id < b.id else (b, a)
        return bvar(mk('eqv', (x, y)))
    if _is_seqlike(a) and _is_seqlike(b):
        return seq_eq(a, b)
    # congruence
    if a.op == b.op and a.op in ('app', 'proj') and a.op == 'app' and a.a[0] == b.a[0] and len(a.a) == len(b.a):
        r = TRUE
        for x, y in zip(a.a[1:], b.a[1:]):
            if isinstance(x, (T, B)) and isinstance(y, (T, B)) and isinstance(x, B) == isinstance(y, B):
                try:
                    r = r & veq(x, y)
                except TypeError:
                    r = FALSE
            elif x != y:
                r = FALSE
            if r is FALSE:
                break
        if r is TRUE:
            return TRUE
    return None


tm.EQHOOKS.append(_eqhook)


# ---- little endian integers ---------------------------------------------------------------


def le_int(bs, ty):
    """integer from little-endian bytes"""
    bs = list(bs)
    cs = [cval(b) for b in bs]
    if None not in cs:
        v = sum(c << (8 * i) for i, c in enumerate(cs))
        lo, hi = trange(ty)
        if v > hi:
            v -= 1 << (8 * len(cs))
        return I(v)
    if len(bs) == 1 and ty.d['bits'] == 8 and not ty.d['signed']:
        return bs[0]
    # inverse of byte()
    a0 = atom_of(bs[0])
    if a0 is not None and a0.op == 'app' and a0.a[0] == 'byte' and cval(a0.a[2]) == 0:
        x = a0.a[1]
        if prange(x) is not None and all(byte_of(x, i) is b for i, b in enumerate(bs)):
            lo, hi = prange(x)
            if lo >= 0 and hi < (1 << (8 * len(bs))):
                return x
    return P(mk('app', ('le',) + tuple(bs), ty))


REBUILD['app:le'] = lambda a, ty: le_int(a, ty)


def byte_of(x, i):
    """i-th (least significant first) byte of a non-negative integer"""
    c = cval(x)
    if c is not None:
        return I((c >> (8 * i)) & 255)
    at = atom_of(x)
    if at is not None:
        if at.op == 'ite':
            return mk_ite(at.a[0], byte_of(at.a[1], i), byte_of(at.a[2], i))
        if at.op == 'app' and at.a[0] == 'le':
            return at.a[1 + i] if i < len(at.a) - 1 else ZERO
    lo, hi = prange(x)
    if lo >= 0 and hi < (1 << (8 * i)):
        return ZERO
    if i == 0 and lo >= 0 and hi <= 255:
        return x
    return P(mk('app', ('byte', x, I(i)), U8))


REBUILD['app:byte'] = lambda a, ty: byte_of(a[0], cval(a[1]))


def le_bytes(x, n):
    return [byte_of(x, i) for i in range(n)]
