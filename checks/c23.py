"""C23: every partition type constant, evaluated by the compiler, against the table of registered GUIDs; and the lookups
by GUID value, by name and by GUID string as gate terms over a symbolic string, for every constant of the crate."""
import uuid

from .base import *
from .type_table import TABLE

MOD = 'gpt::partition_types::'
FROM = '<gpt::partition_types::Type as core::convert::From<uuid::Uuid>>::from'
BY_NAME = ['<gpt::partition_types::Type as core::str::traits::FromStr>::from_str', 'gpt::partition_types::Type::from_name']


def check(ctx):
    ctx.rule('constants = registered table, GUIDs distinct; from(guid of C) = C, from_str(name or GUID of C in any case) = Ok(C); unknown GUID -> no operating system; otherwise Err')
    w = ctx.world()
    known = {}
    for path, c in w.consts.items():
        v = w.const(c['v']) if path.startswith(MOD) else None
        if isinstance(v, T) and v.ty is not None and v.ty.k == 'adt' and v.ty.path == MOD + 'Type':
            known[path.split('::')[-1]] = v
    ctx.floor('constants', len(known), 100)
    guid = {}
    for n, v in known.items():
        b = [cval(x) for x in seq_items(fld(v, 'guid'))]
        ctx.ok(len(b) == 16 and None not in b, 'value:' + n, 'the GUID of %s is a constant' % n)
        guid[n] = str(uuid.UUID(bytes=bytes(b))).upper()
    for n, (g, o) in TABLE.items():
        ctx.ok(n in known, 'exists:' + n, 'the constant %s exists' % n)
        if n in known:
            ctx.ok(guid[n] == g, 'guid:' + n, '%s has its registered GUID %s, not %s' % (n, g, guid[n]))
            ctx.ok(is_variant(fld(known[n], 'os'), o) is TRUE, 'os:' + n, '%s belongs to %s' % (n, o))
    for a in guid:
        for b in guid:
            if a < b:
                ctx.ok(guid[a] != guid[b], 'distinct:%s:%s' % (a, b), '%s and %s have different GUIDs' % (a, b))
    # by value
    s = ctx.summary(FROM)
    total(ctx, s, 'from')
    x = s.args[0]
    by_value(ctx, s.ret, x, known, 'from')
    # by name or GUID string
    for p in BY_NAME:
        s = ctx.summary(p)
        nm = p.split('::')[-1]
        total(ctx, s, nm)
        keys, parse = {}, None
        for i in atoms_of(s.ret):
            key = literal(tm.ATOMS[i])
            if key is not None:
                keys[i] = key
            elif tm.ATOMS[i].op == 'app' and tm.ATOMS[i].a[0] == 'uuidok':
                parse = tm.ATOMS[i]
        ctx.ok(parse is not None, nm + ':parses', '%s recognises a GUID string' % nm)
        if parse is None:
            continue
        value = next(t for t in all_terms(s.ret) if t.op == 'app' and t.a[0] == 'uuidparse' and t.a[1] is parse.a[1])
        legal = {}
        for n in known:
            legal[n] = n
            legal[guid[n]] = n
        for k in sorted(set(keys.values()) - {''}):
            ctx.ok(k in legal, '%s:literal:%s' % (nm, k), '%s accepts no string but the names and GUIDs of the constants (%s)' % (nm, k))

        def case(k):
            """under what the string is, ignoring case"""
            C = TRUE
            for i, y in keys.items():
                C = C & (bvar(tm.ATOMS[i]) if y == k and k else ~bvar(tm.ATOMS[i]))
            return C
        ok = bvar(parse)
        for k, n in legal.items():
            # a GUID is parsed to its value, a name is not a GUID
            C = case(k) & (ok & which(value, known, n) if k != n else ~ok)
            r = tm.assume(s.ret, C)
            ctx.ok(C is not FALSE and implies(C, is_variant(r, 'Ok') & veq(payload(r, 'Ok'), known[n])), '%s:%s' % (nm, k), '%s of "%s" in any case is %s' % (nm, k, n))
        rest = tm.assume(s.ret, case(None) & ok)
        ctx.ok(is_variant(rest, 'Ok') is TRUE, nm + ':guid', '%s of any other GUID string succeeds' % nm)
        by_value(ctx, payload(rest, 'Ok'), value, known, nm)
        rest = tm.assume(s.ret, case(None) & ~ok)
        ctx.ok(is_variant(rest, 'Err') is TRUE, nm + ':other', '%s of any other string is an error' % nm)
    s = ctx.summary('<gpt::partition_types::Type as core::default::Default>::default')
    ctx.ok('UNUSED' in known and veq(s.ret, known['UNUSED']) is TRUE, 'default', 'the default type is the unused one')
    ctx.count('constants', len(known))


def by_value(ctx, r, x, known, nm):
    for n, v in known.items():
        C = which(x, known, n)
        u = tm.assume(r, C)
        ctx.ok(implies(C, veq(u, v)), '%s:value:%s' % (nm, n), '%s of the GUID of %s is %s' % (nm, n, n))
    u = tm.assume(r, which(x, known, None))
    ctx.ok(veq(fld(u, 'guid'), x) is TRUE and is_variant(fld(u, 'os'), 'None') is TRUE, nm + ':unknown',
           '%s of an unknown GUID is a type with that GUID and no operating system' % nm)


def which(x, known, n):
    """x is the GUID of the constant n, and of no other one"""
    if x not in WHICH:
        eq = {m: veq(x, fld(v, 'guid')) for m, v in known.items()}
        none = TRUE
        for q in eq.values():
            none = none & ~q
        WHICH[x] = {None: none}
        for m in eq:
            C = eq[m]
            for o in eq:
                if o != m:
                    C = C & ~eq[o]
            WHICH[x][m] = C
    return WHICH[x][n]


WHICH = {}


def total(ctx, s, nm):
    ctx.ok(s.pc is TRUE, nm + ':total', nm + ' returns for every argument')
    ctx.ok(not s.unknown, nm + ':known', 'every call of %s is understood: %s' % (nm, list(s.unknown)[:3]))


def atoms_of(v):
    out = set()
    for t in all_terms(v):
        if t.op == 'ite':
            out |= set(tm.bsupport(t.a[0]))
    return sorted(out)


def literal(a):
    """the string, in upper case, that an atom compares the argument with: '' if it can never be equal"""
    if a.op != 'eqv':
        return None
    for x, y in (a.a, a.a[::-1]):
        if y.op == 'strlit' and x.op == 'app' and x.a[0] in ('upper', 'lower') and x.a[1].op == 'sym':
            k = y.a[0]
            return k.upper() if k == (k.upper() if x.a[0] == 'upper' else k.lower()) else ''
    return None


def seq_items(u):
    for t in all_terms(u):
        if t.op == 'seq' and len(t.a) == 1 and t.a[0][0] == 'lit':
            return list(t.a[0][1:]) if not isinstance(t.a[0][1], tuple) else list(t.a[0][1])
    return []
