"""Models of devices, files, formatting and of the crc, uuid and simple_bytes crates."""
import re
from .interp import *
from . import terms as tm
from . import seqs as sq
from .models import (PRE, POST, PATTERNS, pre, pat, Some, Nothing, opt, Ok, Err, res, unit, val, tup, okatom, _fn_args,
                     mkiter, _sub_ref, split)

# ------------------------------------------------------------------ devices
#
# mem[('dev', device term)] = devst(position, version)


def dev_of(I, st, r):
    d = val(I, st, r)
    return d


def dev_state(I, st, d):
    k = ('dev', d)
    s = st.mem.get(k)
    if s is None:
        s = mk('devst', (app('pos0', d, ty=U64), mk('app', ('ver0', d))))
        st.mem[k] = s
    return s


def devlen(d):
    return app('devlen', d, ty=U64)


def with_devs(I, st, r, fn):
    d = dev_of(I, st, r)
    return fn(d)


def part(s, i):
    if s.op == 'devst':
        return s.a[i]
    if s.op == 'ite':
        return mk_ite(s.a[0], part(s.a[1], i), part(s.a[2], i))
    return mk('app', ('part', s, i))


def set_dev(st, d, pos, ver):
    st.mem[('dev', d)] = mk('devst', (pos, ver))


def ioerr(I, op, dty):
    return app('ioerr', *op, ty=dty.args[1])


SEEK = ['core::io::seek::Seek::seek', 'std::io::Seek::seek', 'core::io::seek::Seek::rewind', 'core::io::seek::Seek::seek_relative']


@pre(*SEEK)
def m_seek(I, st, f, a, dty):
    r = f.get('res')
    if r is not None and r.get('krate') == I.w.local:
        return NotImplemented
    d = dev_of(I, st, a[0])
    s = dev_state(I, st, d)
    pos, ver = part(s, 0), part(s, 1)
    if f['name'] == 'rewind':
        tgt = ZERO
    elif f['name'] == 'seek_relative':
        tgt = add(pos, a[1])
    else:
        w = a[1]

        def target(w):
            if w.op == 'ite':
                return mk_ite(w.a[0], target(w.a[1]), target(w.a[2]))
            if w.op == 'agg':
                v = w.ty.variants[w.a[0]]['name']
                return w.a[1] if v == 'Start' else add(devlen(d), w.a[1]) if v == 'End' else add(pos, w.a[1])
            return app('seektarget', w, pos, d, ty=U64)
        tgt = target(w)
    op = I.opid()
    ok = okatom(I, op)
    if prange(tgt)[0] < 0:
        ok = ok & ge0(tgt)
    I.ev('seek', st.pc, dev=d, target=tgt, ok=ok, op=op)
    set_dev(st, d, mk_ite(ok, tgt, app('posfail', *op, ty=U64)), ver)
    if dty.args[0].k == 'int':
        return res(dty, ok, tgt, ioerr(I, op, dty))
    return res(dty, ok, unit(I), ioerr(I, op, dty))


@pre('core::io::seek::Seek::stream_position', 'core::io::seek::Seek::stream_len')
def m_streampos(I, st, f, a, dty):
    r = f.get('res')
    if r is not None and r.get('krate') == I.w.local:
        return NotImplemented
    d = dev_of(I, st, a[0])
    s = dev_state(I, st, d)
    op = I.opid()
    ok = okatom(I, op)
    I.ev('tell', st.pc, dev=d, ok=ok, op=op)
    v = part(s, 0) if f['name'] == 'stream_position' else devlen(d)
    return res(dty, ok, v, ioerr(I, op, dty))


@pre('alloc::io::read::Read::read_exact', 'core::io::read::Read::read_exact', 'std::io::Read::read_exact')
def m_readexact(I, st, f, a, dty):
    r = f.get('res')
    if r is not None and r.get('krate') == I.w.local:
        return NotImplemented
    d = dev_of(I, st, a[0])
    s = dev_state(I, st, d)
    pos, ver = part(s, 0), part(s, 1)
    buf = I.load(st, a[1])
    n = slen(buf)
    op = I.opid()
    ok = okatom(I, op)
    I.ev('read', st.pc, dev=d, off=pos, n=n, ver=ver, ok=ok, op=op)
    data = devread(d, ver, pos, n)
    I.store(st, a[1], mk_ite(ok, data, havoc(op, n)))
    set_dev(st, d, mk_ite(ok, add(pos, n), app('posfail', *op, ty=U64)), ver)
    return res(dty, ok, unit(I), ioerr(I, op, dty))


def havoc(op, n):
    c = cval(n)
    t = mk('app', ('havocbuf', mk('opid', op), n))
    if c is not None and c <= LITMAX:
        return lit([wrap(mk('app', ('elem', t, tm.I(i)), U8)) for i in range(c)])
    return t


tm.REBUILD['app:havocbuf'] = lambda a, ty: havoc(a[0].a, a[1])


@pat(r'io::read::Read::(read|read_to_end|read_vectored|read_to_string|take|bytes|chain)$')
def m_read(I, st, f, a, dty):
    d = dev_of(I, st, a[0])
    if d.op == 'iter':
        return NotImplemented
    s = dev_state(I, st, d)
    pos, ver = part(s, 0), part(s, 1)
    if f['name'] != 'read':
        return NotImplemented
    buf = I.load(st, a[1])
    n = slen(buf)
    op = I.opid()
    ok = okatom(I, op)
    got = app('readn', *op, ty=U64)
    I.ev('read', st.pc, dev=d, off=pos, n=n, ver=ver, ok=ok, op=op, partial=True)
    I.store(st, a[1], havoc(op, n))
    set_dev(st, d, app('posfail', *op, ty=U64), ver)
    return res(dty, ok, got, ioerr(I, op, dty))


@pre('core::io::write::Write::write_all', 'std::io::Write::write_all', 'core::io::write::Write::write')
def m_writeall(I, st, f, a, dty):
    r = f.get('res')
    if r is not None and r.get('krate') == I.w.local:
        return NotImplemented
    data = val(I, st, a[1])
    path = r['path'] if r else ''
    implself = (r or {}).get('implself')
    ist = I.w.types[implself].s if isinstance(implself, int) else str(implself or '')
    if 'Vec<u8' in path or ist.startswith('alloc::vec::Vec<u8'):
        v = I.load(st, a[0])
        I.store(st, a[0], concat(v, data))
        return Ok(dty, unit(I)) if f['name'] == 'write_all' else Ok(dty, slen(data))
    target = I.innermost_ref(st, a[0])
    tv = val(I, st, a[0])
    if sq._is_seqlike(tv) and tv.ty is None or (tv.ty is not None and tv.ty.k == 'adt' and tv.ty.path == 'alloc::vec::Vec'):
        if tv.op in ('seq', 'flat') or tv.ty is not None and tv.ty.k == 'adt':
            I.store(st, target, concat(tv, data))
            return Ok(dty, unit(I)) if f['name'] == 'write_all' else Ok(dty, slen(data))
        return NotImplemented
    d = tv
    s = dev_state(I, st, d)
    pos, ver = part(s, 0), part(s, 1)
    n = slen(data)
    op = I.opid()
    ok = okatom(I, op)
    partial = f['name'] == 'write'
    I.ev('write', st.pc, dev=d, off=pos, n=n, seq=data, ok=ok, op=op, partial=partial, ver=ver)
    nver = mk('app', ('wr', ver, pos, data))
    bad = mk('app', ('wrfail', ver) + op)
    if partial:
        nver = bad
        set_dev(st, d, app('posfail', *op, ty=U64), nver)
        return res(dty, ok, app('writen', *op, ty=USIZE), ioerr(I, op, dty))
    set_dev(st, d, mk_ite(ok, add(pos, n), app('posfail', *op, ty=U64)), mk_ite(ok, nver, bad))
    return res(dty, ok, unit(I), ioerr(I, op, dty))


@pre('core::io::write::Write::flush', 'std::fs::File::sync_all', 'std::fs::File::sync_data', 'std::fs::File::set_len')
def m_flush(I, st, f, a, dty):
    r = f.get('res')
    if r is not None and r.get('krate') == I.w.local:
        return NotImplemented
    tv = val(I, st, a[0])
    if tv.op in ('seq', 'flat') or (tv.ty is not None and tv.ty.k == 'adt' and tv.ty.path == 'alloc::vec::Vec'):
        return Ok(dty, unit(I))
    d = tv
    s = dev_state(I, st, d)
    op = I.opid()
    ok = okatom(I, op)
    kind = {'flush': 'flush', 'sync_all': 'sync', 'sync_data': 'sync', 'set_len': 'setlen'}[f['name']]
    I.ev(kind, st.pc, dev=d, ok=ok, op=op, how=f['name'])
    if kind == 'setlen':
        set_dev(st, d, part(s, 0), mk('app', ('wrfail', part(s, 1)) + op))
    return res(dty, ok, unit(I), ioerr(I, op, dty))


def unknown_fn(I, st, g, args, dty):
    """call through an unknown function value"""
    if g.ty is not None and g.ty.k == 'fnptr' or g.op in ('proj', 'sym', 'deref', 'app'):
        if len(args) == 1 and dty.k == 'adt' and dty.path == RES:
            d = val(I, st, args[0])
            op = I.opid()
            ok = okatom(I, op)
            dev_state(I, st, d)
            I.ev('sync', st.pc, dev=d, ok=ok, op=op, fn_value=g, how='fnptr')
            return res(dty, ok, unit(I), ioerr(I, op, dty))
    if g.ty is not None and g.ty.k == 'param' or True:
        I.unknown.setdefault('call of unknown function value ' + show(g)[:60], set()).add(I.site())
        I.ev('opaque-call', st.pc, name='unknown function', args=tuple(args))
        if dty.k == 'never':
            st.pc = FALSE
            return None
        return wrap(mk('app', ('call', 'unknown', g) + I.opid(), dty))


# ------------------------------------------------------------------ files

FLAGS = ('read', 'write', 'append', 'truncate', 'create', 'create_new')


@pre('std::fs::OpenOptions::new', 'std::fs::File::options')
def m_oonew(I, st, f, a, dty):
    return mk('openopts', (FALSE,) * 6, dty)


@pat(r'^std::fs::OpenOptions::(read|write|append|truncate|create|create_new)$')
def m_ooset(I, st, f, a, dty):
    i = FLAGS.index(f['name'])
    r = I.innermost_ref(st, a[0])

    def s(v):
        if v.op == 'ite':
            return mk_ite(v.a[0], s(v.a[1]), s(v.a[2]))
        x = list(v.a)
        x[i] = a[1]
        return mk('openopts', tuple(x), v.ty)
    I.store(st, r, s(I.load(st, r)))
    return a[0]


@pre('std::fs::OpenOptions::open', 'std::fs::File::open', 'std::fs::File::create', 'std::fs::File::create_new')
def m_open(I, st, f, a, dty):
    n = f['decl']
    if n.endswith('OpenOptions::open'):
        o = val(I, st, a[0])
        path = a[1]
    else:
        path = a[0]
        flags = {'open': (TRUE, FALSE, FALSE, FALSE, FALSE, FALSE), 'create': (FALSE, TRUE, FALSE, TRUE, TRUE, FALSE),
                 'create_new': (TRUE, TRUE, FALSE, FALSE, FALSE, TRUE)}[f['name']]
        o = mk('openopts', flags)
    op = I.opid()
    ok = okatom(I, op)
    if o.op != 'openopts':
        o = mk('openopts', (bvar(mk('app', ('unkflag', o, tm.I(i)), TYPES.get('bool'))) for i in range(6)))
    I.ev('open', st.pc, ok=ok, op=op, flags=tuple(o.a), path=val(I, st, path))
    return res(dty, ok, app('file', *op, ty=dty.args[0]), ioerr(I, op, dty))


@pre('std::path::Path::display')
def m_display(I, st, f, a, dty):
    return app('display', val(I, st, a[0]), ty=dty)


@pre('std::path::Path::new', 'std::path::Path::to_path_buf')
def m_pathnew(I, st, f, a, dty):
    return mk('valref', (val(I, st, a[0]),)) if f['name'] == 'new' else val(I, st, a[0])


# ------------------------------------------------------------------ errors


@pat(r'(core|alloc|std)::io::error::.*Error.*::(new|other|kind|from)$')
def m_ioerr(I, st, f, a, dty):
    n = f['name']
    if n == 'kind':
        e = val(I, st, a[0])

        def k(e):
            if e.op == 'ite':
                return mk_ite(e.a[0], k(e.a[1]), k(e.a[2]))
            if e.op == 'app' and e.a[0] == 'ioerrnew':
                return e.a[1]
            return app('errkind', e, ty=dty)
        return k(e)
    if n == 'new':
        return mk('app', ('ioerrnew', a[0], val(I, st, a[1])), dty)
    return app('ioerr' + n, *[val(I, st, x) for x in a], ty=dty)


@pre('core::io::error::repr::Repr::new_simple')
def m_newsimple(I, st, f, a, dty):
    return mk('app', ('ioerrnew', a[0], BOT), dty)


@pat(r"core::io::error.*From<.*ErrorKind>.*::from$")
def m_ioerrfrom(I, st, f, a, dty):
    return mk('app', ('ioerrnew', a[0], BOT), dty)


# ------------------------------------------------------------------ formatting


def text_of(I, st, x):
    return val(I, st, x)


@pre('core::fmt::Formatter::<\'a>::write_str', 'core::fmt::Formatter::<\'a>::write_fmt', 'core::fmt::Formatter::<\'a>::pad', 'core::fmt::Write::write_str',
     'core::fmt::Write::write_fmt')
def m_fmtwrite(I, st, f, a, dty):
    op = I.opid()
    ok = okatom(I, op)
    t = val(I, st, a[1])
    tgt = val(I, st, a[0])
    if isinstance(tgt, T) and (tgt.op in ('strlit',) or tgt.ty is not None and tgt.ty.s == 'alloc::string::String'):
        I.store(st, I.innermost_ref(st, a[0]), mk('app', ('strcat', tgt, t), TYPES.get('alloc::string::String')))
        return agg(dty, 0, [unit(I)])
    I.ev('fmt', st.pc, text=t, ok=ok, op=op)
    return res(dty, ok, unit(I), app('fmterr', ty=dty.args[1]))


@pre("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::new_const", "core::fmt::Arguments::<'a>::from_str_nonconst")
def m_argstr(I, st, f, a, dty):
    return val(I, st, a[0])


@pre("core::fmt::Arguments::<'a>::new", "core::fmt::Arguments::<'a>::new_v1", "core::fmt::Arguments::<'a>::new_v1_formatted")
def m_args(I, st, f, a, dty):
    return mk('app', ('fmtargs',) + tuple(deep(I, st, x) for x in a), dty)


def deep(I, st, x, n=0):
    """value with references resolved"""
    if isinstance(x, B) or n > 4:
        return x
    v = val(I, st, x)
    if isinstance(v, T) and v.op == 'seq':
        xs = expand(v)
        if xs is not None and len(xs) < 40:
            return lit([deep(I, st, y, n + 1) for y in xs])
    return v


@pat(r"^core::fmt::rt::Argument::<'_>::(new_\w+|from_usize|none)$")
def m_arg(I, st, f, a, dty):
    return mk('app', ('fmtarg', f['name']) + tuple(deep(I, st, x) for x in a), dty)


@pre('alloc::fmt::format', 'alloc::fmt::format::format_inner')
def m_format(I, st, f, a, dty):
    v = val(I, st, a[0])
    if v.op == 'strlit':
        return v
    return mk('app', ('format', v), dty)


@pat(r"^core::fmt::(builders::Debug|Formatter::<'a>::debug_)")
def m_debug(I, st, f, a, dty):
    op = I.opid()
    if dty.k == 'adt' and dty.path == RES:
        I.ev('fmt', st.pc, text=mk('app', ('debug',)), ok=okatom(I, op), op=op)
        return res(dty, okatom(I, op), unit(I), app('fmterr', ty=dty.args[1]))
    if dty.k == 'ref':
        return a[0]
    return mk('app', ('debugbuilder',), dty)


@pat(r"(core::fmt::(Display|Debug|LowerHex|UpperHex|Binary|Octal)::fmt$)")
def m_fmt(I, st, f, a, dty):
    r = f.get('res')
    if r is not None and r.get('krate') == I.w.local:
        return NotImplemented
    op = I.opid()
    I.ev('fmt', st.pc, text=mk('app', ('fmtof', f['decl'], val(I, st, a[0]))), ok=okatom(I, op), op=op)
    return res(dty, okatom(I, op), unit(I), app('fmterr', ty=dty.args[1]))


@pat(r'^core::fmt::Formatter::')
def m_formatter(I, st, f, a, dty):
    return app('formatter.' + f['name'], ty=dty)


# ------------------------------------------------------------------ logging: no effect on results


@pat(r'^(log|tracing|tracing_core|log::__private_api|tracing::__macro_support)::')
def m_log(I, st, f, a, dty):
    I.noted.add('log:' + f['decl'])
    if dty.k == 'tuple' and not dty.d['elems']:
        return unit(I)
    if dty.k == 'never':
        return NotImplemented
    return app('logging', f['decl'], ty=dty)


@pat(r'(<log::|<tracing|tracing_core::|tracing::)')
def m_log2(I, st, f, a, dty):
    return m_log(I, st, f, a, dty)


# ------------------------------------------------------------------ crc


def alg_of(I, st, c):
    x = val(I, st, c)
    if isinstance(x, T) and x.op == 'agg':
        return val(I, st, x.a[1])
    return mk('app', ('alg', x))


@pat(r'^crc::.*::(digest|digest_with_initial|checksum|update|finalize|new)$')
def m_crc(I, st, f, a, dty):
    n = f['name']
    if n == 'checksum':
        return P(mk('app', ('crc', alg_of(I, st, a[0]), val(I, st, a[1])), U32))
    if n == 'digest':
        return mk('crcd', (alg_of(I, st, a[0]), mk('seq', ())), dty)
    if n == 'update':
        r = I.innermost_ref(st, a[0])
        d = I.load(st, r)
        data = val(I, st, a[1])

        def upd(d):
            if d.op == 'ite':
                return mk_ite(d.a[0], upd(d.a[1]), upd(d.a[2]))
            if d.op == 'crcd':
                return mk('crcd', (d.a[0], concat(d.a[1], data)), d.ty)
            return mk('app', ('crcupd', d, data), d.ty)
        I.store(st, r, upd(d))
        return unit(I)
    if n == 'finalize':
        d = val(I, st, a[0])

        def fin(d):
            if d.op == 'ite':
                return mk_ite(d.a[0], fin(d.a[1]), fin(d.a[2]))
            if d.op == 'crcd':
                return P(mk('app', ('crc', d.a[0], d.a[1]), U32))
            return P(mk('app', ('crcfin', d), U32))
        return fin(d)
    return NotImplemented


# ------------------------------------------------------------------ uuid


def uu(I, bs, ty=None):
    ty = ty or TYPES.get('uuid::Uuid')
    inner = ty.field_ty(0, 0)
    return agg(ty, 0, [lit(list(bs))])


@pre('uuid::builder::<impl uuid::Uuid>::from_fields', 'uuid::builder::<impl uuid::Uuid>::from_fields_le')
def m_ff(I, st, f, a, dty):
    d4 = val(I, st, a[3])
    d4 = expand(d4, U8) or [elem(d4, tm.I(i), U8) for i in range(8)]
    b1, b2, b3 = le_bytes(a[0], 4), le_bytes(a[1], 2), le_bytes(a[2], 2)
    if f['name'] == 'from_fields':
        b1, b2, b3 = b1[::-1], b2[::-1], b3[::-1]
    return uu(I, b1 + b2 + b3 + d4, dty)


def ub(I, st, x):
    u = val(I, st, x)
    return expand(sq.uuid_bytes(u), U8), u


@pre('uuid::Uuid::as_fields', 'uuid::Uuid::to_fields_le')
def m_asf(I, st, f, a, dty):
    bs, u = ub(I, st, a[0])
    le_ = f['name'] != 'as_fields'
    o = (lambda x: x) if le_ else (lambda x: x[::-1])
    return tup(I, dty, [le_int(o(bs[0:4]), U32), le_int(o(bs[4:6]), U16), le_int(o(bs[6:8]), U16), mk('valref', (lit(bs[8:16]),))])


@pat(r'^uuid::(builder::<impl uuid::Uuid>|Uuid)::(nil|from_bytes|from_bytes_le|from_u128|from_u128_le|from_slice|from_slice_le|from_bytes_ref|max|is_nil|as_bytes|into_bytes|to_bytes_le|as_u128|as_u64_pair|from_u64_pair|to_u128_le)$')
def m_uuid(I, st, f, a, dty):
    n = f['name']
    if n == 'nil':
        return uu(I, [ZERO] * 16, dty)
    if n == 'max':
        return uu(I, [tm.I(255)] * 16, dty)
    perm = [3, 2, 1, 0, 5, 4, 7, 6] + list(range(8, 16))
    if n in ('from_bytes', 'from_bytes_le'):
        bs = expand(val(I, st, a[0]), U8)
        if n.endswith('le'):
            bs = [bs[i] for i in perm]
        return uu(I, bs, dty)
    if n == 'from_bytes_ref':
        return mk('valref', (uu(I, expand(val(I, st, a[0]), U8)),))
    if n == 'from_slice':
        v = val(I, st, a[0])
        g = ieq(slen(v), tm.I(16))
        return res(dty, g, uu(I, [elem(v, tm.I(i), U8) for i in range(16)]), app('uuiderr', ty=dty.args[1]))
    if n == 'from_slice_le':
        v = val(I, st, a[0])
        g = ieq(slen(v), tm.I(16))
        return res(dty, g, uu(I, [elem(v, tm.I(i), U8) for i in perm]), app('uuiderr', ty=dty.args[1]))
    if n in ('from_u128', 'from_u128_le'):
        bs = le_bytes(a[0], 16)
        return uu(I, bs[::-1] if n == 'from_u128' else bs, dty)
    if n == 'is_nil':
        return veq(val(I, st, a[0]), uu(I, [ZERO] * 16))
    bs, u = ub(I, st, a[0])
    if n == 'as_bytes':
        return mk('valref', (lit(bs),))
    if n == 'into_bytes':
        return lit(bs)
    if n == 'to_bytes_le':
        return lit([bs[i] for i in perm])
    if n == 'as_u128':
        return le_int(bs[::-1], int_ty(128))
    if n == 'to_u128_le':
        return le_int(bs, int_ty(128))
    return NotImplemented


@pat(r'^uuid::.*::(new_v4|now_v7|new_v7)$')
def m_v4(I, st, f, a, dty):
    op = I.opid()
    I.ev('random', st.pc, op=op)
    return mk('app', ('uuidv4',) + op, dty)


def parse_const(s):
    x = s
    if x.startswith('urn:uuid:'):
        x = x[9:]
    elif x.startswith('{') and x.endswith('}'):
        x = x[1:-1]
    if re.fullmatch(r'[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}', x) or re.fullmatch(r'[0-9a-fA-F]{32}', x):
        return bytes.fromhex(x.replace('-', ''))
    return None


@pat(r'^uuid::parser::.*::(from_str|try_parse|parse_str|try_parse_ascii)$')
def m_uparse(I, st, f, a, dty):
    s = val(I, st, a[0])
    if s.op == 'strlit':
        b = parse_const(s.a[0])
        if b is None:
            return Err(dty, app('uuiderr', s, ty=dty.args[1]))
        return Ok(dty, uu(I, [tm.I(x) for x in b], dty.args[0]))
    if s.op == 'app' and s.a[0] in ('upper', 'lower'):
        s = s.a[1]       # parsing ignores case
    ok = bvar(mk('app', ('uuidok', s), TYPES.get('bool')))
    return res(dty, ok, mk('app', ('uuidparse', s), dty.args[0]), app('uuiderr', s, ty=dty.args[1]))


@pre('core::str::traits::FromStr::from_str', 'core::str::<impl str>::parse')
def m_fromstr(I, st, f, a, dty):
    r = f.get('res')
    if r is not None and r.get('krate') == I.w.local:
        return NotImplemented
    if dty.k == 'adt' and dty.path == RES and dty.args[0].s == 'uuid::Uuid':
        return m_uparse(I, st, f, a, dty)
    return NotImplemented


@pat(r'^uuid::fmt::')
def m_ufmt(I, st, f, a, dty):
    return NotImplemented


# ------------------------------------------------------------------ simple_bytes cursors


def over_cur(v, fn):
    if v.op == 'ite':
        return mk_ite(v.a[0], over_cur(v.a[1], fn), over_cur(v.a[2], fn))
    if v.op == 'bottom':
        return v
    return fn(v)


def cur_get(I, st, x):
    r = I.innermost_ref(st, x)
    v = val(I, st, r)
    return r, v


@pat(r'simple_bytes::bytes_(read|seek|write|array)::|<simple_bytes::')
def m_sb(I, st, f, a, dty):
    n = f['name']
    p = f['decl']
    r, v = cur_get(I, st, a[0]) if a else (None, None)
    if n == 'from' or v is None:
        return NotImplemented
    if v.op == 'ite':
        v = assume(v, st.pc)
    if v.op == 'ite':
        from .models import cases
        return NotImplemented
    if v.op != 'cur':
        # &[u8] / &mut [u8] as a cursor is not used by this crate
        if v.op == 'bottom':
            return BOT
        return NotImplemented
    data, pos = v.a
    L = slen(data)

    def setpos(p2):
        I.store(st, r, mk('cur', (data, p2), v.ty))

    def need(k):
        I.panic(st, ~le(add(pos, k), L), 'cursor out of room')
    if n == 'position':
        return pos
    if n in ('into_array', 'into_inner'):
        return data
    if n == 'as_slice':
        return mk('valref', (data,))
    if n == 'as_mut':
        return mk('ref', (r.a[0], r.a[1] + (('arg', 0, 'cur'),)))
    if n == 'remaining':
        return mk('valref', (sl(data, pos, L),))
    if n == 'remaining_mut':
        return mk('ref', (r.a[0], r.a[1] + (('arg', 0, 'cur'), ('range', pos, L))))
    if n in ('seek', 'try_seek'):
        I.panic(st, ~le(a[1], L), 'cursor seek')
        setpos(a[1])
        return unit(I)
    if n == 'advance':
        need(a[1])
        setpos(add(pos, a[1]))
        return unit(I)
    if n in ('read', 'peek'):
        k = a[1]
        need(k)
        if n == 'read':
            setpos(add(pos, k))
        return mk('valref', (sl(data, pos, add(pos, k)),))
    m = re.match(r'(read|write)_(le_)?([ui])(8|16|32|64|128)$', n)
    if m:
        w = int(m.group(4)) // 8
        need(tm.I(w))
        ty = int_ty(w * 8, m.group(3) == 'i')
        if m.group(1) == 'read':
            bs = [elem(data, add(pos, tm.I(i)), U8) for i in range(w)]
            if not m.group(2):
                bs = bs[::-1]
            setpos(add(pos, tm.I(w)))
            return le_int(bs, ty)
        x = a[1]
        bs = le_bytes(x, w)
        if not m.group(2):
            bs = bs[::-1]
        I.store(st, r, mk('cur', (splice(data, pos, add(pos, tm.I(w)), lit(bs)), add(pos, tm.I(w))), v.ty))
        return unit(I)
    if n == 'write':
        w = val(I, st, a[1])
        k = slen(w)
        need(k)
        I.store(st, r, mk('cur', (splice(data, pos, add(pos, k), w), add(pos, k)), v.ty))
        return unit(I)
    return NotImplemented


@pat(r'^std::f64::<impl f64>::|^core::f64::<impl f64>::')
def m_f64(I, st, f, a, dty):
    import math
    if a and a[0].op == 'float' and f['name'] in ('log2', 'floor', 'ceil', 'round'):
        x = float(a[0].a[0])
        r = {'log2': lambda: math.log2(x), 'floor': lambda: math.floor(x), 'ceil': lambda: math.ceil(x), 'round': lambda: round(x)}[f['name']]()
        return mk('float', (repr(float(r)),), dty)
    return app('f64.' + f['name'], *a, ty=dty)


class Models:
    pre = PRE
    post = POST
    patterns = PATTERNS

    @staticmethod
    def unknown_fn(I, st, g, args, dty):
        return unknown_fn(I, st, g, args, dty)

    @staticmethod
    def fnptr(I, st, g, args, dty):
        inst = g.a[1]
        if inst in I.w.bodies:
            return I.call_body(I.w.bodies[inst], args, st)
        return unknown_fn(I, st, g, args, dty)
