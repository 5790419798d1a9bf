"""Models of the library callees the analysis does not inline (device I/O, std collections,
iterator adapters, integer helpers, the crc/uuid/simple_bytes crates, formatting, logging)."""
import re
import struct
from .interp import *
from .interp import _has_ref
from . import terms as tm
from . import seqs as sq

PRE = {}
POST = {}
PATTERNS = []
UNKNOWN_OK = set()


def pre(*names):
    def d(f):
        for n in names:
            PRE[n] = f
        return f
    return d


def pat(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


# ------------------------------------------------------------------ small helpers


def Some(dty, x):
    return agg(dty, 1, [x])


def Nothing(dty):
    return agg(dty, 0, [])


def opt(dty, c, x):
    return mk_ite(c, Some(dty, x), Nothing(dty))


def Ok(dty, x):
    return agg(dty, 0, [x])


def Err(dty, x):
    return agg(dty, 1, [x])


def res(dty, c, x, e):
    return mk_ite(c, Ok(dty, x), Err(dty, e))


def unit(I):
    return agg(I.w.unit, 0, []) if I.w.unit is not None else mk('agg', (0,))


def val(I, st, x):
    return I.deref_all(st, x)


def tup(I, dty, xs):
    return agg(dty, 0, xs)


def okatom(I, op):
    return bvar(mk('app', ('ok',) + op, TYPES.get('bool')))


def is_map_ty(t):
    return t is not None and t.k == 'adt' and t.path == 'alloc::collections::btree::map::BTreeMap'


def _fn_args(f):
    return f.get('args') or []


# ------------------------------------------------------------------ identity-like

IDENT = [
    'core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'core::borrow::Borrow::borrow',
    'core::borrow::BorrowMut::borrow_mut',
    'alloc::string::String::as_str', 'alloc::string::String::as_bytes', 'alloc::string::String::as_mut_str',
    'alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice', 'core::array::<impl [T; N]>::as_slice',
    'core::array::<impl [T; N]>::as_mut_slice', 'alloc::string::String::into_bytes', 'alloc::vec::Vec::<T, A>::into_boxed_slice',
    'alloc::slice::<impl [T]>::into_vec', 'core::hint::must_use', 'core::intrinsics::likely', 'core::intrinsics::unlikely',
    'core::hint::black_box', 'core::str::<impl str>::as_bytes', 'core::convert::identity', 'alloc::boxed::Box::<T>::new',
    'alloc::string::String::into_boxed_str', 'alloc::boxed::Box::<T>::into_inner', 'alloc::borrow::ToOwned::to_owned_',
    'core::intrinsics::black_box', 'core::str::<impl str>::to_string_', 'core::mem::manually_drop::ManuallyDrop::<T>::new',
    'core::str::converts::from_utf8_unchecked', 'core::num::<impl u8>::to_le', 'core::intrinsics::cold_path_',
    'uuid::fmt::<impl uuid::Uuid>::as_hyphenated', 'uuid::fmt::<impl uuid::Uuid>::hyphenated', 'uuid::Uuid::as_bytes_',
    'alloc::boxed::Box::<[T]>::into_vec', 'alloc::boxed::Box::<T, A>::leak',
]


@pre(*IDENT)
def m_ident(I, st, f, a, dty):
    return a[0]


@pre('core::convert::AsRef::as_ref', 'core::convert::AsMut::as_mut')
def m_asref(I, st, f, a, dty):
    v = a[0]
    r = f.get('res')
    if r is None:
        # a generic parameter: a pure view of the value
        x = val(I, st, v)
        return mk('valref', (app('asref', x, ty=dty.to if dty.k == 'ref' else None),), dty)
    if r['krate'] == I.w.local:
        return NotImplemented
    return v


@pre('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'alloc::slice::<impl [T]>::to_vec',
     'alloc::string::ToString::to_string', 'core::option::Option::<&T>::cloned_', 'alloc::str::<impl str>::to_owned',
     'alloc::borrow::Cow::<\'_, B>::into_owned')
def m_clone(I, st, f, a, dty):
    r = f.get('res')
    if r is not None and r.get('krate') == I.w.local and r.get('inst') is not None:
        return NotImplemented
    if f['name'] == 'into_owned':
        return val(I, st, a[0])
    if f['name'] == 'clone' and isinstance(a[0], T) and dty is not None and dty.k == 'ref':
        return I.load(st, a[0])
    if f['name'] == 'to_string':
        x = val(I, st, a[0])
        if isinstance(x, T) and (x.op in ('strlit',) or x.ty is not None and x.ty.s in ('str', 'alloc::string::String')
                                 or x.op == 'app' and x.a[0] in ('utf8lossy', 'utf16lossy', 'strof', 'upper', 'format')):
            return x
        return app('tostring', x, ty=dty)
    if r is not None and r['kind'] == 'item' and r.get('inst') is not None and 'btree' not in r['path'] and not (
            'Vec' in r['path'] or 'String' in r['path'] or 'slice' in r['path']) and r['inst'] in I.w.bodies:
        return NotImplemented
    x = val(I, st, a[0])
    if isinstance(x, T) and x.op == 'iter':
        return x
    return x


@pre('core::mem::replace', 'alloc::collections::btree::mem::replace')
def m_replace(I, st, f, a, dty):
    old = I.load(st, a[0])
    I.store(st, a[0], a[1])
    return old


@pre('core::mem::swap')
def m_swap(I, st, f, a, dty):
    x, y = I.load(st, a[0]), I.load(st, a[1])
    I.store(st, a[0], y)
    I.store(st, a[1], x)
    return unit(I)


@pre('core::mem::take')
def m_take(I, st, f, a, dty):
    old = I.load(st, a[0])
    new = default_of(I, dty)
    if new is None:
        return NotImplemented
    I.store(st, a[0], new)
    return old


def default_of(I, ty):
    if ty.k == 'int':
        return ZERO
    if ty.k == 'bool':
        return FALSE
    if is_map_ty(ty):
        return mk('mapempty', (), ty)
    if ty.k == 'adt':
        if ty.path == 'alloc::vec::Vec':
            return mk('seq', ())
        if ty.path == 'alloc::string::String':
            return strlit('')
        if ty.path == OPT:
            return Nothing(ty)
    return None


@pre('core::default::Default::default')
def m_default(I, st, f, a, dty):
    r = f.get('res')
    if r is not None and r.get('krate') == I.w.local:
        return NotImplemented
    v = default_of(I, dty)
    return v if v is not None else NotImplemented


@pre('core::mem::drop', 'core::mem::forget', 'core::ptr::drop_in_place')
def m_drop(I, st, f, a, dty):
    return unit(I)


@pre('core::mem::size_of', 'core::intrinsics::size_of', 'core::mem::size_of_val')
def m_size_of(I, st, f, a, dty):
    ar = [I.w.types[x] for x in _fn_args(f) if isinstance(x, int)]
    if f['name'] == 'size_of' and ar and ar[0].k == 'int':
        return tm.I(ar[0].d['bits'] // 8)
    if f['name'] == 'size_of' and ar and ar[0].k == 'array' and ar[0].elem.k == 'int':
        return tm.I(ar[0].d['len'] * ar[0].elem.d['bits'] // 8)
    return NotImplemented


# ------------------------------------------------------------------ panics


@pat(r'(^core::panicking::|::unwrap_failed|::expect_failed|^std::rt::begin_panic|::panic_fmt$|_fail$|slice_error_fail|panic_display)')
def m_panic(I, st, f, a, dty):
    I.panic(st, TRUE, f['decl'].split('::')[-1])
    return None


@pat(r'::precondition_check$')
def m_precond(I, st, f, a, dty):
    return unit(I)


@pre('core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::assert_failed', 'core::option::unwrap_failed',
     'core::option::expect_failed', 'core::result::unwrap_failed', 'core::panicking::unreachable_display', 'core::panicking::panic_nounwind')
def m_panic2(I, st, f, a, dty):
    I.panic(st, TRUE, f['decl'].split('::')[-1])
    return None


@pre('core::intrinsics::cold_path', 'core::intrinsics::assume', 'core::hint::assert_unchecked')
def m_nop(I, st, f, a, dty):
    return unit(I)


@pre('core::hint::unreachable_unchecked', 'core::option::Option::<T>::unwrap_unchecked', 'core::result::Result::<T, E>::unwrap_unchecked')
def m_unchecked(I, st, f, a, dty):
    if f['name'] == 'unreachable_unchecked':
        I.ev('unchecked', st.pc, what='unreachable')
        st.pc = FALSE
        return None
    x = a[0]
    v = 1 if 'option' in f['decl'] else 0
    I.ev('unchecked', st.pc & ~isv(x, v), what=f['name'])
    return proj(x, v, 0, dty)


# ------------------------------------------------------------------ integers


def _ity(f, dty=None):
    m = re.search(r'<impl (u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)>', f['decl'])
    n = m.group(1)
    return TYPES.get(n) or int_ty({'usize': 64, 'isize': 64}.get(n) or int(n[1:]), n[0] == 'i', n)


@pat(r'core::num::<impl [ui](8|16|32|64|128|size)>::')
def m_int(I, st, f, a, dty):
    n = f['name']
    ty = _ity(f)
    bits = ty.d['bits']
    lo, hi = trange(ty)
    x = a[0] if isinstance(a[0], T) else None
    if x is not None and x.op != 'poly':
        x = val(I, st, x)
    if x is not None and x is not BOT and x.op != 'poly' and n not in ('from_le_bytes', 'from_be_bytes', 'from_ne_bytes', 'from_str_radix'):
        return NotImplemented
    y = a[1] if len(a) > 1 else None
    if n in ('checked_add', 'checked_sub', 'checked_mul', 'checked_div', 'checked_rem', 'checked_div_euclid', 'checked_next_multiple_of'):
        op = n[8:]
        if op in ('add', 'sub', 'mul'):
            r = {'add': add, 'sub': sub, 'mul': mul}[op](x, y)
            return opt(dty, in_range(r, ty), r)
        nz = ~ieq(y, ZERO)
        if lo < 0:
            return NotImplemented
        g = nz
        if op == 'next_multiple_of':
            r = mul(int_div(add(x, sub(y, ONE)), y), y)
            return opt(dty, g & in_range(r, ty), r)
        return opt(dty, g, assume(int_div(x, y) if 'div' in op else int_mod(x, y), g))
    if n in ('overflowing_add', 'overflowing_sub', 'overflowing_mul'):
        r = {'add': add, 'sub': sub, 'mul': mul}[n[12:]](x, y)
        return tup(I, dty, [wrap_int(r, ty), ~in_range(r, ty)])
    if n in ('saturating_add', 'saturating_sub', 'saturating_mul'):
        r = {'add': add, 'sub': sub, 'mul': mul}[n[11:]](x, y)
        a_, b_ = prange(r)
        if b_ > hi:
            r = mk_ite(ge0(sub(tm.I(hi), r)), r, tm.I(hi))
        if a_ < lo:
            r = mk_ite(ge0(sub(r, tm.I(lo))), r, tm.I(lo))
        return r
    if n in ('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'unchecked_add', 'unchecked_sub', 'unchecked_mul'):
        r = {'add': add, 'sub': sub, 'mul': mul}[n.split('_')[1]](x, y)
        return wrap_int(r, ty, st.pc)
    if n in ('min', 'max'):
        c = le(x, y)
        return mk_ite(c, x, y) if n == 'min' else mk_ite(c, y, x)
    if n == 'abs_diff' and lo == 0:
        return mk_ite(le(x, y), sub(y, x), sub(x, y))
    if n in ('div_euclid', 'rem_euclid') and lo == 0:
        I.panic(st, ieq(y, ZERO), 'DivisionByZero')
        return int_div(x, y) if n[0] == 'd' else int_mod(x, y)
    if n == 'div_ceil' and lo == 0:
        I.panic(st, ieq(y, ZERO), 'DivisionByZero')
        if cval(y) is not None or True:
            q, r = int_div(x, y), int_mod(x, y)
            return mk_ite(ieq(r, ZERO), q, add(q, ONE))
    if n == 'next_multiple_of' and lo == 0:
        I.panic(st, ieq(y, ZERO), 'RemainderByZero')
        r = int_mod(x, y)
        v = mk_ite(ieq(r, ZERO), x, add(x, sub(y, r)))
        I.panic(st, ~in_range(v, ty), 'OverflowAdd')
        return v
    if n == 'is_multiple_of' and lo == 0:
        return mk_bool_ite(ieq(y, ZERO), ieq(x, ZERO), ieq(int_mod(x, y), ZERO))
    if n == 'pow' and lo == 0:
        c = cval(x)
        e = cval(y)
        if c is not None and e is not None:
            r = tm.I(c ** e)
            I.panic(st, ~in_range(r, ty), 'OverflowMul')
            return r
        if c == 2:
            r = P(mk('app', ('pow2', y)))
            I.panic(st, ge0(sub(y, tm.I(bits))), 'OverflowMul')
            return r
        if e is not None and e <= 4:
            r = ONE
            for _ in range(e):
                r = mul(r, x)
            I.panic(st, ~in_range(r, ty), 'OverflowMul')
            return r
        r = app('pow', x, y, ty=ty)
        I.panic(st, bvar(mk('app', ('powovf', x, y, tm.I(bits)), TYPES.get('bool'))), 'OverflowMul')
        return r
    if n in ('is_power_of_two',):
        return bvar(mk('app', ('ispow2', x), TYPES.get('bool')))
    if n in ('trailing_zeros', 'leading_zeros', 'count_ones', 'ilog2', 'checked_ilog2'):
        c = cval(x)
        if c is not None:
            if n == 'trailing_zeros':
                return tm.I((c & -c).bit_length() - 1 if c else bits)
            if n == 'leading_zeros':
                return tm.I(bits - c.bit_length())
            if n == 'count_ones':
                return tm.I(bin(c).count('1'))
        return app(n, x, ty=dty)
    if n in ('to_le_bytes', 'to_be_bytes', 'to_ne_bytes'):
        if lo < 0:
            x = wrap_int(x, int_ty(bits), TRUE)
        bs = le_bytes(x, bits // 8)
        if n == 'to_be_bytes':
            bs = bs[::-1]
        return lit(bs)
    if n in ('from_le_bytes', 'from_be_bytes', 'from_ne_bytes'):
        bs = expand(val(I, st, a[0]), U8)
        if bs is None:
            return NotImplemented
        if n == 'from_be_bytes':
            bs = bs[::-1]
        return le_int(bs, ty)
    if n in ('to_le', 'from_le'):
        return x
    if n in ('to_be', 'from_be', 'swap_bytes'):
        return le_int(le_bytes(x, bits // 8)[::-1], ty)
    if n in ('rotate_left', 'rotate_right', 'reverse_bits'):
        return NotImplemented
    if n in ('checked_shl', 'checked_shr'):
        g = ge0(sub(tm.I(bits - 1), y))
        return opt(dty, g, int_bit('Shl' if n.endswith('shl') else 'Shr', x, y, ty))
    if n in ('checked_pow',):
        c, e = cval(x), cval(y)
        if c is not None and e is not None:
            r = tm.I(c ** e)
            return opt(dty, in_range(r, ty), r)
    if n == 'is_positive':
        return lt(ZERO, x)
    return NotImplemented


def mk_bool_ite(c, a, b):
    return bite(c, a, b)


@pre('core::intrinsics::integer_max', 'core::intrinsics::integer_min', 'core::cmp::Ord::max', 'core::cmp::Ord::min',
     'core::cmp::max', 'core::cmp::min')
def m_minmax(I, st, f, a, dty):
    x, y = a
    if not (isinstance(x, T) and x.op == 'poly' and isinstance(y, T) and y.op == 'poly'):
        return NotImplemented
    c = le(x, y)
    return mk_ite(c, y, x) if 'max' in f['name'] else mk_ite(c, x, y)


@pre('core::cmp::Ord::clamp')
def m_clamp(I, st, f, a, dty):
    x, lo, hi = a
    if x.op != 'poly':
        return NotImplemented
    I.panic(st, lt(hi, lo), 'clamp')
    return mk_ite(lt(x, lo), lo, mk_ite(lt(hi, x), hi, x))


# ------------------------------------------------------------------ equality


@pre('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne', 'core::intrinsics::raw_eq')
def m_eq(I, st, f, a, dty):
    r = f.get('res')
    if f['name'] != 'ne' and r is not None and r.get('krate') == I.w.local:
        return NotImplemented
    if f['name'] == 'ne' and r is not None and r.get('inst') is not None and r['path'] == 'core::cmp::PartialEq::ne':
        return NotImplemented
    x, y = val(I, st, a[0]), val(I, st, a[1])
    if isinstance(x, T) and isinstance(y, T) and x.ty is not None and x.ty.k == 'adt' and x.ty.path in (OPT, RES) and r is not None and r.get('inst') is not None:
        return NotImplemented
    e = veq(x, y)
    return ~e if f['name'] == 'ne' else e


@pre('core::str::<impl str>::eq_ignore_ascii_case')
def m_eqic(I, st, f, a, dty):
    return veq(upper(val(I, st, a[0])), upper(val(I, st, a[1])))


# ------------------------------------------------------------------ strings


def upper(x):
    if x.op == 'strlit':
        return strlit(''.join(chr(ord(c) - 32) if 'a' <= c <= 'z' else c for c in x.a[0]))
    if x.op == 'app' and x.a[0] in ('upper', 'lower'):
        return upper(x.a[1]) if x.a[0] == 'lower' else x
    return mk('app', ('upper', x), x.ty)


tm.REBUILD['app:upper'] = lambda a, ty: upper(a[0])


def lower(x):
    if x.op == 'strlit':
        return strlit(''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in x.a[0]))
    return mk('app', ('lower', x), x.ty)


tm.REBUILD['app:lower'] = lambda a, ty: lower(a[0])


@pre('alloc::str::<impl str>::to_ascii_uppercase')
def m_upper(I, st, f, a, dty):
    return upper(val(I, st, a[0]))


@pre('alloc::str::<impl str>::to_ascii_lowercase')
def m_lower(I, st, f, a, dty):
    return lower(val(I, st, a[0]))


@pre('alloc::str::<impl str>::to_uppercase', 'alloc::str::<impl str>::to_lowercase')
def m_uc(I, st, f, a, dty):
    return app(f['name'], val(I, st, a[0]), ty=dty)


@pre('alloc::string::String::from_utf8_lossy')
def m_u8l(I, st, f, a, dty):
    return mk('app', ('utf8lossy', val(I, st, a[0])), TYPES.get('str'))


@pre('core::str::converts::from_utf8', 'alloc::string::String::from_utf8')
def m_u8(I, st, f, a, dty):
    x = val(I, st, a[0])
    if f['decl'].startswith('core'):
        return res(dty, bvar(mk('app', ('isutf8', x), TYPES.get('bool'))), mk('valref', (mk('app', ('utf8lossy', x), TYPES.get('str')),)), app('utf8err', x, ty=dty.args[1]))
    return res(dty, bvar(mk('app', ('isutf8', x), TYPES.get('bool'))), mk('app', ('utf8lossy', x), TYPES.get('str')), app('utf8err', x, ty=dty.args[1]))


@pre('alloc::string::String::from_utf16_lossy')
def m_u16l(I, st, f, a, dty):
    return mk('app', ('utf16lossy', val(I, st, a[0])), dty)


@pre('alloc::string::String::new')
def m_strnew(I, st, f, a, dty):
    return strlit('')


@pat(r"(<alloc::string::String as core::convert::From<&(mut )?str>>::from|<alloc::boxed::Box<str> as .*From)")
def m_strfrom(I, st, f, a, dty):
    return val(I, st, a[0])


@pre('core::str::<impl str>::len', 'alloc::string::String::len', 'core::slice::<impl [T]>::len', 'alloc::vec::Vec::<T, A>::len')
def m_len(I, st, f, a, dty):
    return slen(val(I, st, a[0]))


@pre('core::slice::<impl [T]>::is_empty', 'alloc::vec::Vec::<T, A>::is_empty', 'core::str::<impl str>::is_empty', 'alloc::string::String::is_empty')
def m_isempty(I, st, f, a, dty):
    return ieq(slen(val(I, st, a[0])), ZERO)


@pre('core::str::<impl str>::encode_utf16')
def m_enc16(I, st, f, a, dty):
    s = val(I, st, a[0])
    if s.op == 'strlit':
        b = s.a[0].encode('utf-16-le')
        return mkiter(('seq', lit([tm.I(x) for x in struct.unpack('<%dH' % (len(b) // 2), b)]), 'val'))
    return mkiter(('seq', mk('app', ('utf16', s), None), 'val', U16))


@pat(r'core::str::<impl str>::(chars|bytes|trim|trim_matches|trim_end_matches|trim_start_matches|trim_end|trim_start|starts_with|ends_with|contains|parse|find|split|lines|char_indices|is_char_boundary)$')
def m_strfns(I, st, f, a, dty):
    if f['name'] == 'bytes':
        return mkiter(('seq', val(I, st, a[0]), 'val', U8))
    if f['name'] == 'parse':
        return NotImplemented
    return app('str.' + f['name'], *[val(I, st, x) for x in a], ty=dty)


# ------------------------------------------------------------------ vectors and slices


@pre('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity', 'alloc::vec::Vec::<T, A>::with_capacity_in')
def m_vnew(I, st, f, a, dty):
    if a and a[0].op == 'poly':
        I.ev('alloc', st.pc, n=a[0])
    return mk('seq', ())


@pre('alloc::vec::from_elem')
def m_from_elem(I, st, f, a, dty):
    I.ev('alloc', st.pc, n=a[1])
    return rep(a[0], ival(a[1]) if False else a[1])


@pre('alloc::vec::Vec::<T, A>::push')
def m_push(I, st, f, a, dty):
    v = I.load(st, a[0])
    I.store(st, a[0], concat(v, lit([a[1]])))
    return unit(I)


@pre('alloc::vec::Vec::<T, A>::pop')
def m_pop(I, st, f, a, dty):
    v = I.load(st, a[0])
    n = slen(v)
    g = ~ieq(n, ZERO)
    x = elem(v, sub(n, ONE))
    I.store(st, a[0], mk_ite(g, sl(v, ZERO, sub(n, ONE)), v))
    return opt(dty, g, x)


@pre('alloc::vec::Vec::<T, A>::clear')
def m_clear(I, st, f, a, dty):
    I.store(st, a[0], mk('seq', ()))
    return unit(I)


@pre('alloc::vec::Vec::<T, A>::reserve', 'alloc::vec::Vec::<T, A>::shrink_to_fit', 'alloc::vec::Vec::<T, A>::reserve_exact')
def m_reserve(I, st, f, a, dty):
    return unit(I)


@pre('alloc::vec::Vec::<T, A>::extend_from_slice', 'alloc::vec::Vec::<T, A>::append_')
def m_efs(I, st, f, a, dty):
    v = I.load(st, a[0])
    I.store(st, a[0], concat(v, val(I, st, a[1])))
    return unit(I)


@pre('alloc::vec::Vec::<T, A>::resize')
def m_resize(I, st, f, a, dty):
    v = I.load(st, a[0])
    n = slen(v)
    I.store(st, a[0], resize(v, a[1], a[2]))
    return unit(I)


def resize(v, n, x):
    m = slen(v)
    if m.op == 'poly' and tm._some_ite(m) is not None and v.op == 'ite':
        return mk_ite(v.a[0], resize(v.a[1], n, x), resize(v.a[2], n, x))
    g = le(m, n)
    if g is TRUE:
        return concat(v, rep(x, sub(n, m)))
    if g is FALSE:
        return sl(v, ZERO, n)
    if g.v != BIG:
        return mk_ite(g, concat(v, rep(x, sub(n, m))), sl(v, ZERO, n))
    return mk_ite(g, concat(v, rep(x, sub(n, m))), sl(v, ZERO, n))


@pre('alloc::vec::Vec::<T, A>::truncate')
def m_truncate(I, st, f, a, dty):
    v = I.load(st, a[0])
    n = slen(v)
    I.store(st, a[0], mk_ite(lt(a[1], n), sl(v, ZERO, a[1]), v))
    return unit(I)


@pre('alloc::vec::Vec::<T, A>::insert')
def m_vinsert(I, st, f, a, dty):
    v = I.load(st, a[0])
    n = slen(v)
    I.panic(st, lt(n, a[1]), 'vec insert index')
    I.store(st, a[0], concat(concat(sl(v, ZERO, a[1]), lit([a[2]])), sl(v, a[1], n)))
    return unit(I)


@pre('core::slice::<impl [T]>::fill')
def m_fill(I, st, f, a, dty):
    v = I.load(st, a[0])
    I.store(st, a[0], rep(a[1], slen(v)))
    return unit(I)


@pre('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def m_cfs(I, st, f, a, dty):
    v, w = I.load(st, a[0]), val(I, st, a[1])
    I.panic(st, ~ieq(slen(v), slen(w)), 'copy_from_slice length')
    I.store(st, a[0], w)
    return unit(I)


@pre('core::slice::<impl [T]>::sort_unstable', 'alloc::slice::<impl [T]>::sort')
def m_sort(I, st, f, a, dty):
    v = I.load(st, a[0])
    I.store(st, a[0], mk('app', ('sort', v), v.ty))
    return unit(I)


@pat(r'slice::<impl \[T\]>::sort(_unstable)?_by(_key|_cached_key)?$')
def m_sortby(I, st, f, a, dty):
    v = I.load(st, a[0])
    I.store(st, a[0], mk('app', ('sortby', v, a[1]), v.ty))
    return unit(I)


@pre('core::slice::<impl [T]>::concat', 'alloc::slice::<impl [T]>::concat')
def m_concat(I, st, f, a, dty):
    xs = expand(val(I, st, a[0]))
    if xs is None:
        return NotImplemented
    r = mk('seq', ())
    for x in xs:
        r = concat(r, val(I, st, x))
    return r


@pre('alloc::boxed::Box::<T>::new_uninit')
def m_newuninit(I, st, f, a, dty):
    return mk('ref', (I.alloc(st, BOT, 'box'), ()))


@pre('alloc::boxed::box_assume_init_into_vec_unsafe')
def m_boxvec(I, st, f, a, dty):
    return val(I, st, a[0])


def range_of(I, x, n):
    """(lo, hi, kind) of a range value used as an index"""
    p = x.ty.path if isinstance(x, T) and x.ty is not None and x.ty.k == 'adt' else None
    if p is None or not p.startswith('core::ops::range::'):
        return None
    k = p.split('::')[-1]
    g = lambda i: proj(x, 0, i, x.ty.field_ty(0, i))
    if k == 'Range':
        return g(0), g(1)
    if k == 'RangeTo':
        return ZERO, g(0)
    if k == 'RangeFrom':
        return g(0), n
    if k == 'RangeFull':
        return ZERO, n
    if k == 'RangeInclusive':
        return g(0), add(g(1), ONE)
    if k == 'RangeToInclusive':
        return ZERO, add(g(0), ONE)
    return None


def _sub_ref(I, st, base, step, mut):
    """reference to a part of the place behind base"""
    r = I.innermost_ref(st, base)
    if mut and r.op == 'ref':
        return mk('ref', (r.a[0], r.a[1] + (step,)))
    if mut and r.op == 'ite':
        return mk_ite(r.a[0], _sub_ref(I, st, r.a[1], step, mut), _sub_ref(I, st, r.a[2], step, mut))
    return mk('valref', (I.get1(val(I, st, base), step),))


@pre('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def m_index(I, st, f, a, dty):
    r = f.get('res')
    if r is not None and r.get('krate') == I.w.local:
        return NotImplemented
    mut = f['name'] == 'index_mut'
    v = val(I, st, a[0])
    if is_map_ty(v.ty) or v.op in ('mapins', 'maprem', 'mapflat', 'mapempty'):
        k = val(I, st, a[1])
        I.panic(st, ~map_has(v, k), 'map index')
        return mk('valref', (map_value(v, k, dty.to),))
    n = slen(v)
    i = a[1]
    if i.op == 'poly':
        I.panic(st, ~lt(i, n), 'BoundsCheck')
        return _sub_ref(I, st, a[0], ('idx', i, dty.to if dty.k == 'ref' else None), mut)
    rg = range_of(I, i, n)
    if rg is None:
        return NotImplemented
    lo, hi = rg
    I.panic(st, ~le(lo, hi), 'slice index order')
    I.panic(st, ~le(hi, n), 'slice end index')
    return _sub_ref(I, st, a[0], ('range', lo, hi), mut)


@pre('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut', 'core::str::<impl str>::get')
def m_sget(I, st, f, a, dty):
    mut = f['name'] == 'get_mut'
    v = val(I, st, a[0])
    n = slen(v)
    i = a[1]
    if i.op == 'poly':
        return opt(dty, lt(i, n), _sub_ref(I, st, a[0], ('idx', i, dty.args[0].to), mut))
    rg = range_of(I, i, n)
    if rg is None:
        return NotImplemented
    lo, hi = rg
    return opt(dty, le(lo, hi) & le(hi, n), _sub_ref(I, st, a[0], ('range', lo, hi), mut))


@pre('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last_mut')
def m_first(I, st, f, a, dty):
    v = val(I, st, a[0])
    n = slen(v)
    i = ZERO if f['name'].startswith('first') else sub(n, ONE)
    return opt(dty, ~ieq(n, ZERO), _sub_ref(I, st, a[0], ('idx', i, dty.args[0].to), f['name'].endswith('mut')))


@pre('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def m_split_at(I, st, f, a, dty):
    v = val(I, st, a[0])
    n = slen(v)
    mut = f['name'].endswith('mut')
    I.panic(st, ~le(a[1], n), 'split_at')
    return tup(I, dty, [_sub_ref(I, st, a[0], ('range', ZERO, a[1]), mut), _sub_ref(I, st, a[0], ('range', a[1], n), mut)])


@pre('core::slice::<impl [T]>::starts_with', 'core::slice::<impl [T]>::ends_with')
def m_starts(I, st, f, a, dty):
    v, w = val(I, st, a[0]), val(I, st, a[1])
    n, m = slen(v), slen(w)
    g = le(m, n)
    if f['name'] == 'starts_with':
        return g & seq_eq(sl(v, ZERO, m), w, U8)
    return g & seq_eq(sl(v, sub(n, m), n), w, U8)


@pre('core::slice::<impl [T]>::contains')
def m_scontains(I, st, f, a, dty):
    v, w = val(I, st, a[0]), val(I, st, a[1])
    xs = expand(v)
    if xs is not None and len(xs) <= 64:
        r = FALSE
        for x in xs:
            r = r | veq(x, w)
        return r
    lv = mk('lv', ('c%d' % len([1 for l in I.loops if l.lv is not None]),))
    return mk_exists(lv, ival(slen(v)), veq(elem(v, P(lv)), w))


@pre('core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into')
def m_tryfrom(I, st, f, a, dty):
    r = f.get('res')
    if r is not None and r.get('krate') == I.w.local:
        return NotImplemented
    if dty.k != 'adt' or dty.path != RES:
        return NotImplemented
    t = dty.args[0]
    if t.k == 'ref' and t.to.k == 'array':
        t2 = t.to
    else:
        t2 = t
    if t2.k == 'array':
        v = val(I, st, a[0])
        ok = ieq(slen(v), tm.I(t2.d['len']))
        v2 = assume(v, ok)
        return res(dty, ok, mk('valref', (v2,)) if t.k == 'ref' else v2, app('tryfromslice', ty=dty.args[1]))
    if t.k == 'int' and isinstance(a[0], T) and a[0].op == 'poly':
        ok = in_range(a[0], t)
        return res(dty, ok, a[0], app('tryfromint', ty=dty.args[1]))
    return NotImplemented


@pre('core::convert::From::from', 'core::convert::Into::into')
def m_from(I, st, f, a, dty):
    r = f.get('res')
    if r is not None and r.get('krate') == I.w.local:
        return NotImplemented
    p = r['path'] if r else ''
    if 'simple_bytes::bytes_array::BytesArray' in p or 'simple_bytes::bytes::Bytes' in p or (
            dty.k == 'adt' and dty.path in ('simple_bytes::bytes_array::BytesArray', 'simple_bytes::bytes::Bytes')):
        return mk('cur', (val(I, st, a[0]), ZERO), dty)
    if dty.k in ('int', 'char') and isinstance(a[0], T) and a[0].op == 'poly':
        return a[0]
    if dty.k == 'int' and isinstance(a[0], B):
        return mk_ite(a[0], ONE, ZERO)
    if dty.k == 'adt' and dty.path in ('alloc::string::String', 'alloc::vec::Vec', 'alloc::boxed::Box'):
        if dty.path == 'alloc::boxed::Box' and isinstance(a[0], T) and not _refishv(a[0]):
            return a[0]
        return val(I, st, a[0])
    return NotImplemented


def _refishv(v):
    return v.op in ('ref', 'valref') or v.ty is not None and v.ty.k == 'ref'


# ------------------------------------------------------------------ ordered maps

BT = 'alloc::collections::btree::map::BTreeMap::<K, V, A>::'


def map_rules():
    pass


@pre('alloc::collections::btree::map::BTreeMap::<K, V>::new')
def m_mapnew(I, st, f, a, dty):
    return mk('mapempty', (), dty)


def vty_of(I, st, a, f):
    v = val(I, st, a[0])
    if isinstance(v, T) and is_map_ty(v.ty):
        return v.ty.args[1], v
    ar = [I.w.types[x] for x in _fn_args(f) if isinstance(x, int)]
    return (ar[1] if len(ar) > 1 else None), v


@pre(BT + 'contains_key')
def m_haskey(I, st, f, a, dty):
    return map_has(val(I, st, a[0]), val(I, st, a[1]))


@pre(BT + 'get', BT + 'get_mut', BT + 'get_key_value')
def m_mapget(I, st, f, a, dty):
    vt, m = vty_of(I, st, a, f)
    k = val(I, st, a[1])
    has = map_has(m, k)
    if f['name'] == 'get_mut':
        r = I.innermost_ref(st, a[0])
        return opt(dty, has, mk('ref', (r.a[0], r.a[1] + (('key', k, vt),))))
    v = mk('valref', (map_value(m, k, vt),))
    if f['name'] == 'get_key_value':
        return opt(dty, has, mk('agg', (0, mk('valref', (k,)), v), dty.args[0]))
    return opt(dty, has, v)


@pre(BT + 'insert')
def m_mapinsert(I, st, f, a, dty):
    vt, m = vty_of(I, st, a, f)
    k = a[1]
    old = opt(dty, map_has(m, k), map_value(m, k, vt))
    r = I.innermost_ref(st, a[0])
    I.store(st, r, mk_mapins(I.load(st, r), k, a[2]))
    return old


@pre(BT + 'remove', BT + 'remove_entry')
def m_mapremove(I, st, f, a, dty):
    vt, m = vty_of(I, st, a, f)
    k = val(I, st, a[1])
    has = map_has(m, k)
    v = map_value(m, k, vt)
    r = I.innermost_ref(st, a[0])
    I.store(st, r, mk_ite(has, mk_maprem(m, k), m))
    if f['name'] == 'remove_entry':
        return opt(dty, has, mk('agg', (0, k, v), dty.args[0]))
    return opt(dty, has, v)


@pre(BT + 'clear')
def m_mapclear(I, st, f, a, dty):
    m = val(I, st, a[0])
    I.store(st, I.innermost_ref(st, a[0]), mk('mapempty', (), m.ty))
    return unit(I)


@pre(BT + 'len')
def m_maplen(I, st, f, a, dty):
    return map_len(val(I, st, a[0]))


@pre(BT + 'is_empty')
def m_mapempty(I, st, f, a, dty):
    return ieq(map_len(val(I, st, a[0])), ZERO)


@pre(BT + 'iter', BT + 'keys', BT + 'values', BT + 'iter_mut', BT + 'values_mut', BT + 'into_values', BT + 'into_keys')
def m_mapiter(I, st, f, a, dty):
    vt, m = vty_of(I, st, a, f)
    mode = f['name']
    ref = None
    if mode in ('iter_mut', 'values_mut'):
        ref = I.innermost_ref(st, a[0])
    return mkiter(('map', m, mode, vt, ref))


@pre(BT + 'first_key_value', BT + 'last_key_value')
def m_mapfirst(I, st, f, a, dty):
    vt, m = vty_of(I, st, a, f)
    n = map_len(m)
    i = ZERO if f['name'].startswith('first') else sub(n, ONE)
    k = map_key(m, i)
    return opt(dty, ~ieq(n, ZERO), mk('agg', (0, mk('valref', (k,)), mk('valref', (map_value(m, k, vt),))), dty.args[0]))


@pre(BT + 'range')
def m_maprange(I, st, f, a, dty):
    return NotImplemented


def map_key(m, i):
    """i-th key in ascending order"""
    if m.op == 'ite':
        return mk_ite(m.a[0], map_key(m.a[1], i), map_key(m.a[2], i))
    kt = m.ty.args[0] if is_map_ty(m.ty) else U32
    return wrap(mk('app', ('mapkey', m, i), kt))


tm.REBUILD['app:mapkey'] = lambda a, ty: map_key(a[0], a[1])

# ------------------------------------------------------------------ iterators
#
# iter(src, idx, stages, counters...)   src = mk('src', (kind, ...))


def mkiter(src, idx=ZERO, stages=(), counters=()):
    if isinstance(src, tuple):
        src = mk('src', tuple(x for x in src))
    return mk('iter', (src, idx, stages) + tuple(counters), None)


def imin(a, b):
    return mk_ite(le(a, b), a, b)


def src_len(s):
    k = s.a[0]
    if k == 'range':
        lo, hi = s.a[1], s.a[2]
        n = sub(hi, lo)
        if prange(n)[0] >= 0:
            return ival(n)
        return ival(mk_ite(le(lo, hi), n, ZERO))
    if k == 'rangefrom':
        return None
    if k == 'seq':
        return ival(slen(s.a[1]))
    if k == 'map':
        return ival(map_len(s.a[1]))
    if k == 'chunks':
        n = slen(s.a[1])
        if s.a[3]:
            return ival(int_div(n, s.a[2]))
        q, r = int_div(n, s.a[2]), int_mod(n, s.a[2])
        return ival(mk_ite(ieq(r, ZERO), q, add(q, ONE)))
    if k == 'windows':
        n = slen(s.a[1])
        return ival(mk_ite(le(s.a[2], n), add(sub(n, s.a[2]), ONE), ZERO))
    if k == 'take':
        n = src_len(s.a[1])
        return s.a[2] if n is None else ival(imin(unival(n), s.a[2]))
    if k == 'skip':
        n = src_len(s.a[1])
        if n is None:
            return None
        n = unival(n)
        return ival(mk_ite(le(s.a[2], n), sub(n, s.a[2]), ZERO))
    if k == 'rev':
        return src_len(s.a[1])
    if k == 'step':
        n = src_len(s.a[1])
        if n is None:
            return None
        n = unival(n)
        q, r = int_div(n, s.a[2]), int_mod(n, s.a[2])
        return ival(mk_ite(ieq(r, ZERO), q, add(q, ONE)))
    if k == 'zip':
        a, b = src_len(s.a[1]), src_len(s.a[2])
        if a is None:
            return b
        if b is None:
            return a
        return ival(imin(unival(a), unival(b)))
    if k == 'chain':
        a, b = src_len(s.a[1]), src_len(s.a[2])
        return None if a is None or b is None else ival(add(unival(a), unival(b)))
    if k == 'flat':
        return s.a[1].a[1]
    if k == 'once':
        return ONE
    if k == 'empty':
        return ZERO
    if k == 'enum':
        return src_len(s.a[1])
    if k == 'repeat':
        return None
    raise Unsupported('iterator source ' + k)


def unival(n):
    a = atom_of(n)
    if a is not None and a.op == 'app' and a.a[0] == 'ival':
        return a.a[1]
    return n


def src_item(I, st, s, i):
    """(value, guard): i-th item; guard false = skipped"""
    k = s.a[0]
    if k == 'range':
        return add(s.a[1], i), TRUE
    if k == 'rangefrom':
        return add(s.a[1], i), TRUE
    if k == 'seq':
        v, mode = s.a[1], s.a[2]
        ety = s.a[3] if len(s.a) > 3 else None
        if mode == 'val':
            return elem(v, i, ety), TRUE
        if mode == 'mut' and len(s.a) > 4 and s.a[4] is not None:
            r = s.a[4]
            return mk('ref', (r.a[0], r.a[1] + (('idx', i, ety),))), TRUE
        return mkvalref(elem(v, i, ety), None), TRUE
    if k == 'map':
        m, mode, vt, ref = s.a[1], s.a[2], s.a[3], s.a[4]
        key = map_key(m, i)
        if mode in ('keys',):
            return mk('valref', (key,)), TRUE
        if mode == 'into_keys':
            return key, TRUE
        v = map_value(m, key, vt)
        if mode == 'values':
            return mkvalref(v, None), TRUE
        if mode == 'into_values':
            return v, TRUE
        if mode == 'iter':
            return mk('agg', (0, mk('valref', (key,)), mkvalref(v, None)), None), TRUE
        if mode == 'into':
            return mk('agg', (0, key, v), None), TRUE
        r = mk('ref', (ref.a[0], ref.a[1] + (('key', key, vt),)))
        if mode == 'values_mut':
            return r, TRUE
        return mk('agg', (0, mk('valref', (key,)), r), None), TRUE
    if k == 'chunks':
        lo = mul(i, s.a[2])
        hi = add(lo, s.a[2])
        if not s.a[3]:
            hi = imin(hi, slen(s.a[1]))
        if len(s.a) > 4 and s.a[4] is not None:
            r = s.a[4]
            return mk('ref', (r.a[0], r.a[1] + (('range', lo, hi),))), TRUE
        return mk('valref', (sl(s.a[1], lo, hi),)), TRUE
    if k == 'windows':
        return mk('valref', (sl(s.a[1], i, add(i, s.a[2])),)), TRUE
    if k == 'take':
        return src_item(I, st, s.a[1], i)
    if k == 'skip':
        return src_item(I, st, s.a[1], add(i, s.a[2]))
    if k == 'rev':
        n = unival(src_len(s.a[1]))
        return src_item(I, st, s.a[1], sub(sub(n, ONE), i))
    if k == 'step':
        return src_item(I, st, s.a[1], mul(i, s.a[2]))
    if k == 'zip':
        x, g = src_item(I, st, s.a[1], i)
        y, h = src_item(I, st, s.a[2], i)
        return mk('agg', (0, x, y), None), g & h
    if k == 'enum':
        x, g = src_item(I, st, s.a[1], i)
        return mk('agg', (0, i, x), None), g
    if k == 'chain':
        n = unival(src_len(s.a[1]))
        c = lt(i, n)
        if c is TRUE:
            return src_item(I, st, s.a[1], i)
        if c is FALSE:
            return src_item(I, st, s.a[2], sub(i, n))
        x, g = src_item(I, st, s.a[1], i)
        y, h = src_item(I, st, s.a[2], sub(i, n))
        return mk_ite(c, x, y), bite(c, g, h)
    if k == 'flat':
        f = s.a[1]
        lv, n, g, es = f.a
        v = subst(es[0], {lv: i})
        gg = subst(g, {lv: i})
        if s.a[2] != 'val':
            v = mkvalref(v, None)
        return v, gg
    if k == 'once':
        return s.a[1], TRUE
    if k == 'repeat':
        return s.a[1], TRUE
    raise Unsupported('iterator source ' + k)


def as_iter(I, st, v, dty=None):
    """convert an IntoIterator value to an iter term"""
    if isinstance(v, B):
        raise Unsupported('iterate bool')
    if v.op == 'iter':
        return v
    if v.op == 'ite':
        return mk_ite(v.a[0], as_iter(I, st, v.a[1]), as_iter(I, st, v.a[2]))
    if v.op == 'bottom':
        return v
    ty = v.ty
    if ty is not None and ty.k == 'adt' and ty.path.startswith('core::ops::range::'):
        k = ty.path.split('::')[-1]
        lo = proj(v, 0, 0, ty.field_ty(0, 0))
        if k == 'RangeFrom':
            return mkiter(('rangefrom', lo))
        hi = proj(v, 0, 1, ty.field_ty(0, 1))
        if k == 'Range':
            return mkiter(('range', lo, hi))
        if k == 'RangeInclusive':
            return mkiter(('range', lo, add(hi, ONE)))
    if ty is not None and ty.k == 'adt' and ty.path == OPT:
        x = proj(v, 1, 0, ty.field_ty(1, 0))
        return mk_ite(isv(v, 1), mkiter(('once', x)), mkiter(('empty',)))
    if v.op in ('ref', 'valref') or (ty is not None and ty.k == 'ref'):
        if v.op == 'ref':
            inner = I.load(st, v)
            if isinstance(inner, T) and inner.op == 'iter':
                return inner        # by_ref: caller must write back
        x = val(I, st, v)
        if isinstance(x, T) and x.op == 'iter':
            return x
        if isinstance(x, T) and (is_map_ty(x.ty) or x.op in ('mapins', 'maprem', 'mapflat', 'mapempty')):
            vt = x.ty.args[1]
            if v.op == 'ref':
                return mkiter(('map', x, 'iter_mut', vt, I.innermost_ref(st, v)))
            return mkiter(('map', x, 'iter', vt, None))
        if isinstance(x, T) and x.ty is not None and x.ty.k == 'adt' and x.ty.path == OPT:
            return NotImplemented
        return seq_iter(x, 'mut' if v.op == 'ref' else 'ref', None, I.innermost_ref(st, v) if v.op == 'ref' else None)
    if is_map_ty(ty) or v.op in ('mapins', 'maprem', 'mapflat', 'mapempty'):
        return mkiter(('map', v, 'into', ty.args[1], None))
    if sq._is_seqlike(v) or v.op in ('app', 'sym', 'proj', 'mu', 'deref'):
        return seq_iter(v, 'val', None, None)
    raise Unsupported('into_iter of %s' % show(v)[:100])


def seq_iter(x, mode, ety, ref):
    if x.op == 'ite':
        return mk_ite(x.a[0], seq_iter(x.a[1], mode, ety, ref), seq_iter(x.a[2], mode, ety, ref))
    if ety is None and x.ty is not None:
        if x.ty.k in ('array', 'slice'):
            ety = x.ty.elem
        elif x.ty.k == 'adt' and x.ty.path == 'alloc::vec::Vec':
            ety = x.ty.args[0]
    if x.op == 'seq' and len(x.a) == 1 and x.a[0][0] == 'opq':
        x = x.a[0][1]
    if x.op == 'flat' and len(x.a[3]) == 1 and mode != 'mut':
        return mkiter(('flat', x, mode))
    return mkiter(('seq', x, mode, ety, ref if mode == 'mut' else None))


@pre('core::iter::traits::collect::IntoIterator::into_iter')
def m_into_iter(I, st, f, a, dty):
    v = a[0]
    r = f.get('res')
    if r is not None and r.get('krate') == I.w.local:
        return NotImplemented
    if isinstance(v, T) and v.op == 'ref':
        inner = I.load(st, v)
        if isinstance(inner, T) and inner.op == 'iter':
            return v
    return as_iter(I, st, v)


@pre('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut')
def m_siter(I, st, f, a, dty):
    v = val(I, st, a[0])
    ety = None
    ar = [I.w.types[x] for x in _fn_args(f) if isinstance(x, int)]
    if ar:
        ety = ar[0]
    if f['name'] == 'iter_mut':
        return seq_iter(v, 'mut', ety, I.innermost_ref(st, a[0]))
    return seq_iter(v, 'ref', ety, None)


@pre('core::slice::<impl [T]>::chunks_exact', 'core::slice::<impl [T]>::chunks', 'core::slice::<impl [T]>::windows', 'core::slice::<impl [T]>::chunks_exact_mut',
     'core::slice::<impl [T]>::chunks_mut')
def m_chunks(I, st, f, a, dty):
    v = val(I, st, a[0])
    I.panic(st, ieq(a[1], ZERO), 'chunk size zero')
    if f['name'] == 'windows':
        return mkiter(('windows', v, a[1]))
    ref = I.innermost_ref(st, a[0]) if f['name'].endswith('mut') else None
    return mkiter(('chunks', v, a[1], 'exact' in f['name'], ref))


@pat(r'^core::iter::sources::(once::once|empty::empty|repeat::repeat)$')
def m_sources(I, st, f, a, dty):
    k = f['name']
    return mkiter((k,) + tuple(a))


IT = 'core::iter::traits::iterator::Iterator::'


def _ra(it):
    """random access: no stages applied"""
    return not it.a[2]


def _adapt(I, st, v):
    it = as_iter(I, st, v)
    if it is NotImplemented:
        raise Unsupported('iterator')
    return it


def _stage(it, s, counter=False):
    cs = it.a[3:]
    if counter:
        s = s + (len(cs),)
        cs = cs + (ZERO,)
    return mk('iter', (it.a[0], it.a[1], it.a[2] + (s,)) + cs, None)


def over(it, f):
    if it.op == 'ite':
        return mk_ite(it.a[0], over(it.a[1], f), over(it.a[2], f))
    if it.op == 'bottom':
        return it
    return f(it)


@pre(IT + 'enumerate')
def m_enum(I, st, f, a, dty):
    def g(it):
        if _ra(it) and it.a[1] is ZERO:
            return mkiter(('enum', it.a[0]))
        return _stage(it, ('enumerate',), True)
    return over(_adapt(I, st, a[0]), g)


@pre(IT + 'filter', IT + 'map', IT + 'filter_map', IT + 'inspect', IT + 'take_while', IT + 'skip_while', IT + 'map_while')
def m_stage(I, st, f, a, dty):
    if f['name'] in ('skip_while',):
        return NotImplemented
    return over(_adapt(I, st, a[0]), lambda it: _stage(it, (f['name'], a[1])))


@pre(IT + 'copied', IT + 'cloned')
def m_copied(I, st, f, a, dty):
    return over(_adapt(I, st, a[0]), lambda it: _stage(it, ('copied',)))


@pre(IT + 'take')
def m_itake(I, st, f, a, dty):
    def g(it):
        if _ra(it) and it.a[1] is ZERO:
            return mkiter(('take', it.a[0], a[1]))
        if not any(s[0] in ('filter', 'filter_map', 'take_while', 'map_while') for s in it.a[2]) and it.a[1] is ZERO:
            return mk('iter', (mk('src', ('take', it.a[0], a[1])),) + it.a[1:], None)
        return _stage(it, ('take', a[1]), True)
    return over(_adapt(I, st, a[0]), g)


@pre(IT + 'skip', IT + 'step_by', IT + 'rev')
def m_iskip(I, st, f, a, dty):
    def g(it):
        n = f['name']
        k = {'skip': 'skip', 'step_by': 'step', 'rev': 'rev'}[n]
        src = it.a[0]
        if n == 'step_by':
            I.panic(st, ieq(a[1], ZERO), 'step_by zero')
        if it.a[1] is not ZERO:
            src = mk('src', ('skip', src, it.a[1]))
        if _ra(it):
            return mkiter((k, src) + tuple(a[1:]))
        if n == 'rev' and all(s[0] in ('filter', 'map', 'filter_map', 'copied', 'inspect') for s in it.a[2]):
            return mk('iter', (mk('src', ('rev', src)), ZERO) + it.a[2:], None)
        if all(s[0] in ('map', 'copied') for s in it.a[2]):
            return mk('iter', (mk('src', (k, src) + tuple(a[1:])), ZERO) + it.a[2:], None)
        raise Unsupported('iterator ' + n)
    return over(_adapt(I, st, a[0]), g)


@pre(IT + 'zip', IT + 'chain')
def m_izip(I, st, f, a, dty):
    x, y = _adapt(I, st, a[0]), _adapt(I, st, a[1])

    def g(it):
        def h(jt):
            if _ra(it) and _ra(jt):
                sa = it.a[0] if it.a[1] is ZERO else mk('src', ('skip', it.a[0], it.a[1]))
                sb = jt.a[0] if jt.a[1] is ZERO else mk('src', ('skip', jt.a[0], jt.a[1]))
                return mkiter((f['name'], sa, sb))
            if f['name'] == 'zip' and _ra(jt):
                # stages on the left: pair by position only if nothing is filtered
                if all(s[0] in ('map', 'copied') for s in it.a[2]):
                    return _stage(it, ('zipwith', jt.a[0]), True)
            raise Unsupported('iterator ' + f['name'])
        return over(y, h)
    return over(x, g)


@pre(IT + 'by_ref', IT + 'peekable', IT + 'fuse')
def m_byref(I, st, f, a, dty):
    if f['name'] == 'peekable':
        return NotImplemented
    return a[0]


class Skip(Exception):
    pass


def load_iter(I, st, r):
    it = I.load(st, r)
    n = 0
    while isinstance(it, T) and it.op == 'ref' and n < 5:
        r = it
        it = I.load(st, it)
        n += 1
    if isinstance(it, T) and it.op not in ('iter', 'ite', 'bottom'):
        it = as_iter(I, st, it)
        if it is NotImplemented:
            raise Unsupported('iterator')
        I.store(st, r, it)
    return r, it


@pre(IT + 'next', 'core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def m_next(I, st, f, a, dty):
    rr = f.get('res')
    if rr is not None and rr.get('krate') == I.w.local:
        return NotImplemented
    raw = I.load(st, I.innermost_ref(st, a[0]))
    if isinstance(raw, T) and raw.op == 'app' and raw.a[0] == 'logging':
        # inside a logging macro: one value per field of the message
        return opt(dty, TRUE, app('logging', 'next', ty=dty.args[0]))
    r, it = load_iter(I, st, a[0])
    if f['name'] == 'next_back':
        return next_back(I, st, r, it, dty)
    if it.op == 'ite':
        it2 = assume(it, st.pc)
        if it2.op == 'iter':
            it = it2
    if it.op == 'bottom':
        st.pc = FALSE
        return BOT
    if it.op != 'iter':
        # different iterators on different paths
        return cases(I, st, it, lambda s, x: _next_on(I, s, r, x, dty))
    return next_one(I, st, r, it, dty)


def next_back(I, st, r, it, dty):
    if it.op == 'iter' and not it.a[2]:
        n = src_len(it.a[0])
        if n is not None:
            n = unival(n)
            some = lt(it.a[1], n)
            last = sub(n, ONE)
            v, g = src_item(I, st, it.a[0], last)
            if g is TRUE:
                I.store(st, r, mk_ite(some, mkiter(('take', it.a[0], last), it.a[1]), it))
                return opt(dty, some, v)
    raise Unsupported('next_back')


def _next_on(I, s, r, x, dty):
    I.store(s, r, x)
    return next_one(I, s, r, x, dty)


def cases(I, st, it, fn):
    a, b = st.copy(), st.copy()
    a.pc, b.pc = st.pc & it.a[0], st.pc & ~it.a[0]
    outs = []
    for s, x in ((a, it.a[1]), (b, it.a[2])):
        if s.pc is FALSE:
            continue
        v = cases(I, s, x, fn) if x.op == 'ite' else fn(s, x)
        if s.pc is FALSE:
            continue
        s.mem[('tmp', 'ret')] = v
        outs.append(s)
    j = I.join(outs)
    if j is None:
        st.pc = FALSE
        return None
    v = j.mem.pop(('tmp', 'ret'))
    st.mem, st.pc = j.mem, j.pc
    return v


def step_iter(I, st, r, it):
    """one element step: returns (has, value, pass guard); st is the state in which the element
    was produced (valid only where has); mutates st.mem"""
    src, idx, stages = it.a[:3]
    cs = list(it.a[3:])
    L = src_len(src)
    has = TRUE if L is None else lt(idx, L)
    more = has
    # stop conditions of counting stages come first
    for s in stages:
        if s[0] == 'take':
            more = more & lt(cs[s[2]], s[1])
    return has, more


def next_one(I, st, r, it, dty, item_only=False):
    src, idx, stages = it.a[:3]
    has, more = step_iter(I, st, r, it)
    I.decide(st, ~more)
    # exhausted
    none = st.copy()
    none.pc = st.pc & ~more
    some = st
    some.pc = st.pc & more
    if some.pc is FALSE:
        st.mem, st.pc = none.mem, none.pc
        return Nothing(dty)
    cs = list(it.a[3:])
    x, ok = src_item(I, some, src, idx)
    skip_states = []
    pos = [0]

    def write():
        I.store(some, r, mk('iter', (src, add(idx, ONE), stages) + tuple(cs), None))

    def skip(g):
        s2 = some.copy()
        s2.pc = some.pc & ~g
        if s2.pc is not FALSE:
            I.store(s2, r, mk('iter', (src, add(idx, ONE), stages) + tuple(cs), None))
            skip_states.append(s2)
        some.pc = some.pc & g
    stop_states = []
    if ok is not TRUE:
        skip(ok)
    for s in stages:
        if some.pc is FALSE:
            break
        k = s[0]
        if k == 'filter':
            p = I.call_value(some, s[1], [mkvalref_any(x)], I.w.bykey['bool'])
            if some.pc is FALSE:
                break
            skip(p)
        elif k == 'map':
            x = I.call_value(some, s[1], [x], clo_ret(I, some, s[1]))
        elif k == 'inspect':
            I.call_value(some, s[1], [mkvalref_any(x)], I.w.unit)
        elif k == 'filter_map':
            oty = clo_ret(I, some, s[1])
            o = I.call_value(some, s[1], [x], oty)
            if some.pc is FALSE:
                break
            p = isv(o, 1)
            skip(p)
            o = assume(o, some.pc)
            x = proj(o, 1, 0, o.ty.field_ty(1, 0) if o.ty is not None else None)
        elif k in ('take_while', 'map_while'):
            if k == 'take_while':
                p = I.call_value(some, s[1], [mkvalref_any(x)], I.w.bykey['bool'])
            else:
                o = I.call_value(some, s[1], [x], clo_ret(I, some, s[1]))
                if some.pc is FALSE:
                    break
                p = isv(o, 1)
                x = proj(assume(o, some.pc & p), 1, 0, o.ty.field_ty(1, 0) if o.ty is not None else None)
            if some.pc is FALSE:
                break
            s2 = some.copy()
            s2.pc = some.pc & ~p
            if s2.pc is not FALSE:
                I.store(s2, r, mkiter(('empty',)))
                stop_states.append(s2)
            some.pc = some.pc & p
        elif k == 'copied':
            x = I.load(some, x) if isinstance(x, T) else x
        elif k == 'enumerate':
            x = mk('agg', (0, cs[s[1]], x), None)
            cs[s[1]] = add(cs[s[1]], ONE)
        elif k == 'take':
            cs[s[2]] = add(cs[s[2]], ONE)
        elif k == 'zipwith':
            y, g2 = src_item(I, some, s[1], cs[s[2]])
            cs[s[2]] = add(cs[s[2]], ONE)
            x = mk('agg', (0, x, y), None)
        else:
            raise Unsupported('iterator stage ' + k)
    outs = []
    if none.pc is not FALSE:
        none.mem[('tmp', 'nx')] = Nothing(dty)
        outs.append(none)
    for s in stop_states:
        s.mem[('tmp', 'nx')] = Nothing(dty)
        outs.append(s)
    if some.pc is not FALSE:
        write()
        if dty.args[0].k == 'tuple' and isinstance(x, T) and x.op == 'agg' and x.ty is None:
            x = agg(dty.args[0], 0, x.a[1:])
        some.mem[('tmp', 'nx')] = Some(dty, x)
        outs.append(some)
    if skip_states:
        fr = I.loops[-1] if I.loops else None
        if fr is not None and all(skip_ok(I, fr, s, r) for s in skip_states):
            fr.skips += skip_states
        else:
            # search loop for the next element
            s0 = I.join(skip_states)
            j = seek_loop(I, s0, r, dty)
            if j is not None:
                outs.append(j)
    j = I.join(outs)
    if j is None:
        st.mem, st.pc = some.mem, FALSE
        return None
    v = j.mem.pop(('tmp', 'nx'))
    st.mem, st.pc = j.mem, j.pc
    return v


def skip_ok(I, fr, s, r):
    """s differs from the loop head only in the iterator (and temporaries of inner frames)"""
    if fr.head is None:
        return False
    h = fr.head.mem
    ra = r.a[0]
    for k, v in h.items():
        if k == ra:
            continue
        w = s.mem.get(k, v)
        if w is not v:
            if assume(w, s.pc) is assume(v, s.pc):
                continue
            return False
    return True


def seek_loop(I, st, r, dty):
    """continue next() until an element passes or the source ends"""
    it0 = I.load(st, r)

    def body(s):
        _, it = load_iter(I, s, r)
        n = len(I.loops[-1].skips)
        v = next_one(I, s, r, it, dty)
        if s.pc is FALSE:
            return [], []
        outs = []
        a, b = s.copy(), s
        c = isv(v, 1)
        a.pc, b.pc = s.pc & c, s.pc & ~c
        if a.pc is not FALSE:
            a.mem[('tmp', 'nx')] = assume(v, a.pc)
            outs.append((('nx', 1), a))
        if b.pc is not FALSE:
            b.mem[('tmp', 'nx')] = Nothing(dty)
            outs.append((('nx', 0), b))
        return [], outs
    exits = I.run_loop(st, body, 'iterator search')
    return I.join([s for k, s in exits])


def mkvalref_any(x):
    return mk('valref', (x,)) if isinstance(x, T) and x.op in ('ref', 'valref') or not isinstance(x, T) else mkvalref(x, None)


def clo_ret(I, st, f):
    """declared return type of a closure / function value"""
    g = f
    n = 0
    while isinstance(g, T) and g.op in ('ref', 'valref') and n < 8:
        g = I.load(st, g)
        n += 1
    if isinstance(g, T) and g.op == 'agg' and g.ty is not None and g.ty.k == 'closure':
        b = I.w.bodies.get(g.ty.d.get('inst'))
        if b is not None:
            return I.w.ty(b['locals'][0][0])
    if isinstance(g, T) and g.op == 'fn':
        rec = FNS[g.a[0]]
        r = rec.get('res')
        if r and r.get('inst') in I.w.bodies:
            return I.w.ty(I.w.bodies[r['inst']]['locals'][0][0])
        if rec.get('ret') is not None:
            return I.w.ty(rec['ret'])
    return I.w.unit


# ---- consumers


class OptTy:
    """stand-in option type for internal iteration"""


def anyopt(I):
    for t in I.w.types:
        if t.k == 'adt' and t.path == OPT:
            return t
    raise Unsupported('no Option type')


def consume(I, st, itv, step, name, extra=None):
    """internal iteration. step(s, x) -> [(None|key, state)]  (None: continue).
    Returns {key or 'done': state} joined."""
    holder = None
    if isinstance(itv, T) and itv.op == 'ref':
        inner = I.load(st, itv)
        if isinstance(inner, T) and (inner.op in ('iter', 'ite') or inner.ty is not None and inner.ty.k == 'adt'
                                     and inner.ty.path.startswith('core::ops::range::')):
            holder = itv
            load_iter(I, st, holder)
    if holder is None:
        it = _adapt(I, st, itv)
        if it.op == 'ite':
            outs = {}
            for c, x in ((it.a[0], it.a[1]), (~it.a[0], it.a[2])):
                s = st.copy()
                s.pc = st.pc & c
                if s.pc is FALSE:
                    continue
                for k, q in consume(I, s, x, step, name).items():
                    outs.setdefault(k, []).append(q)
            return {k: I.join(v) for k, v in outs.items()}
        if it.op == 'bottom':
            return {}
        holder = mk('ref', (I.alloc(st, it, 'it'), ()))
    oty = anyopt(I)

    def body(s):
        r, it = load_iter(I, s, holder)
        v = next_one(I, s, r, it, oty)
        if s.pc is FALSE:
            return [], []
        c = isv(v, 1)
        a, b = s.copy(), s
        a.pc, b.pc = s.pc & c, s.pc & ~c
        exits = []
        back = []
        if b.pc is not FALSE:
            exits.append(('done', b))
        if a.pc is not FALSE:
            x = proj(assume(v, a.pc), 1, 0, None)
            for key, q in step(a, x):
                if q.pc is FALSE:
                    continue
                if key is None:
                    back.append(q)
                else:
                    exits.append((key, q))
        return back, exits
    res_ = {}
    for k, s in I.run_loop(st, body, name):
        res_.setdefault(k, []).append(s)
    return {k: I.join(v) for k, v in res_.items() if I.join(v) is not None}


def split(s, c):
    a, b = s.copy(), s.copy()
    a.pc, b.pc = s.pc & c, s.pc & ~c
    return a, b


def finish(I, st, outs, valfn):
    """join consumer exits: outs {key: state}; valfn(key, state) -> value"""
    ss = []
    for k, s in outs.items():
        if s is None or s.pc is FALSE:
            continue
        s.mem[('tmp', 'cv')] = valfn(k, s)
        ss.append(s)
    j = I.join(ss)
    if j is None:
        st.pc = FALSE
        return None
    v = j.mem.pop(('tmp', 'cv'))
    for k in [k for k in j.mem if k[0] == 'tmp']:
        pass
    st.mem, st.pc = j.mem, j.pc
    return v


@pre(IT + 'find', IT + 'any', IT + 'all', IT + 'position', IT + 'find_map')
def m_find(I, st, f, a, dty):
    n = f['name']
    clo = a[1]
    cell = I.alloc(st, BOT, 'fv')
    ctr = I.alloc(st, ZERO, 'fc')
    boolty = I.w.bykey['bool']

    def step(s, x):
        if n == 'find':
            p = I.call_value(s, clo, [mkvalref_any(x)], boolty)
        elif n == 'find_map':
            o = I.call_value(s, clo, [x], dty)
            if s.pc is FALSE:
                return []
            p = isv(o, 1)
            x = proj(assume(o, s.pc & p), 1, 0, dty.args[0])
        else:
            p = I.call_value(s, clo, [x], boolty)
        if s.pc is FALSE:
            return []
        if n == 'all':
            p = ~p
        hit, go = split(s, p)
        if n in ('find', 'find_map'):
            hit.mem[cell] = x
        if n == 'position':
            hit.mem[cell] = s.mem[ctr]
            go.mem[ctr] = add(s.mem[ctr], ONE)
        return [('hit', hit), (None, go)]
    outs = consume(I, st, a[0], step, n)

    def v(k, s):
        if n in ('find', 'position', 'find_map'):
            if k == 'done':
                return Nothing(dty)
            x = s.mem.get(cell, BOT)
            if n == 'find' and dty.args[0].k == 'tuple' and isinstance(x, T) and x.op == 'agg' and x.ty is None:
                x = agg(dty.args[0], 0, x.a[1:])
            return Some(dty, x)
        return TRUE if (k == 'hit') == (n == 'any') else FALSE
    return finish(I, st, outs, v)


@pre(IT + 'collect', 'core::iter::traits::collect::FromIterator::from_iter')
def m_collect(I, st, f, a, dty):
    if dty.k != 'adt':
        return NotImplemented
    return collect_into(I, st, a[0], dty)


def collect_into(I, st, itv, dty):
    if dty.path == 'alloc::vec::Vec' or dty.path == 'alloc::boxed::Box':
        it = _adapt(I, st, itv)
        ety = dty.args[0] if dty.path == 'alloc::vec::Vec' else None
        if it.op == 'iter' and _ra(it) and it.a[1] is ZERO and it.a[0].a[0] == 'seq' and it.a[0].a[2] == 'val':
            return it.a[0].a[1]
        acc = I.alloc(st, mk('seq', ()), 'col')

        def step(s, x):
            if ety is not None and ety.k == 'tuple' and isinstance(x, T) and x.op == 'agg' and x.ty is None:
                x = agg(ety, 0, x.a[1:])
            s.mem[acc] = concat(s.mem[acc], lit([x]))
            return [(None, s)]
        outs = consume(I, st, it, step, 'collect')
        return finish(I, st, outs, lambda k, s: s.mem[acc])
    if is_map_ty(dty):
        acc = I.alloc(st, mk('mapempty', (), dty), 'col')

        def step(s, x):
            k, v = proj(x, 0, 0, dty.args[0]), proj(x, 0, 1, dty.args[1])
            s.mem[acc] = mk_mapins(s.mem[acc], k, v)
            return [(None, s)]
        outs = consume(I, st, itv, step, 'collect')
        return finish(I, st, outs, lambda k, s: s.mem[acc])
    if dty.path == RES or dty.path == OPT:
        good = 0 if dty.path == RES else 1
        inner = dty.args[0]
        if inner.k != 'adt':
            return NotImplemented
        ismap = is_map_ty(inner)
        if not ismap and inner.path != 'alloc::vec::Vec':
            return NotImplemented
        acc = I.alloc(st, mk('mapempty', (), inner) if ismap else mk('seq', ()), 'col')
        err = I.alloc(st, BOT, 'cole')

        def step(s, x):
            c = isv(x, good)
            okst, bad = split(s, c)
            if bad.pc is not FALSE:
                bad.mem[err] = assume(x, bad.pc)
            if okst.pc is not FALSE:
                y = proj(assume(x, okst.pc), good, 0, None)
                if ismap:
                    s_ = mk_mapins(okst.mem[acc], proj(y, 0, 0, inner.args[0]), proj(y, 0, 1, inner.args[1]))
                else:
                    s_ = concat(okst.mem[acc], lit([y]))
                okst.mem[acc] = s_
            return [('bad', bad), (None, okst)]
        outs = consume(I, st, itv, step, 'collect')

        def v(k, s):
            if k == 'done':
                return agg(dty, good, [s.mem[acc]])
            if good == 1:
                return Nothing(dty)
            return agg(dty, 1, [proj(s.mem[err], 1, 0, dty.args[1])])
        return finish(I, st, outs, v)
    return NotImplemented


@pre('core::iter::traits::collect::Extend::extend', 'alloc::vec::Vec::<T, A>::append', BT + 'append')
def m_extend(I, st, f, a, dty):
    r = I.innermost_ref(st, a[0])
    v = I.load(st, r)
    if f['name'] == 'append' and not is_map_ty(v.ty):
        o = I.load(st, a[1])
        I.store(st, r, concat(v, o))
        I.store(st, a[1], mk('seq', ()))
        return unit(I)
    ismap = is_map_ty(v.ty) or v.op in ('mapins', 'maprem', 'mapflat', 'mapempty')
    isseq = sq._is_seqlike(v)
    if not ismap and not isseq:
        return NotImplemented
    src = a[1]
    back = None
    if f['name'] == 'append':
        src = I.load(st, a[1])
        I.store(st, a[1], mk('mapempty', (), v.ty))

    def step(s, x):
        cur = I.load(s, r)
        if ismap:
            I.store(s, r, mk_mapins(cur, proj(x, 0, 0, None), proj(x, 0, 1, None)))
        else:
            if isinstance(x, T) and x.op == 'valref' and v.ty is not None and False:
                x = x.a[0]
            I.store(s, r, concat(cur, lit([x])))
        return [(None, s)]
    ar = [I.w.types[x] for x in _fn_args(f) if isinstance(x, int)]
    byref = any(t.k == 'ref' for t in ar[1:2])
    it = _adapt(I, st, src)
    if byref and not ismap:
        it = over(it, lambda q: _stage(q, ('copied',)))
    if not ismap and it.op == 'iter' and it.a[1] is ZERO and it.a[0].a[0] == 'seq' and it.a[2] in ((), (('copied',),)):
        m = it.a[0].a[2]
        if (m == 'val') == (it.a[2] == ()):
            I.store(st, r, concat(v, it.a[0].a[1]))
            return unit(I)
    outs = consume(I, st, it, step, 'extend')
    return finish(I, st, outs, lambda k, s: unit(I))


@pre(IT + 'for_each', IT + 'try_for_each', IT + 'fold', IT + 'count', IT + 'sum', IT + 'max', IT + 'min', IT + 'last', IT + 'try_fold',
     IT + 'max_by_key', IT + 'min_by_key', IT + 'nth', IT + 'product')
def m_consume(I, st, f, a, dty):
    n = f['name']
    if n == 'for_each':
        def step(s, x):
            I.call_value(s, a[1], [x], I.w.unit)
            return [(None, s)]
        return finish(I, st, consume(I, st, a[0], step, n), lambda k, s: unit(I))
    if n == 'nth':
        it = _adapt(I, st, a[0])
        if it.op == 'iter' and _ra(it) and isinstance(a[0], T):
            L = src_len(it.a[0])
            i = add(it.a[1], a[1])
            x, g = src_item(I, st, it.a[0], i)
            if g is not TRUE:
                return NotImplemented
            if a[0].op == 'ref':
                I.store(st, a[0], mk('iter', (it.a[0], add(i, ONE)) + it.a[2:], None))
            return opt(dty, TRUE if L is None else lt(i, L), x)
        return NotImplemented
    if n == 'try_for_each':
        if dty.k != 'adt' or dty.path not in (RES, OPT):
            return NotImplemented
        good = 0 if dty.path == RES else 1
        cell = I.alloc(st, BOT, 'tf')

        def step(s, x):
            v = I.call_value(s, a[1], [x], dty)
            if s.pc is FALSE:
                return []
            ok, bad = split(s, isv(v, good))
            bad.mem[cell] = assume(v, bad.pc) if bad.pc is not FALSE else BOT
            return [(None, ok), ('bad', bad)]
        okv = agg(dty, good, [unit(I)])
        return finish(I, st, consume(I, st, a[0], step, n), lambda k, s: okv if k == 'done' else s.mem[cell])
    if n in ('fold', 'count', 'sum', 'max', 'min', 'last'):
        init = a[1] if n == 'fold' else ZERO if n in ('count', 'sum') else Nothing(dty)
        acc = I.alloc(st, init, 'acc')

        def step(s, x):
            cur = s.mem[acc]
            if n == 'fold':
                v = I.call_value(s, a[2], [cur, x], dty)
                if s.pc is FALSE:
                    return []
                s.mem[acc] = v
            elif n == 'count':
                s.mem[acc] = add(cur, ONE)
            elif n == 'sum':
                y = val(I, s, x)
                r = add(cur, y)
                I.panic(s, ~in_range(r, dty), 'OverflowAdd')
                s.mem[acc] = r
            elif n == 'last':
                s.mem[acc] = Some(dty, x)
            else:
                y = val(I, s, x)
                o = val(I, s, proj(cur, 1, 0, dty.args[0]))
                if not (isinstance(y, T) and y.op == 'poly'):
                    raise Unsupported('iterator ' + n)
                c = isv(cur, 1)
                oo = o if isinstance(o, T) and o.op == 'poly' else ZERO
                better = le(oo, y) if n == 'max' else lt(y, oo)
                s.mem[acc] = mk_ite(c & ~better, cur, Some(dty, x))
            return [(None, s)]
        return finish(I, st, consume(I, st, a[0], step, n), lambda k, s: s.mem[acc])
    return NotImplemented


@pre('core::iter::traits::exact_size::ExactSizeIterator::len')
def m_exlen(I, st, f, a, dty):
    it = _adapt(I, st, a[0])
    if it.op == 'iter':
        return sub(unival(src_len(it.a[0])), it.a[1])
    return NotImplemented


@pre('core::ops::range::RangeInclusive::<Idx>::new')
def m_rinew(I, st, f, a, dty):
    return mk('agg', (0, a[0], a[1], FALSE), dty)


@pre('core::ops::range::RangeInclusive::<Idx>::contains', 'core::ops::range::Range::<Idx>::contains')
def m_rcontains(I, st, f, a, dty):
    r = val(I, st, a[0])
    x = val(I, st, a[1])
    lo = proj(r, 0, 0, r.ty.field_ty(0, 0))
    hi = proj(r, 0, 1, r.ty.field_ty(0, 1))
    if not (isinstance(lo, T) and lo.op == 'poly'):
        return NotImplemented
    return le(lo, x) & (le(x, hi) if 'Inclusive' in f['decl'] else lt(x, hi))


@pre('core::ops::range::Range::<Idx>::is_empty')
def m_rempty(I, st, f, a, dty):
    r = val(I, st, a[0])
    return ~lt(proj(r, 0, 0, r.ty.field_ty(0, 0)), proj(r, 0, 1, r.ty.field_ty(0, 1)))
