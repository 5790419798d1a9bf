"""Shared by the checks on reading and writing the disk structures: what a header and a table on a device look like."""
from .base import *

OPEN = 'gpt::GptConfig::open_from_device'
OPENPATH = 'gpt::GptConfig::open'
READ_HEADER = 'gpt::header::read_header_from_arbitrary_device'
READ_HEADER_PATH = 'gpt::header::read_header'
TABLE, TABLE_PATH = 'gpt::partition::file_read_partitions', 'gpt::partition::read_partitions'
ALG = ('Algorithm', 32, 0x04C11DB7, 0xFFFFFFFF, True, True, 0xFFFFFFFF)     # CRC-32/ISO-HDLC
LAYOUT = (('header_size_le', 12, 4), ('crc32', 16, 4), ('reserved', 20, 4), ('current_lba', 24, 8), ('backup_lba', 32, 8),
          ('first_usable', 40, 8), ('last_usable', 48, 8), ('part_start', 72, 8), ('num_parts', 80, 4), ('part_size', 84, 4), ('crc32_parts', 88, 4))
UINT = {1: 'u8', 2: 'u16', 4: 'u32', 8: 'u64'}
TY = {1: U8, 2: U16, 4: U32, 8: U64}


def device_of(s):
    ks = [k for k in s.st.mem if isinstance(k, tuple) and k[0] == 'dev']
    if len(ks) != 1:
        raise Missing('%s: expected one device, found %d' % (s.name, len(ks)))
    return ks[0][1]


def content(dev, off, n):
    """n bytes of the original content of a device"""
    v = app('ver0', dev)
    return [devbyte(dev, v, add(off, I(i))) for i in range(n)]


def uint_at(bs, o, n):
    return le_int(bs[o:o + n], TY[n])


def guid_at(bs, o):
    """a mixed-endian identifier"""
    b = bs[o:o + 16]
    return [b[3], b[2], b[1], b[0], b[5], b[4], b[7], b[6]] + b[8:]


def crc_terms(f):
    return [a for a in support_terms(f) if a.op == 'app' and a.a[0] == 'crc']


def is_alg(a):
    """the CRC parameters are those of CRC-32/ISO-HDLC"""
    while isinstance(a, T) and a.op == 'valref':
        a = a.a[0]
    if not isinstance(a, T) or a.ty is None or a.ty.d.get('path', '').rsplit('::', 1)[-1] != 'Algorithm':
        return False
    want = {'width': 32, 'poly': 0x04C11DB7, 'init': 0xFFFFFFFF, 'refin': True, 'refout': True, 'xorout': 0xFFFFFFFF}
    for nm, x in want.items():
        v = fld(a, nm)
        if x is True:
            if v is not TRUE:
                return False
        elif cval(v) != x:
            return False
    return True


def crc_facts(f, S, seq):
    """the checksums in f that are computed with CRC-32 over exactly the bytes seq (under S): [(term)]"""
    out = []
    for c in crc_terms(f):
        if is_alg(c.a[1]) and veq(assume(c.a[2], S), seq) is TRUE:
            out.append(c)
    return out


def signature_ok(bs):
    r = TRUE
    for b, c in zip(bs[:8], b'EFI PART'):
        r = r & ieq(b, I(c))
    return r


def header_valid(ctx, S, dev, off, key, text):
    """S implies that the 92 bytes at off carry the signature and a matching checksum"""
    bs = content(dev, off, 92)
    prove(ctx, imp(S, signature_ok(bs)), key + ':signature', '%s only if bytes 0-7 at its place are "EFI PART"' % text)
    img = lit(bs[:16] + [I(0)] * 4 + bs[20:])
    cs = crc_facts(S, S, img)
    stored = uint_at(bs, 16, 4)
    done = False
    for c in cs:
        # rename the checksum term to the one over the simplified bytes, so that both sides are comparable
        if holds(imp(S, ieq(P(c), stored))):
            done = True
    ctx.ok(done, key + ':checksum', '%s only if the checksum at byte 16 is the CRC32 of the 92 bytes with the checksum field zeroed' % text)


def header_fields(ctx, S, h, dev, off, key, text):
    """every field of the decoded header is the specified bytes"""
    bs = content(dev, off, 92)
    for f, o, n in LAYOUT:
        prove(ctx, imp(S, veq(assume(fld(h, f), S), uint_at(bs, o, n))), '%s:%s' % (key, f), '%s: %s is bytes %d-%d, little-endian' % (text, f, o, o + n - 1))
    rev = fld(h, 'revision')
    prove(ctx, imp(S, veq(assume(proj(rev, 0, 0, U16), S), uint_at(bs, 10, 2)) & veq(assume(proj(rev, 0, 1, U16), S), uint_at(bs, 8, 2))),
          key + ':revision', text + ': the revision is (bytes 10-11, bytes 8-9)')
    g = assume(fld(h, 'disk_guid'), S)
    prove(ctx, imp(S, veq(g, uuid_value(ctx.world(), guid_at(bs, 56)))), key + ':disk_guid', text + ': disk_guid is bytes 56-71, mixed-endian')


def disk_len(dev):
    return P(mk('app', ('devlen', dev), U64))


def last_block(dev, lb):
    """offset of the last whole block"""
    n = disk_len(dev)
    return scale(sub(int_div(n, I(lb)), I(1)), lb)


class HeaderScen(Scen):
    """a header argument whose signature is the one every header that was read or built has"""

    def __init__(self, **kw):
        super().__init__(**kw)
        self.key += ('header',)

    def prep(self, I_, st, args, cells):
        super().prep(I_, st, args, cells)
        for i, a in enumerate(args):
            if isinstance(a, T) and a.op == 'ref' and a.a[0] in st.mem:
                v = st.mem[a.a[0]]
                if v.ty is not None and v.ty.path == HDR:
                    st.mem[a.a[0]] = with_fields(v, signature=mk('strlit', ('EFI PART',), fld(v, 'signature').ty))


def header_image(h, crc=None):
    """the 92 bytes of an encoded header; crc: None = its checksum field, or the four bytes to put there"""
    out = [I(x) for x in b'EFI PART']
    rev = fld(h, 'revision')
    out += le_bytes(proj(rev, 0, 1, U16), 2) + le_bytes(proj(rev, 0, 0, U16), 2)
    g = fld(h, 'disk_guid')
    g = proj(g, 0, 0, g.ty.field_ty(0, 0))
    gb = [elem(g, I(i), U8) for i in range(16)]
    at = {o: (f, n) for f, o, n in LAYOUT}
    while len(out) < 92:
        o = len(out)
        if o == 56:
            out += guid_at(gb, 0)
        elif o == 16 and crc is not None:
            out += crc
        elif o == 20:
            out += [I(0)] * 4
        else:
            f, n = at[o]
            out += le_bytes(fld(h, f), n)
    return out


def checksum_of(ctx, h, S, key, text):
    """the checksum held in h is the CRC32 of its encoding with the checksum field zeroed"""
    c = atom_of(assume(fld(h, 'crc32'), S))
    good = isinstance(c, T) and c.op == 'app' and c.a[0] == 'crc' and is_alg(c.a[1])
    if good:
        want = [assume(b, S) for b in header_image(h, [I(0)] * 4)]
        got = assume(c.a[2], S)
        good = cval(slen(got)) == 92 and same_bytes([elem(got, I(i), U8) for i in range(92)], want, S) is TRUE
    return ctx.ok(good, key + ':checksum', '%s: the checksum is the CRC32 of the 92 encoded bytes with the checksum field zeroed' % text)


def header_write(ctx, ev, h, S, lb, key, text):
    """the device write ev stores the encoding of h, zero padded to one block, at h's own block"""
    got = assume(ev.seq, S)
    n = assume(slen(got), S)
    ctx.ok(cval(n) == lb, key + ':length', '%s: one whole block is written, got %s bytes' % (text, show(n)), ev.where())
    prove(ctx, imp(S, ieq(assume(ev.off, S), scale(assume(fld(h, 'current_lba'), S), lb))), key + ':place', text + ': it is written to its own block', ev.where())
    want = [assume(b, S) for b in header_image(h)] + [I(0)] * (lb - 92)
    names = {16: 'checksum', 56: 'disk_guid', 0: 'signature', 8: 'revision', 20: 'reserved'}
    names.update({o: f for f, o, _ in LAYOUT if o not in names})
    starts = sorted(names) + [92, lb]
    for a, b in zip(starts, starts[1:]):
        nm = names.get(a, 'padding')
        good = all(veq(elem(got, I(i), U8), want[i]) is TRUE for i in range(a, b)) if cval(n) == lb else False
        ctx.ok(good, '%s:%s' % (key, nm), '%s: bytes %d-%d are the %s' % (text, a, b - 1, nm), ev.where())
    return checksum_of(ctx, h, S, key, text)
