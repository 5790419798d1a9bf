"""C09: encoder and decoders of the protective MBR and its records as byte terms over symbolic values and buffers."""
from .base import *

M = 'gpt::mbr::'


def uint(bs, t):
    return le_int(bs, t)


def check(ctx):
    ctx.rule('encode(value)[i] is the specified byte for every i; decode(buffer) is Ok exactly under the length and signature conditions and every field is the specified bytes')
    w = ctx.world()
    PR = ty(w, M + 'PartRecord')
    s = ctx.summary(M + 'ProtectiveMBR::to_bytes')
    got = [elem(s.ret, I(i), U8) for i in range(512)]
    want = mbr_bytes(s.args[0].a[0])
    ctx.ok(s.pc is TRUE and cval(slen(s.ret)) == 512, 'mbr:encode:total', 'to_bytes always returns 512 bytes')
    for i in range(512):
        ctx.ok(veq(got[i], want[i]) is TRUE, 'mbr:encode:%d' % i, 'byte %d of an encoded MBR is %s, as specified: %s' % (i, show(got[i])[:60], show(want[i])[:60]), M + 'ProtectiveMBR::to_bytes')
    s = ctx.summary(M + 'PartRecord::to_bytes')
    want = record_bytes(s.args[0].a[0] if s.args[0].op == 'valref' else s.args[0])
    ctx.ok(s.pc is TRUE and cval(slen(s.ret)) == 16, 'record:encode:total', 'to_bytes of a record always returns 16 bytes')
    for i in range(16):
        ctx.ok(veq(elem(s.ret, I(i), U8), want[i]) is TRUE, 'record:encode:%d' % i, 'byte %d of an encoded record is the specified one' % i, M + 'PartRecord::to_bytes')

    def record_is(r, bs, S, key, text):
        for k, f in enumerate(('boot_indicator', 'start_head', 'start_sector', 'start_track', 'os_type', 'end_head', 'end_sector', 'end_track')):
            prove(ctx, imp(S, veq(assume(fld(r, f), S), bs[k])), '%s:%s' % (key, f), '%s: %s is byte %d' % (text, f, k))
        prove(ctx, imp(S, veq(assume(fld(r, 'lb_start'), S), uint(bs[8:12], U32))), key + ':lb_start', text + ': lb_start is bytes 8-11, little-endian')
        prove(ctx, imp(S, veq(assume(fld(r, 'lb_size'), S), uint(bs[12:16], U32))), key + ':lb_size', text + ': lb_size is bytes 12-15, little-endian')

    s = ctx.summary(M + 'PartRecord::from_bytes')
    buf = s.args[0].a[0]
    n16 = ieq(slen(buf), I(16))
    prove(ctx, s.pc, 'record:decode:total', 'decoding a record never panics')
    prove(ctx, ~(is_variant(s.ret, 'Ok') ^ n16), 'record:decode:length', 'a record is decoded exactly from buffers of 16 bytes')
    S = ok_of(s)
    record_is(payload(s.ret, 'Ok'), [elem(buf, I(i), U8) for i in range(16)], S, 'record:decode', 'decoded record')

    def mbr_is(m, bs, S, key, text):
        b = fld(m, 'bootcode')
        prove(ctx, imp(S, same_bytes([elem(b, I(i), U8) for i in range(440)], bs[:440], S)), key + ':bootcode', text + ': boot code is bytes 0-439')
        b = fld(m, 'disk_signature')
        prove(ctx, imp(S, same_bytes([elem(b, I(i), U8) for i in range(4)], bs[440:444], S)), key + ':disk_signature', text + ': disk signature is bytes 440-443')
        prove(ctx, imp(S, veq(assume(fld(m, 'unknown'), S), uint(bs[444:446], U16))), key + ':unknown', text + ': bytes 444-445')
        recs = fld(m, 'partitions')
        for i in range(4):
            record_is(elem(recs, I(i), PR), bs[446 + 16 * i:462 + 16 * i], S, key + ':record%d' % i, '%s: record %d' % (text, i))
        g = fld(m, 'signature')
        prove(ctx, imp(S, same_bytes([elem(g, I(i), U8) for i in range(2)], bs[510:512], S)), key + ':signature', text + ': signature is bytes 510-511')

    for n in (512, 4096):
        s = ctx.summary(M + 'ProtectiveMBR::from_bytes', Scen(lb=n))
        buf = s.args[0].a[0]
        bs = [elem(buf, I(i), U8) for i in range(512)]
        cond = ieq(slen(buf), I(n)) & ieq(bs[510], I(0x55)) & ieq(bs[511], I(0xAA))
        prove(ctx, s.pc, 'mbr:decode/%d:total' % n, 'decoding an MBR never panics')
        prove(ctx, ~(is_variant(s.ret, 'Ok') ^ cond), 'mbr:decode/%d:valid' % n, 'an MBR is decoded exactly if the buffer has %d bytes and bytes 510-511 are 55 AA' % n)
        mbr_is(payload(s.ret, 'Ok'), bs, ok_of(s), 'mbr:decode/%d' % n, 'decoded MBR')
        s = ctx.summary(M + 'ProtectiveMBR::from_disk', Scen(lb=n))
        S = ok_of(s)
        dev, pos, ver = device_after(s, S)
        bs = [devbyte(dev, app('ver0', dev), I(i)) for i in range(512)]
        prove(ctx, imp(strengthen(S), ieq(bs[510], I(0x55)) & ieq(bs[511], I(0xAA))), 'mbr:disk/%d:valid' % n, 'an MBR is read from a device only if bytes 510-511 are 55 AA')
        mbr_is(payload(s.ret, 'Ok'), bs, S, 'mbr:disk/%d' % n, 'MBR read from a device')
    ctx.floor('bytes and fields compared', len(ctx.obls), 500)
