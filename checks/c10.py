"""C10: final device content and position of every MBR helper as terms over the initial content, compared byte by byte
with the specified range on every successful branch."""
from .base import *

M = 'gpt::mbr::'


def flushed(ctx, s, S, key):
    """after the last write a flush succeeds on every successful branch"""
    evs = [(i, e, p) for i, (e, p) in enumerate(flat(s.events))]
    last = max([i for i, e, p in evs if e.kind == 'write' and (e.guard & S) is not FALSE], default=-1)
    fl = [e for i, e, p in evs if i > last and e.kind == 'flush' and not p]
    g = FALSE
    for e in fl:
        g = g | (e.guard & e.ok)
    prove(ctx, imp(S, g), key + ':flush', '%s flushes the device after its last write' % key, fl and fl[0].where() or None)


def check(ctx):
    ctx.rule('bytes written on success are exactly the specified range with the specified content; final position = initial position')
    w = ctx.world()

    def helper(name, scen, rng, want, ret=None, result=None):
        s = ctx.summary(M + name, scen)
        S = ok_of(s)
        key = name + ('/%d' % scen.lb if scen and scen.lb else '')
        ctx.ok(S is not FALSE, key + ':success', '%s can succeed' % name)
        dev, pos, ver = device_after(s, S)
        prove(ctx, imp(S, ieq(pos, app('pos0', dev, ty=U64))), key + ':position', '%s leaves the stream position where it was' % name)
        img = byte_image(ver, S)
        if not ctx.ok(img is not None, key + ':writes', '%s writes whole ranges at fixed offsets' % name):
            return
        ctx.ok(sorted(img) == list(range(*rng)), key + ':range', '%s writes exactly bytes %s (writes %d bytes from %s)' % (name, 'none' if rng == (0, 0) else '%d-%d' % (rng[0], rng[1] - 1), len(img), min(img) if img else '-'))
        ctx.count('device bytes compared', len(img))
        if want is not None:
            wb = want(s)
            prove(ctx, imp(S, same_bytes([img.get(o, BOT) for o in range(*rng)], wb, S)), key + ':content', '%s writes the bytes of the object' % name)
            flushed(ctx, s, S, key)
        v = assume(payload(s.ret, 'Ok'), S)
        if ret is not None:
            prove(ctx, imp(S, veq(v, I(ret))), key + ':count', '%s reports %d bytes' % (name, ret))
        if result is not None:
            o, n = result
            prove(ctx, imp(S, same_bytes([elem(v, I(i), U8) for i in range(n)], [devbyte(dev, app('ver0', dev), I(o + i)) for i in range(n)], S)),
                  key + ':result', '%s returns bytes %d-%d of the device' % (name, o, o + n - 1))
            ctx.ok(cval(slen(v)) == n, key + ':length', '%s returns %d bytes' % (name, n))

    def arg(s, i):
        a = s.args[i]
        return a.a[0] if a.op == 'valref' else a
    helper('ProtectiveMBR::overwrite_lba0', None, (0, 512), lambda s: mbr_bytes(arg(s, 0)), ret=512)
    helper('ProtectiveMBR::update_conservative', None, (446, 512), lambda s: mbr_bytes(arg(s, 0))[446:], ret=66)
    helper('write_bootcode', None, (0, 440), lambda s: [elem(arg(s, 1), I(i), U8) for i in range(440)])
    helper('write_disk_signature', None, (440, 444), lambda s: [elem(arg(s, 1), I(i), U8) for i in range(4)])
    helper('read_bootcode', None, (0, 0), None, result=(0, 440))
    helper('read_disk_signature', None, (0, 0), None, result=(440, 4))
    for n in (512, 4096):
        helper('ProtectiveMBR::from_disk', Scen(lb=n), (0, 0), None)
