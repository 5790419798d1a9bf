"""C01: (a) every exported operation on a disk object from which a device write is reachable (effect analysis over the
call graph) is evaluated as a gate term for a configuration with writable = false: its result is Err(ReadOnly) on
every branch and its event list has no write, flush or sync. (b) every open of a file while opening or creating a
disk asks for write access exactly if writable is set and for nothing else."""
from .base import *
from engine.effects import *

EFFECTS = ('write', 'flush', 'sync', 'devcall', 'unknown')
TOLERATED = ('panic', 'tell', 'seek', 'read', 'alloc', 'random', 'loop', 'open', 'fmt', 'crc')


def check(ctx):
    ctx.rule('writable=false: result is Err(ReadOnly) on every branch, no write-like event')
    ctx.rule('open flags: read=true, write=config.writable, append/truncate/create/create_new=false')
    w = ctx.world()
    wr, n = writers(w)
    ctx.count('call sites', n)
    ops = []
    for r in w.roots:
        if r['path'] in wr:
            body = w.body(r)
            if any(is_disk(w.ty(body['locals'][1 + i][0])) for i in range(body['argc'])):
                ops.append(r['path'])
    for p in ('gpt::GptDisk::<D>::write', 'gpt::GptDisk::<D>::write_inplace'):
        ctx.ok(p in ops, 'op:' + p, '%s is one of the persisting operations' % p)
    for p in sorted(set(ops)):
        s = ctx.summary(p, Scen(writable=0))
        prove(ctx, s.pc & is_variant(s.ret, 'Err') & is_variant(payload(s.ret, 'Err'), 'ReadOnly'), 'refuse:' + p,
              'on a disk that is not writable %s returns the read-only error' % p, p)
        evs = [e for e, _ in flat(s.events)]
        bad = [e for e in evs if e.kind not in TOLERATED and e.guard is not FALSE]
        ctx.ok(not bad, 'quiet:' + p, 'on a disk that is not writable %s performs no write or flush' % p, bad and bad[0].where() or None)
    nopen = 0
    for p in ('gpt::GptConfig::open', 'gpt::GptConfig::create'):
        s = ctx.summary(p, Scen(lb=512))
        cfg = s.args[0]
        writable = proj(cfg, 0, option_field(w, 'writable'), cfg.ty.field_ty(0, option_field(w, 'writable')))
        opens = [e for e, _ in flat(s.events) if e.kind == 'open']
        nopen += len(opens)
        ctx.ok(opens, 'open:' + p, '%s opens a file' % p)
        for e in opens:
            fl = e.flags
            good = fl[0] is TRUE and all(x is FALSE for x in fl[2:])
            ctx.ok(good, 'flags:' + p, '%s opens for reading and never creates, truncates or appends: %s' % (p, [show(x) for x in fl]), e.where())
            prove(ctx, imp(e.guard, veq(fl[1], writable)), 'write:' + p, '%s asks for write access exactly if the configuration is writable' % p, e.where())
    s = ctx.summary('gpt::disk::read_disk', Scen(lb=512))
    for e, _ in flat(s.events):
        if e.kind == 'open':
            nopen += 1
            ctx.ok(e.flags[0] is TRUE and all(x is FALSE for x in e.flags[1:]), 'flags:read_disk', 'read_disk opens read-only', e.where())
    ctx.floor('files opened', nopen, 3)


def is_disk(t):
    while t is not None and t.k == 'ref':
        t = t.to
    return t is not None and t.k == 'adt' and t.path == DISK
