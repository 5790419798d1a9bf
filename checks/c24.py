"""C24: the conversions of LogicalBlockSize, evaluated as gate terms for each variant and for a symbolic u64."""
from .base import *

NUM = {512: 'Lb512', 4096: 'Lb4096'}
CONV = ['gpt::disk::LogicalBlockSize::as_usize', 'gpt::disk::LogicalBlockSize::as_u64',
        'gpt::disk::<impl core::convert::From<gpt::disk::LogicalBlockSize> for u64>::from',
        'gpt::disk::<impl core::convert::From<gpt::disk::LogicalBlockSize> for usize>::from']


def check(ctx):
    ctx.rule('each conversion of each variant folds to the constant 512 or 4096; the inverse is Ok exactly for these; the text is the number')
    w = ctx.world()
    t = ty(w, LBS)
    ctx.ok(sorted(v['name'] for v in t.variants) == sorted(NUM.values()), 'variants', 'LogicalBlockSize has exactly the variants Lb512 and Lb4096')
    for n, nm in NUM.items():
        for p in CONV:
            s = ctx.summary(p, Scen(lb=n))
            ctx.ok(s.pc is TRUE and cval(s.ret) == n, '%s(%s)' % (p, nm), 'converts %s to %d, got %s' % (nm, n, show(s.ret)), p)
        s = ctx.summary('<gpt::disk::LogicalBlockSize as core::fmt::Display>::fmt', Scen(lb=n))
        # every way to success writes exactly the digits
        texts, bad = [], False
        S = ok_of(s)
        for e, path in flat(s.events):
            if e.kind == 'fmt':
                if path or not (e.guard & S) is FALSE and not implies(S, e.guard):
                    bad = True
                if (e.guard & S) is not FALSE:
                    texts.append(template(e.text))
        txt = ''.join(x if isinstance(x, str) else '?' for t in texts for x in (t or ['?']))
        ctx.ok(not bad and S is not FALSE and txt == str(n), 'display(%s)' % nm, '%s is displayed as "%d", got "%s"' % (nm, n, txt))
    s = ctx.summary('<gpt::disk::LogicalBlockSize as core::convert::TryFrom<u64>>::try_from')
    v = s.args[0]
    prove(ctx, s.pc, 'try_from:total', 'try_from returns for every number')
    for n, nm in NUM.items():
        g = ieq(v, I(n))
        prove(ctx, imp(g, is_variant(s.ret, 'Ok')), 'try_from:%d' % n, 'try_from(%d) succeeds' % n)
        prove(ctx, imp(g & is_variant(s.ret, 'Ok'), is_variant(payload(s.ret, 'Ok'), nm)), 'try_from:%d:value' % n, 'try_from(%d) is %s' % (n, nm))
    prove(ctx, imp(~ieq(v, I(512)) & ~ieq(v, I(4096)), is_variant(s.ret, 'Err')), 'try_from:other', 'try_from of any other number is an error')
    s = ctx.summary('<gpt::GptConfig as core::default::Default>::default')
    ctx.ok(is_variant(fld(s.ret, 'lb_size'), 'Lb512') is TRUE, 'default', 'the default configuration uses 512-byte blocks')
    c = w.consts.get('gpt::disk::DEFAULT_SECTOR_SIZE')
    ctx.ok(c is not None and is_variant(w.const(c['v']), 'Lb512') is TRUE, 'DEFAULT_SECTOR_SIZE', 'DEFAULT_SECTOR_SIZE is 512 bytes')
