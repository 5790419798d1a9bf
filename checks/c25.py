"""C25: results of the partition extent functions as gate terms over symbolic first and last block, compared with the
mathematical definition in the integer domain."""
from .base import *

U64 = (1 << 64) - 1


def check(ctx):
    ctx.rule('Ok exactly if the mathematical value is in range, and then equal to it; no arithmetic panic is feasible')
    w = ctx.world()

    def one(name, scen, value, key):
        s = ctx.summary('gpt::partition::Partition::' + name, scen)
        p = s.args[0].a[0]
        first, last = fld(p, 'first_lba'), fld(p, 'last_lba')
        v, extra = value(first, last)
        inr = extra & ge0(v) & ge0(sub(I(U64), v))
        prove(ctx, s.pc, key + ':total', '%s always returns' % name, name)
        prove(ctx, imp(inr, is_variant(s.ret, 'Ok')), key + ':ok', '%s succeeds whenever the exact value fits' % key, name)
        prove(ctx, imp(~inr, is_variant(s.ret, 'Err')), key + ':err', '%s is an error when the exact value is negative or too large' % key, name)
        prove(ctx, imp(inr & is_variant(s.ret, 'Ok'), veq(payload(s.ret, 'Ok'), v)), key + ':value', '%s returns the exact value' % key, name)
        ctx.count('functions proved')
    one('sectors_len', None, lambda f, l: (add(sub(l, f), ONE), ge0(sub(l, f))), 'sectors_len')
    for n in (512, 4096):
        one('bytes_len', Scen(lb=n), lambda f, l: (scale(add(sub(l, f), ONE), n), ge0(sub(l, f)) & ge0(sub(I(U64 - 1), sub(l, f)))), 'bytes_len/%d' % n)
        one('bytes_start', Scen(lb=n), lambda f, l: (scale(f, n), TRUE), 'bytes_start/%d' % n)
    s = ctx.summary('gpt::partition::Partition::is_used')
    g = fld(fld(s.args[0].a[0], 'part_type_guid'), 'guid')
    nil = uuid_value(w, [ZERO] * 16)
    prove(ctx, s.pc, 'is_used:total', 'is_used always returns')
    prove(ctx, imp(s.ret, ~veq(g, nil)) & imp(~s.ret, veq(g, nil)), 'is_used', 'a partition is in use exactly if its type GUID is not all zero')
