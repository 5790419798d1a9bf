"""C27: every configuration setter as a gate term over a symbolic configuration and argument, and the default value."""
from .base import *


def check(ctx):
    ctx.rule('setter(config, value) equals config with exactly the named option replaced by value')
    w = ctx.world()
    t = ty(w, CFG)
    seen = {}
    for name in OPTIONS:
        s = ctx.summary('gpt::GptConfig::' + name)
        c, v = s.args
        prove(ctx, s.pc, name + ':total', name + ' always returns')
        i = option_field(w, name)
        ctx.ok(i not in seen, name + ':own', '%s and %s set different options' % (name, seen.get(i)), name)
        seen[i] = name
        for k in range(t.nfields(0)):
            got = proj(s.ret, 0, k, t.field_ty(0, k))
            want = v if k == i else proj(c, 0, k, t.field_ty(0, k))
            prove(ctx, veq(got, want), '%s:%s' % (name, t.variants[0]['fields'][k][0] if isinstance(t.variants[0]['fields'][k], list) else t.variants[0]['fields'][k]['name']),
                  '%s(value) %s' % (name, 'sets its option' if k == i else 'leaves the other option unchanged'), name)
    ctx.floor('options', len(seen), 5)
    for p in ('gpt::GptConfig::new', '<gpt::GptConfig as core::default::Default>::default'):
        s = ctx.summary(p)
        for name in OPTIONS:
            i = option_field(w, name)
            v = proj(s.ret, 0, i, t.field_ty(0, i))
            want = lbs_value(w, 512) if name == 'logical_block_size' else FALSE
            prove(ctx, veq(v, want), '%s:%s' % (p.rsplit('::', 1)[1], name), 'the default of %s is %s' % (name, show(want)), p)
