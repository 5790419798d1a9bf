"""C19: the disk object after an edit that returns an error, compared field by field with the object before, on every
failing branch."""
from .edits import *


def check(ctx):
    ctx.rule('result is an error => every field of the disk object except the device is the same term as before')
    items = cases(ctx)
    ctx.each(items, part)
    ctx.floor('cases', len(items), 36)


def part(ctx, item):
    s = ctx.summary(item[0], scen(item))
    S = err_of(s)
    ctx.ok(S is not FALSE, 'fails:' + name(item), 'the edit can fail')
    a, b = pre(s), assume(post(s), S)
    for nm, i, f in fields(a):
        if nm == 'device':
            continue
        x, y = proj(b, 0, i, f), proj(a, 0, i, f)
        prove(ctx, imp(S, veq(x, y)), name(item) + ':' + nm, 'a failed %s leaves %s as it was' % (item[0], nm))
    ctx.count('failing branches', 1)
