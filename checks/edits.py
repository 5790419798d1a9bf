"""Shared by the checks on editing operations: the cases analysed and views of the disk object before and after."""
from .base import *

G = 'gpt::GptDisk::<D>::'
STATES = (('Ok', 'Ok'), ('Ok', 'Err'), ('Err', 'Ok'))
ADD, AT, REPLACE = G + 'add_partition', G + 'add_partition_at', G + 'update_partitions'


def cases(ctx, ops=(ADD, AT, REPLACE), lbs=None, change=(0, 1), backup=(0, 1)):
    """(operation, block size, primary state, backup state, readonly_backup, change_partition_count)"""
    lbs = lbs or ((512, 4096) if ctx.tier == 'thorough' else (512,))
    return [(p, lb, a, b, ro, ch) for p in ops for lb in lbs for a, b in STATES for ro in backup for ch in change]


def scen(item):
    p, lb, a, b, ro, ch = item
    return Scen(lb=lb, primary=a, backup=b, readonly_backup=ro, change_partition_count=ch)


def name(item):
    p, lb, a, b, ro, ch = item
    return '%s:lb=%d,primary=%s,backup=%s,readonly_backup=%d,change_partition_count=%d' % (p.rsplit('::', 1)[-1], lb, a, b, ro, ch)


def current(d, a):
    """current header of a disk object whose primary header is valid / invalid"""
    return payload(fld(d, 'primary_header' if a == 'Ok' else 'backup_header'), 'Ok')


def header(d, nm):
    return fld(d, nm + '_header')


def fields(v):
    t = v.ty
    for i in range(t.nfields(0)):
        yield t.variants[0]['fields'][i][0], i, t.field_ty(0, i)


def map_facts(*ms):
    """a map with 32 bit keys has at most 2^32 entries, one less without key 0"""
    r = TRUE
    for m in ms:
        n = map_len(m)
        r = r & le(n, I(1 << 32)) & imp(~map_has(m, I(0)), le(n, I((1 << 32) - 1)))
    return r


def part_used(w, v):
    """a partition entry is in use: its type identifier is not all zeros"""
    return ~veq(fld(fld(v, 'part_type_guid'), 'guid'), uuid_value(w, [I(0)] * 16))


def id_used(w, m, k):
    return map_has(m, k) & part_used(w, mval(w, m, k))


def key_facts(m, *ks):
    """keys of an ordered map are at most the last one"""
    r = TRUE
    n = map_len(m)
    last = models.map_key(m, sub(n, I(1)))
    for k in ks:
        r = r & imp(map_has(m, k), le(k, last) & lt(I(0), n))
    return r
