"""C02: effect analysis over the resolved call graph of the whole crate (type-checked MIR): the only exported functions
from which a call with a write, flush, sync or unknown effect on a device is reachable are the persisting ones.
A device is anything mutably reachable behind a type parameter, a trait object or a std file; external calls that
receive one are classified by a closed list (reads, seeks and pure std operations), everything else counts as a write."""
from .base import *
from engine.effects import *

PERSIST = {
    'gpt::GptDisk::<D>::write', 'gpt::GptDisk::<D>::write_inplace',
    'gpt::header::Header::write_primary', 'gpt::header::Header::write_backup', 'gpt::header::write_header',
    'gpt::partition::Partition::write', 'gpt::partition::Partition::write_to_device',
    'gpt::partition::Partition::write_zero_entries_to_device',
    'gpt::mbr::ProtectiveMBR::overwrite_lba0', 'gpt::mbr::ProtectiveMBR::update_conservative',
    'gpt::mbr::write_bootcode', 'gpt::mbr::write_disk_signature'}


def check(ctx):
    ctx.rule('no call site with a write/flush/sync/unknown device effect is reachable from an exported function outside the persisting ones')
    for f in ('none', 'both') if ctx.tier == 'thorough' else ('none',):
        w = ctx.world(f)
        wr, n = writers(w)
        ctx.count('call sites', n)
        for r in w.roots:
            if not r['exported'] or r['derived']:
                continue
            ctx.functions.add(r['path'])
            if r['path'] in PERSIST:
                continue
            bad = wr.get(r['path'], [])
            s = bad[0][0] if bad else None
            ctx.ok(not bad, 'effect:' + r['path'],
                   '%s never writes to or flushes a device%s' % (r['path'], '' if not bad else ': reaches %s (%s) through %s' % (
                       s.callee['decl'] if s.callee else 'an indirect call', bad[0][2], ' > '.join(bad[0][1]) or 'itself')), s and s.where)
        for p in sorted(PERSIST):
            ctx.ok(w.root(p) is not None and p in wr, 'persist:' + p, 'the persisting function %s is seen to write (the analysis is not vacuous)' % p)
        ctx.floor('exported functions', len(ctx.functions), 60)
        # GptDisk has no destructor that could act on the device
        ctx.ok(not [r for r in w.roots if r['trait'] and 'ops::drop::Drop' in str(r['trait'])], 'drop', 'no type of the crate has a destructor of its own')
