"""C40: marker traits of every type of the crate and the parameter types of the inspecting operations, as the compiler
computes them; no global state that changes."""
from .base import *

INSPECT = ('header', 'primary_header', 'backup_header', 'partitions', 'guid', 'logical_block_size', 'device_ref', 'with_disk_device',
           'calculate_alignment', 'find_free_sectors', 'find_next_partition_id')
TYPES_ = ('gpt::GptDisk', 'gpt::GptConfig', 'gpt::GptError', 'gpt::header::Header', 'gpt::header::HeaderError', 'gpt::header::builder::HeaderBuilder', 'gpt::partition::Partition',
          'gpt::partition_types::Type', 'gpt::mbr::ProtectiveMBR', 'gpt::mbr::PartRecord', 'gpt::mbr::MBRError', 'gpt::disk::LogicalBlockSize')


def check(ctx):
    ctx.rule('every exported type is Send, Sync and without interior mutability if its type arguments are; inspecting operations take a shared reference; no static, thread-local or mutable global state')
    for f in ('none', 'both') if ctx.tier == 'thorough' else ('none',):
        w = ctx.world(f)
        seen = {}
        for a in w.d['adts']:
            if not a['exported']:
                continue
            seen[a['path']] = a
            ctx.functions.add(a['path'])
            for m, what in (('send', 'can be moved to another thread'), ('sync', 'can be shared between threads'), ('freeze', 'cannot change behind a shared reference')):
                ctx.ok(a[m] is True, '%s:%s' % (m, a['path']), '%s %s' % (a['path'], what), a['span'])
        for t in TYPES_:
            ctx.ok(t in seen, 'type:' + t, '%s is a type of the interface' % t)
        ctx.floor('exported types', len(seen), len(TYPES_))
        n = 0
        for r in w.roots:
            if not r['exported'] or r['self'] is None or r['inst'] not in w.bodies:
                continue
            p = r['path']
            if p.rsplit('::', 1)[0] == 'gpt::GptDisk::<D>' and r['name'] in INSPECT:
                b = w.body(r)
                t = w.ty(b['locals'][1][0])
                n += 1
                ctx.ok(t.k == 'ref' and not t.d.get('mut'), 'shared:' + p, '%s needs a shared reference only' % p)
        ctx.floor('inspecting operations', n, len(INSPECT))
        for u in w.d['unsafe']:
            if u['kind'] == 'static' and not (u['macro'] and f != 'none'):
                ctx.ok(not u['mut'] and u['freeze'], 'static:' + u['owner'], '%s holds no state that changes' % u['owner'], u['span'])
        for i in range(len(w.types)):
            t = w.ty(i)
            if t.k == 'adt' and f == 'none':
                ctx.count('types')
                ctx.ok(not t.path.startswith('std::thread::'), 'thread:' + t.path, 'no state of a thread is used: ' + t.path)
