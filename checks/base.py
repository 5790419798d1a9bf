"""Common parts of the property checks: worlds, scenarios, obligations and reporting."""
import json
import os
import resource
import select
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import build                                   # noqa: E402
from engine.run import *                                   # noqa: E402,F403
from engine import run as erun                             # noqa: E402
from engine import terms as tm                             # noqa: E402
from engine import models, models_io                       # noqa: E402
from engine.linear import Lin, cube_text                   # noqa: E402

VERIF = build.VERIF
CFG = 'gpt::GptConfig'
DISK = 'gpt::GptDisk'
HDR = 'gpt::header::Header'
HERR = 'gpt::header::HeaderError'
GERR = 'gpt::GptError'
PART = 'gpt::partition::Partition'
LBS = 'gpt::disk::LogicalBlockSize'


MEMORY = 5 << 30              # address space of one part of an analysis
SECONDS = {'quick': 640}      # what is not established by then counts as not established


class Missing(Exception):
    """an anchor of a rule does not exist any more"""


class Ctx:
    def __init__(self, prop, tier='quick'):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.deadline = self.t0 + SECONDS.get(tier, 3000)
        self._w = {}
        self._s = {}
        self.dumps = []
        self.obls = []            # (key, ok, text)
        self.viol = {}            # key -> (text, where)
        self.counts = {}
        self.functions = set()
        self.notes = []
        self.rules = []

    def world(self, feature='none'):
        w = self._w.get(feature)
        if w is None:
            p = build.dump(feature)
            self.dumps.append(p)
            try:
                w = World(p)
            finally:
                os.unlink(p)
            self._w[feature] = w
        return w

    # ---- summaries
    def summary(self, path, scen=None, feature='none', **kw):
        key = (path, scen.key if scen else None, feature, tuple(sorted(kw.items())))
        s = self._s.get(key)
        if s is None:
            w = self.world(feature)
            if w.root(path) is None:
                raise Missing('function %s not found' % path)
            s = analyse(w, path, prep=scen.prep if scen else None, **kw)
            s.w = w
            self._s[key] = s
            self.functions |= s.I.analysed
            self.count('call sites', s.I.callsites)
        return s

    def root(self, path, feature='none'):
        r = self.world(feature).root(path)
        if r is None:
            raise Missing('function %s not found' % path)
        return r

    # ---- independent parts, each in a process of its own (fresh term tables, all cores)
    def each(self, items, fn, jobs=7, features=('none',)):
        """fn(ctx, item) for every item; obligations and counts are merged in the order of the items"""
        for f in features:
            self.world(f)
        items = list(items)
        if os.environ.get('CHECK_SERIAL') or len(items) == 1:
            for it in items:
                fn(self, it)
            return
        sys.stdout.flush()
        results = [None] * len(items)
        running = {}
        todo = list(range(len(items)))
        while todo or running:
            while todo and len(running) < jobs:
                i = todo.pop(0)
                rd, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(rd)
                    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
                    try:
                        out = self._part(fn, items[i])
                        with os.fdopen(wr, 'w') as f:
                            json.dump(out, f)
                    finally:
                        os._exit(0)
                os.close(wr)
                running[rd] = (i, pid, [])
            ready, _, _ = select.select(list(running), [], [], max(1, self.deadline - time.time()))
            if time.time() > self.deadline:
                # parts that are not done by now count as not established
                for rd, (i, pid, buf) in running.items():
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(rd)
                break
            for rd in ready:
                i, pid, buf = running[rd]
                b = os.read(rd, 1 << 20)
                if b:
                    buf.append(b)
                    continue
                os.close(rd)
                os.waitpid(pid, 0)
                del running[rd]
                try:
                    results[i] = json.loads(b''.join(buf).decode())
                except ValueError:
                    results[i] = None
        for it, r in zip(items, results):
            if r is None:
                self.ok(False, 'analysis:%s' % (it,), 'the analysis of %s did not finish' % (it,))
                continue
            self.obls += [tuple(x) for x in r['obls']]
            for k, v in r['viol'].items():
                self.viol.setdefault(k, tuple(v))
            for k, v in r['counts'].items():
                self.count(k, v)
            self.functions |= set(r['functions'])

    def _part(self, fn, item):
        self.obls, self.viol, self.counts, self.functions = [], {}, {}, set()
        try:
            fn(self, item)
        except Missing as e:
            self.ok(False, 'anchor:' + str(e), 'the rule lost an anchor: %s' % e)
        except Exception as e:
            if os.environ.get('CHECK_DEBUG'):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)
            self.ok(False, 'analysis:%s' % (item,), 'the analysis could not establish the property: %s: %s (at %s)' % (
                type(e).__name__, e, ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-3:]))))
        return {'obls': self.obls, 'viol': self.viol, 'counts': self.counts, 'functions': sorted(self.functions)}

    # ---- obligations
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ok(self, cond, key, text, where=None):
        """one proof obligation; key identifies the construct without line numbers"""
        cond = bool(cond)
        self.obls.append((key, cond, text))
        if not cond:
            self.viol.setdefault(key, (text, where))
        return cond

    def floor(self, name, n, least):
        self.count(name, n)
        self.ok(n >= least, 'floor:' + name, 'expected at least %d %s, found %d' % (least, name, n))

    def rule(self, text):
        self.rules.append(text)


def where(ev):
    return ev.where()


# ---------------------------------------------------------------- types and fields


def ty(w, path):
    t = w.find_ty(path)
    if t is None:
        raise Missing('type %s not found' % path)
    return t


def fidx(t, name, variant=0):
    try:
        return t.findex(name, variant)
    except KeyError:
        raise Missing('field %s of %s not found' % (name, t.s))


def fld(v, name, variant=None):
    """field of a struct value"""
    t = v.ty
    if t is None and v.op == 'ite':
        return mk_ite(v.a[0], fld(v.a[1], name, variant), fld(v.a[2], name, variant))
    i = fidx(t, name, variant or 0)
    return proj(v, variant, i, t.field_ty(variant or 0, i))


def with_fields(v, **kw):
    t = v.ty
    fs = [proj(v, 0, i, t.field_ty(0, i)) for i in range(t.nfields(0))]
    for k, x in kw.items():
        fs[fidx(t, k)] = x
    return agg(t, 0, fs)


def variant(t, name, *fields):
    return agg(t, t.vindex(name), list(fields))


def is_variant(v, name):
    return isv(v, v.ty.vindex(name))


def payload(v, name, i=0):
    k = v.ty.vindex(name)
    return proj(v, k, i, v.ty.field_ty(k, i))


def lbs_value(w, n):
    t = ty(w, LBS)
    return variant(t, 'Lb%d' % n)


OPTIONS = {'logical_block_size': 'lb_size', 'writable': 'writable', 'only_valid_headers': 'only_valid_headers',
           'readonly_backup': 'readonly_backup', 'change_partition_count': 'change_partition_count'}


def option_field(w, name):
    """field that holds a configuration option: by its name, otherwise the field its public setter assigns"""
    t = ty(w, CFG)
    try:
        return t.findex(OPTIONS[name], 0)
    except KeyError:
        pass
    if w.root('gpt::GptConfig::' + name) is None:
        raise Missing('setter %s not found' % name)
    s = analyse(w, 'gpt::GptConfig::' + name)
    r = [k for k in range(t.nfields(0)) if veq(proj(s.ret, 0, k, t.field_ty(0, k)), s.args[1]) is TRUE]
    if len(r) != 1:
        raise Missing('field of option %s not found' % name)
    return r[0]


def uuid_value(w, bs):
    t = ty(w, 'uuid::Uuid')
    return agg(t, 0, [lit(bs)])


class Scen:
    """a case of the inputs: concrete configuration options and header states of `self`"""

    def __init__(self, arg='self', lb=None, primary=None, backup=None, **opts):
        self.arg, self.lb, self.primary, self.backup, self.opts = arg, lb, primary, backup, opts
        self.key = (arg, lb, primary, backup, tuple(sorted(opts.items())))

    def config(self, w, c):
        t = c.ty
        fs = [proj(c, 0, i, t.field_ty(0, i)) for i in range(t.nfields(0))]
        if self.lb is not None:
            fs[option_field(w, 'logical_block_size')] = lbs_value(w, self.lb)
        for k, v in self.opts.items():
            fs[option_field(w, k)] = TRUE if v else FALSE
        return agg(t, 0, fs)

    def apply(self, I_, v):
        w = I_.w
        t = v.ty
        if t.path == CFG:
            return self.config(w, v)
        kw = {'config': self.config(w, fld(v, 'config'))}
        for nm in ('primary', 'backup'):
            want = getattr(self, nm)
            if want is not None:
                h = fld(v, nm + '_header')
                kw[nm + '_header'] = variant(h.ty, want, payload(h, want))
        return with_fields(v, **kw)

    def prep(self, I_, st, args, cells):
        w = I_.w
        for i, a in enumerate(args):
            if not isinstance(a, T):
                continue
            if a.op == 'ref' and a.a[0] in st.mem:
                v = st.mem[a.a[0]]
                if v.ty is not None and v.ty.path == DISK:
                    st.mem[a.a[0]] = self.apply(I_, v)
            elif a.op == 'valref' and isinstance(a.a[0], T) and a.a[0].ty is not None and a.a[0].ty.path == DISK:
                args[i] = mk('valref', (self.apply(I_, a.a[0]),), a.ty)
            elif a.ty is not None and a.ty.path in (DISK, CFG):
                args[i] = self.apply(I_, a)
            elif self.lb is not None and a.ty is not None and a.ty.path == LBS:
                args[i] = lbs_value(w, self.lb)
            elif self.lb is not None and a.op == 'valref' and isinstance(a.a[0], T) and a.a[0].ty is not None and a.a[0].ty.path == LBS:
                args[i] = mk('valref', (lbs_value(w, self.lb),), a.ty)


# ---------------------------------------------------------------- proof helpers


def holds(f, lin=None):
    """formula holds on every branch"""
    if f is TRUE:
        return True
    return (lin or Lin()).valid(f)


def strengthen(S):
    """S together with its atoms simplified under S"""
    r = S
    for v in tm.bsupport(S):
        at = tm.ATOMS[v]
        if at.op in ('ge0', 'eq0'):
            p = assume(at.a[0], S)
            if p is not at.a[0]:
                r = r & ~(bvar(at) ^ (ge0(p) if at.op == 'ge0' else eq0(p)))
    return r


def prove(ctx, f, key, text, where=None, lin=None):
    if f is TRUE:
        return ctx.ok(True, key, text, where)
    cube = (lin or Lin()).sat(~f)
    return ctx.ok(cube is None, key, text + ('' if cube is None else ' -- not established when: ' + cube_text(cube)), where)


def imp(a, b):
    return ~a | b


def ok_of(s):
    """condition under which the function returns, with a success value"""
    return s.pc & is_variant(s.ret, 'Ok')


def err_of(s):
    return s.pc & is_variant(s.ret, 'Err')


def cond(x):
    """a boolean result as a formula"""
    return x if isinstance(x, B) else x


def equal(a, b, under=TRUE):
    if under is not TRUE:
        a, b = assume(a, under), assume(b, under)
    return veq(a, b)


def flat(evs, path=()):
    """(event, enclosing loops) of a summary in order"""
    for e in evs:
        yield e, path
        if e.kind == 'loop':
            yield from flat(e.events, path + (e,))


def template(v):
    """pieces of a formatted text: strings and values with their formatting trait; None if not understood"""
    if v.op == 'strlit':
        return [v.a[0]] if v.a[0] else []
    if v.op == 'app' and v.a[0] == 'fmtof':
        return arg_piece(v.a[1].rsplit('::', 2)[-2], v.a[2])
    if v.op == 'app' and v.a[0] == 'fmtargs':
        t = expand(v.a[1]) if v.a[1].op == 'seq' else None
        xs = expand(v.a[2]) if len(v.a) > 2 and v.a[2].op == 'seq' else []
        if t is None or xs is None:
            return None
        t = [cval(x) for x in t]
        if None in t:
            return None
        out, i, k = [], 0, 0
        while i < len(t):
            n = t[i]
            i += 1
            if n == 0:
                break
            if n < 0x80 or n == 0x80:
                if n == 0x80:
                    n = t[i] + 256 * t[i + 1]
                    i += 2
                out.append(bytes(t[i:i + n]).decode('utf8', 'replace'))
                i += n
            elif n == 0xC0:
                a = xs[k]
                k += 1
                if not (a.op == 'app' and a.a[0] == 'fmtarg'):
                    return None
                p = arg_piece({'new_display': 'Display', 'new_debug': 'Debug'}.get(a.a[1], a.a[1]), a.a[2])
                if p is None:
                    return None
                out += p
            else:
                return None
        r = []
        for x in out:
            if isinstance(x, str) and r and isinstance(r[-1], str):
                r[-1] += x
            else:
                r.append(x)
        return r
    return None


def arg_piece(trait, v):
    while isinstance(v, T) and v.op == 'valref':
        v = v.a[0]
    if trait == 'Display' and isinstance(v, T):
        if cval(v) is not None:
            return [str(cval(v))]
        if v.op == 'strlit':
            return [v.a[0]]
    return [(trait, v)]


def device_after(s, S):
    """(device, position, version) at the end, on the branches in S"""
    ks = [k for k in s.st.mem if isinstance(k, tuple) and k[0] == 'dev']
    if len(ks) != 1:
        raise Missing('%s: expected one device, found %d' % (s.name, len(ks)))
    st = s.st.mem[ks[0]]
    return ks[0][1], assume(models_io.part(st, 0), S), assume(models_io.part(st, 1), S)


def written(ver):
    """list of (offset, bytes) written, oldest first, if the version is a straight chain of complete writes on the original content"""
    out = []
    while ver.op == 'app' and ver.a[0] == 'wr':
        out.append((ver.a[2], ver.a[3]))
        ver = ver.a[1]
    if ver.op == 'app' and ver.a[0] == 'ver0':
        return out[::-1]
    return None


def byte_image(ver, S=TRUE):
    """{offset: byte term} for writes at constant offsets and of constant lengths, else None"""
    ws = written(ver)
    if ws is None:
        return None
    img = {}
    for off, seq in ws:
        o, n = cval(assume(off, S)), cval(assume(slen(seq), S))
        if o is None or n is None or n > 1 << 16:
            return None
        for i in range(n):
            img[o + i] = assume(elem(seq, I(i), U8), S)
    return img


def record_bytes(r):
    """the 16 bytes of one MBR record"""
    out = [fld(r, f) for f in ('boot_indicator', 'start_head', 'start_sector', 'start_track', 'os_type', 'end_head', 'end_sector', 'end_track')]
    return out + le_bytes(fld(r, 'lb_start'), 4) + le_bytes(fld(r, 'lb_size'), 4)


def mbr_bytes(m):
    """the 512 bytes of a protective MBR"""
    boot, sig = fld(m, 'bootcode'), fld(m, 'disk_signature')
    out = [elem(boot, I(i), U8) for i in range(440)] + [elem(sig, I(i), U8) for i in range(4)]
    out += le_bytes(fld(m, 'unknown'), 2)
    recs = fld(m, 'partitions')
    for i in range(4):
        out += record_bytes(elem(recs, I(i), recs.ty.elem if recs.ty is not None else None))
    s = fld(m, 'signature')
    return out + [elem(s, I(i), U8) for i in range(2)]


def same_bytes(got, want, S=TRUE):
    """condition that two lists of byte terms agree"""
    if len(got) != len(want):
        return FALSE
    r = TRUE
    for a, b in zip(got, want):
        r = r & veq(assume(a, S), assume(b, S))
        if r is FALSE:
            break
    return r


def disk_args(w, r, mutable=None):
    """indices of the arguments of a root that are disk objects (by value or reference)"""
    b = w.body(r)
    out = []
    for i in range(b['argc']):
        t = w.ty(b['locals'][1 + i][0])
        mut = True
        while t is not None and t.k == 'ref':
            mut = mut and bool(t.d.get('mut'))
            t = t.to
        if t is not None and t.k == 'adt' and t.path == DISK and (mutable is None or mutable == mut):
            out.append(i)
    return out


def operations(ctx, mutable=None):
    """exported functions that take a disk object"""
    w = ctx.world()
    return sorted({r['path'] for r in w.roots if r.get('exported') and disk_args(w, r, mutable)})


def pre(s, i=0):
    """value of an argument before the call, through references"""
    a = s.args[i]
    while isinstance(a, T) and a.op in ('ref', 'valref'):
        if a.op == 'valref':
            a = a.a[0]
        else:
            a = s.mem0[a.a[0]]
    return a


def post(s, i=0):
    """value of an argument after the call (what a mutable reference points to)"""
    a = s.args[i]
    if isinstance(a, T) and a.op == 'ref':
        return s.st.mem[a.a[0]]
    return pre(s, i)


def view(v):
    """value behind a returned reference"""
    if isinstance(v, T):
        if v.op == 'ite':
            return mk_ite(v.a[0], view(v.a[1]), view(v.a[2]))
        if v.op == 'valref':
            return v.a[0]
    return v


def mval(w, m, key):
    """value of a partition map under a key"""
    return map_value(m, key, ty(w, PART))


def support_terms(f):
    """atoms of a formula and the atoms inside their integer terms"""
    out = {}
    todo = [tm.ATOMS[v] for v in tm.bsupport(f)]
    while todo:
        a = todo.pop()
        if a.id in out:
            continue
        out[a.id] = a
        for x in a.a:
            if isinstance(x, T):
                todo.append(x)
            elif isinstance(x, B):
                todo += [tm.ATOMS[v] for v in tm.bsupport(x)]
            elif isinstance(x, tuple):
                for y in _leaves_of(x):
                    todo.append(y)
    return out.values()


def _leaves_of(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _leaves_of(y)


def search_facts(f, ks=()):
    """what the outcomes of the searches mentioned in f mean, for the positions ks: a search that found nothing fails
    at each position; one that found something succeeds at the first position and fails before it"""
    r = TRUE
    for a in list(support_terms(f)):
        if a.op == 'exists':
            lv, n, c = a.a
            e = bvar(a)
            for k in ks:
                r = r & imp(~e & ge0(k) & lt(k, n), ~subst(c, {lv: k}))
            F = P(mk('first', (lv, n, c)))
            r = r & imp(e, lt(F, n) & subst(c, {lv: F}))
        elif a.op == 'first':
            lv, n, c = a.a
            for k in ks:
                r = r & imp(ge0(k) & lt(k, P(a)), ~subst(c, {lv: k}))
    return r


def pieces(t):
    """a sequence as single values and repeated parts: ('one', value), ('flat', variable, times, condition, values), ('other', term)"""
    if t.op == 'flat':
        return [('flat',) + tuple(t.a)]
    if t.op != 'seq':
        return [('other', t)]
    out = []
    for s in segs(t):
        if s[0] == 'lit':
            out += [('one', x) for x in s[1:]]
        elif s[0] == 'opq':
            out += pieces(s[1]) if s[1] is not t else [('other', s[1])]
        else:
            out.append(('other', s))
    return out


def forget(f, pred):
    """weaken a formula: drop what it says about the atoms for which pred holds (existential projection)"""
    for v in sorted(tm.bsupport(f), reverse=True):
        at = tm.ATOMS[v]
        if pred(at):
            x = bvar(at)
            f = tm.restrict(f, x) | tm.restrict(f, ~x)
    return f


def about_device(at, memo={}):
    """the atom depends on the device's size or on whether an access of the device succeeds"""
    r = memo.get(at.id)
    if r is None:
        r = memo[at.id] = any(x.op == 'ok' or (x.op == 'app' and x.a[0] in ('devlen', 'ok', 'ioerr')) for x in all_terms(at))
    return r


def all_terms(x, seen=None):
    seen = set() if seen is None else seen
    if isinstance(x, B):
        for v in tm.bsupport(x):
            yield from all_terms(tm.ATOMS[v], seen)
        return
    if isinstance(x, tuple):
        for y in x:
            if isinstance(y, (T, B, tuple)):
                yield from all_terms(y, seen)
        return
    if x.id in seen:
        return
    seen.add(x.id)
    yield x
    for y in x.a:
        if isinstance(y, (T, B, tuple)):
            yield from all_terms(y, seen)


def gate_atoms(x):
    """atoms that select between values inside x"""
    out = {}
    for t in all_terms(x):
        if t.op == 'ite':
            for v in tm.bsupport(t.a[0]):
                out[v] = tm.ATOMS[v]
    return [out[v] for v in sorted(out)]


def settle(S, *values, lin=None, facts=TRUE):
    """S together with the outcome of every linear gate inside it (and inside the values) that S decides; returns (S, values)"""
    lin = lin or Lin()
    tried = set()
    for _ in range(12):
        S = strengthen(S)
        vs = [assume(v, S) for v in values]
        new = TRUE
        for a in gate_atoms((S,) + tuple(vs)):
            if a.op not in ('ge0', 'eq0') or (a.id, S.id) in tried:
                continue
            tried.add((a.id, S.id))
            x = bvar(a)
            if implies(S, x) or implies(S, ~x):
                continue
            if not lin.sat(S & facts & ~x):
                new = new & x
            elif not lin.sat(S & facts & x):
                new = new & ~x
        if new is TRUE:
            break
        S = S & new
    return S, vs


def deep(f, S, vm=None):
    """formula with its atoms simplified under S"""
    memo = {}
    vm = {} if vm is None else vm

    def go(x):
        if x is TRUE or x is FALSE:
            return x
        r = memo.get(x.id)
        if r is None:
            at = tm.ATOMS[x.v]
            b = bvar(at)
            if at.op in ('ge0', 'eq0'):
                p = deepv(at.a[0], S, vm)
                if p is not at.a[0]:
                    b = ge0(p) if at.op == 'ge0' else eq0(p)
            elif at.op == 'eqv':
                b = veq(*[deepv(y, S, vm) for y in at.a])
            r = memo[x.id] = (b & go(x.hi)) | (~b & go(x.lo))
        return r
    return restrict(go(restrict(f, S)), S)


def deepv(t, S, memo=None):
    """value simplified under S, including the conditions of its gates"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        if isinstance(t, B):
            r = deep(t, S, memo)
        else:
            t1 = assume(t, S)
            if not tm.has_ite(t1):
                r = t1
            elif t1.op == 'ite':
                c = deep(t1.a[0], S, memo)
                if implies(S, c):
                    r = deepv(t1.a[1], S, memo)
                elif implies(S, ~c):
                    r = deepv(t1.a[2], S, memo)
                else:
                    r = _prune(mk_ite(c, deepv(t1.a[1], S, memo), deepv(t1.a[2], S, memo)), S)
            elif t1.op == 'poly':
                r = I(t1.a[0])
                for m, c in t1.a[1]:
                    q = I(c)
                    for x in m:
                        y = deepv(x, S, memo)
                        q = mul(q, y if isinstance(y, T) and y.op == 'poly' else P(y))
                    r = add(r, q)
            elif t1.op in tm._DEEP:
                r = tm.map_args(t1, lambda x: deepv(x, S, memo))
            else:
                r = t1
        memo[t] = r
    return r


def _prune(t, S, most=64):
    """gated value without the outcomes S excludes"""
    memo = {}

    def go(x):
        """{outcome: condition}, None if there are too many"""
        if x in memo:
            return memo[x]
        y = atom_of(x) if isinstance(x, T) else None
        if y is not None and y.op == 'ite':
            x = y
        if not isinstance(x, T) or x.op != 'ite':
            r = {x: TRUE}
        else:
            r = go(x.a[1])
            e = go(x.a[2]) if r is not None else None
            if e is not None:
                c, r0, r = x.a[0], r, {}
                for v, g in r0.items():
                    r[v] = c & g
                for v, g in e.items():
                    r[v] = r.get(v, FALSE) | (~c & g)
                if len(r) > most:
                    r = None
            else:
                r = None
        memo[x] = r
        return r
    out = go(t)
    if out is None:
        return t
    live = [(x, c) for x, c in out.items() if c & S is not FALSE]
    if not live or len(live) == len(out):
        return t
    r = live[-1][0]
    for x, c in live[:-1][::-1]:
        r = mk_ite(restrict(c, S), x, r)
    return r


def at_iteration(S, lv, n):
    """S on the branches of an iteration lv in [0, n) of a loop that ran to its end: no early exit happened there"""
    k = P(lv)
    S = S & ge0(k) & lt(k, n)
    return S & search_facts(S, (k,))


def unwrap_mod(t, C, facts=TRUE, lin=None):
    """t with every remainder of a power of two that cannot change its operand (under C) replaced by the operand"""
    from engine.interp import _replace
    lin = lin or Lin()
    for a in list(all_terms(t)):
        if a.op == 'app' and a.a[0] == 'mod' and cval(a.a[2]) is not None and tm._some_ite(a.a[1]) is None:
            x = a.a[1]
            if not lin.sat(C & facts & ~(ge0(x) & lt(x, a.a[2]))):
                t = _replace(t, a, x)
    return t
