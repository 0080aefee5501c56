"""Round-trip workload and the monitors that judge each observed call.

One program -> one harness executable holding every backend's stub and
skeleton; a script drives calls; `judge` compares what the monitors recorded
against the reference semantics in idl.py.  Verdict aspects:
  value (C01)  env (C02)  wire (C03)  refs (C05)  crash (C01)  build (C01/C11)
"""
import os, shutil, struct as st
from . import common, gen, rt
from .idl import *

PAIRS = [(a, b) for a in rt.BES for b in rt.BES]


class Case:
    __slots__ = ('kind', 'prog', 'm', 'val', 'sbe', 'kbe', 'impl_if', 'stub_if', 'op', 'status', 'flags', 'var', 'desc', 'extra')

    def key(self):
        return (self.sbe, self.kbe, shape(self.prog, self.m), self.status and 1, self.flags,
                tuple(min(len(v), 3) if isinstance(v, list) else 0 for v in list(self.val.inv.values()) + list(self.val.outv.values())))


def shape(prog, m):
    return tuple((p.dir, p.pk, p.ty if p.ty in PRIMS else (prog.tsize(p.ty) if p.ty in prog.structs else 0), p.cnt or 0) for p in m.params)


def indexes(prog):
    ifs = list(prog.ifaces)
    return {n: i for i, n in enumerate(ifs)}


def add_call(script, prog, sbe, kbe, impl_if, stub_if, midx, m, val, op, status=0, flags=0, var=0, desc=''):
    ix = indexes(prog)
    c = Case()
    c.kind, c.prog, c.m, c.val, c.sbe, c.kbe, c.impl_if, c.stub_if = 'call', prog, m, val, sbe, kbe, impl_if, stub_if
    c.op, c.status, c.flags, c.var, c.desc, c.extra = op, status, flags, var, desc, None
    script.call(c, sbe, kbe, ix[impl_if], ix[stub_if], midx, status, rt.client_blob(prog, m, val), rt.plan_blob(prog, m, val), flags, var)
    return c


STATUSES = [1, 2, 10, 11, 42, -1, -96, -2147483648, 2147483647, 0x7fff0001]


def workload(prog, rng, script, opts):
    """opts: pairs per method, vals per pair, fail fraction, direct fraction"""
    n = 0
    for impl_if in prog.ifaces:
        chain = [i.name for i in prog.chain(impl_if)]
        ms = prog.methods(impl_if)
        for midx, (op, owner, m) in enumerate(ms):
            pairs = list(PAIRS)
            rng.shuffle(pairs)
            if owner != impl_if:
                pairs = pairs[:opts.get('inh_pairs', 6)]
            pairs = pairs[:opts.get('pairs', 16)]
            for sbe, kbe in pairs:
                if sbe not in opts.get('bes', rt.BES) or kbe not in opts.get('bes', rt.BES):
                    continue
                for rep in range(opts.get('vals', 2)):
                    # any interface of the chain that has the method may be the client's static type
                    stubs = [s for s in chain if midx < len(prog.methods(s))]
                    stub_if = impl_if if rng.random() < .6 else rng.choice(stubs)
                    om = rng.choice(['mix', 'mix', 'distinct', 'distinct', 'alias', 'null'])
                    val = rt.Val(prog, m, rng, om, opts.get('lens'))
                    status, flags = 0, 0
                    if rng.random() < opts.get('fail', .2):
                        status = rng.choice(STATUSES)
                        flags |= 2 if rng.random() < .5 else 0
                        flags |= 8 if rng.random() < .5 else 0
                    if rng.random() < .5:
                        flags |= 16
                    if rng.random() < .3:
                        flags |= 1
                    if rng.random() < opts.get('direct', .1):
                        flags |= 4
                    add_call(script, prog, sbe, kbe, impl_if, stub_if, midx, m, val, op, status, flags)
                    n += 1
    return n


def has_object_struct_out(prog, m):
    return any(p.dir == 'out' and p.pk == 'struct' and prog.objects(p.ty) for p in m.params)


def ref_objs_grouped(prog, m, vals, d):
    """list of (kind, ids): kind 'seq' fixed order, 'set' any order inside one struct"""
    out = []
    for p in m.params:
        if p.dir != d:
            continue
        if p.pk == 'obj':
            out.append(('seq', [vals[p.name]]))
        elif p.pk == 'objarr':
            out.append(('seq', list(vals[p.name])))
        elif p.pk == 'struct':
            ids = rt.objs_of(prog, p.ty, vals[p.name])
            if ids:
                out.append(('set', ids))
    return out


def objs_match(groups, got):
    i = 0
    for k, ids in groups:
        g = got[i:i + len(ids)]
        i += len(ids)
        if (k == 'seq' and g != ids) or (k == 'set' and sorted(g) != sorted(ids)):
            return False
    return i == len(got)


def judge(c, o):
    """yields (aspect, message)"""
    prog, m, val = c.prog, c.m, c.val
    res = []
    cnt, bi, sizes, oi, bo, oo = rt.ref_envelope(prog, m, val)
    direct = c.flags & 4
    A = lambda a, s: res.append((a, s))
    for ln in o.other:
        if ln.startswith('HARNESS'):
            A('value', 'glue protocol broken: ' + ln)
    # ---- envelope and request wire
    if len(o.inv) != 1:
        A('env', 'expected exactly one invocation, saw %d' % len(o.inv))
        if not o.inv and c.kind == 'call':
            A('value', 'the call never reached the transport')
    for op, k, I, O, soi, soo in o.inv:
        if op != c.op:
            A('env', 'op-code %#x, expected %d' % (op, c.op))
        want = pack_counts(cnt)
        if k != want:
            A('env', 'counts word %#x, expected %#x (BI,BO,OI,OO=%s)' % (k, want, cnt))
            continue
        if any(x > 15 for x in cnt):
            A('env', 'count over 15: %s' % (cnt,))
        if [n for n, _ in O] != sizes:
            A('wire', 'output buffer sizes %s, expected %s' % ([n for n, _ in O], sizes))
        if [n for n, _ in I] != [len(b) for b in bi]:
            A('wire', 'input buffer sizes %s, expected %s' % ([n for n, _ in I], [len(b) for b in bi]))
        else:
            for j, ((n, b), w) in enumerate(zip(I, bi)):
                if b is not None and b != w:
                    A('wire', 'input buffer %d bytes %s, expected %s' % (j, b.hex(), w.hex()))
        if not objs_match(ref_objs_grouped(prog, m, val.inv, 'in'), soi):
            A('wire', 'input objects %s, expected %s' % (soi, oi))
            A('env', 'input object section %s, expected %s' % (soi, oi))
    # ---- implementation view
    name = '%s.%s' % (c.impl_if, m.name)
    if o.impl != [name]:
        A('value', 'implementation entries %s, expected [%s]' % (o.impl, name))
        if not o.impl:
            A('env', 'skeleton did not accept the canonical envelope (status %s)' % o.status)
    if o.got and o.got[0] != rt.got_blob(prog, m, val):
        A('value', 'implementation received %s, caller sent %s' % (o.got[0].hex(), rt.got_blob(prog, m, val).hex()))
    if o.status is not None and o.status != c.status:
        A('value', 'caller got status %s, implementation returned %s' % (o.status, c.status))
    # ---- response wire
    if c.status == 0 and o.impl == [name] and not direct:
        for r, O, roo in o.rsp:
            if r != 0:
                continue
            if [b for _, b in O] != bo:
                A('wire', 'output buffers %s, expected %s' % ([(n, b.hex() if b is not None else None) for n, b in O], [b.hex() for b in bo]))
            if not objs_match(ref_objs_grouped(prog, m, val.outv, 'out'), roo):
                A('wire', 'output objects %s, expected %s' % (roo, oo))
    # ---- caller view
    if o.out is not None and o.status == c.status == 0:
        if o.out[1] != rt.plan_blob(prog, m, val):
            A('value', 'caller received %s, implementation produced %s' % (o.out[1].hex(), rt.plan_blob(prog, m, val).hex()))
    for w, v in o.notes:
        if w == 'failobj':
            if v and not (v == 60 and c.flags & 16):
                A('refs', 'failed call handed object %d to the caller' % v)
        else:
            A('value', 'implementation saw a capacity smaller than the caller gave: %s %d' % (w, v))
    if o.done:
        for i, (refs, mn, ret, rel) in sorted(o.refs.items()):
            if refs != 1 or mn < 1:
                A('refs', 'object %d: count ended at %d (start 1), minimum %d, %d retains, %d releases' % (i, refs, mn, ret, rel))
        if o.left is not None:
            if o.left[0] != 1:
                A('refs', 'target handle count ended at %d (start 1)' % o.left[0])
    for ln in o.other:
        if ln.startswith(('OBJCALL', 'BADDROP')):
            A('refs', 'foreign handle used: ' + ln)
    return res


def run_script(exe, script, d, tag='s', max_restarts=6):
    """executes a script, restarting after a crashing case.
    returns ({case: Obs}, [(case, crash)])"""
    obs, crashes = {}, []
    start = 0
    offs = script.offsets
    for _ in range(max_restarts + 1):
        sub = rt.Script()
        sub.b = script.b[offs[start]:]
        o, crash = rt.execute(exe, sub, d, tag)
        obs.update(o)
        if crash is None:
            return obs, crashes
        lc = crash[0]
        if lc is None:
            crashes.append((start, crash))
            return obs, crashes
        crashes.append((lc, crash))
        start = lc + 1
        if start >= len(script.cases):
            break
    return obs, crashes


def describe(c, d=None):
    if c.kind == 'raw':
        return 'raw %s envelope -> %s skeleton of %s%s, op %#x, method %s, expected %s, planned status %d' % (
            c.what, c.kbe, c.impl_if, ' (without its optional methods)' if c.extra else '', c.op,
            c.m.text() if c.m else '(none)', c.expect, c.status)
    s = '%s stub -> %s skeleton, implementation of %s called through %s, method %s(%s), op %d, status %d, flags %d' % (
        c.sbe, c.kbe, c.impl_if, c.stub_if, c.m.name, ', '.join(p.text() for p in c.m.params), c.op, c.status, c.flags)
    return s


def sig_of(aspect, c):
    """identifies a violation by the call site shape"""
    if c.kind == 'raw':
        return '%s:%s:%s:%s' % (aspect, c.what, c.kbe, ','.join('%s %s' % (p.dir, p.pk) for p in (c.m.params if c.m else []))[:120])
    return '%s:%s->%s:%s' % (aspect, c.sbe, c.kbe, ','.join('%s %s' % (p.dir, p.pk) for p in c.m.params)[:120])


def halves(prog):
    """two programs with half of the methods each, and the structs they need"""
    import copy
    ms = [(n, k) for n, it in prog.ifaces.items() for k, m in enumerate(it.members) if m.kind == 'method']
    if len(ms) < 2:
        return []
    out = []
    for part in (set(ms[:len(ms) // 2]), set(ms[len(ms) // 2:])):
        q = copy.deepcopy(prog)
        need = set()

        def use(t):
            if t in prog.structs and t not in need:
                need.add(t)
                for f in prog.structs[t].fields:
                    use(f[0])
        for n, it in q.ifaces.items():
            it.members = [m for k, m in enumerate(it.members) if m.kind != 'method' or (n, k) in part]
            for m in it.methods:
                for p in m.params:
                    use(p.ty)
        for f in q.files:
            f.decls = [d for d in f.decls if d.kind != 'struct' or d.name in need]
        q.reindex()
        out.append(q)
    return out


def drive(ctx, idlc, make_prog, n_programs, aspects, opts=None, workers=None, keep=None, build_opts=None):
    """build n programs in parallel and judge the calls; `aspects` are those
    this property owns."""
    opts = opts or {}
    seeds = [ctx.rng.getrandbits(48) for _ in range(n_programs)]

    def one(i):
        import random
        if ctx.left() < opts.get('reserve', 20):
            return [('skipped', i)]
        rng = random.Random(seeds[i])
        prog = make_prog(rng, i)
        first = attempt(i, rng, prog, dict(build_opts or {}), ctx.mkdir('p%d' % i))
        out = [first]
        # what a program that does not build hides is looked at in its parts
        bad = first[3] if first[0] == 'build' else first[6]
        if bad:
            lost = list((build_opts or {}).get('backends', rt.BES)) if first[0] == 'build' else [b for b in rt.BES if b in {s.split()[-1] for s, _ in bad}] or list(rt.BES)
            queue = halves(prog)
            while queue and ctx.left() > opts.get('reserve', 20) + 60:
                with lock:
                    if room[0] <= 0:
                        break
                    room[0] -= 1
                    k = room[0]
                part = queue.pop(0)
                r = attempt(i, rng, part, dict(build_opts or {}, backends=lost), ctx.mkdir('p%d_%d' % (i, k)))
                if r[0] != 'build' and not r[6]:
                    out.append(r)
                else:
                    if r[0] != 'build':
                        out.append(r[:6] + ([],))
                    queue += halves(part)
        return out
    import threading
    lock, room = threading.Lock(), [48]

    def attempt(i, rng, prog, bo, d):
        try:
            bo.setdefault('backends', rt.BES)
            dropped = []
            while True:
                try:
                    exe = rt.build(idlc, prog, d, **bo)
                    break
                except rt.BuildFail as e:
                    be = e.stage.split()[-1]
                    dropped.append((e.stage, e.what))
                    if be not in bo['backends'] or len(bo['backends']) == 1:
                        return ('build', i, prog, dropped)
                    bo['backends'] = [b for b in bo['backends'] if b != be]
            script = rt.Script()
            w = opts.get('workload', workload)
            w(prog, rng, script, dict(opts, bes=bo['backends']))
            obs, crashes = run_script(exe, script, d)
            return ('ok', i, prog, script, obs, crashes, dropped)
        finally:
            if not keep:
                shutil.rmtree(d, ignore_errors=True)
    for r in (r for l in common.parmap(one, range(n_programs), workers) for r in l):
        if r[0] == 'skipped':
            ctx.count('programs_skipped_for_time')
            continue
        prog = r[2]
        files = common.program_files(prog)
        dropped = r[3] if r[0] == 'build' else r[6]
        for stage, what in dropped:
            ctx.count('backend_build_failures')
            if 'build' in aspects:
                ctx.violation('build:' + stage, 'accepted interface has no usable %s: %s' % (stage, what[:1500]), files)
        if r[0] == 'build':
            if 'build' not in aspects:
                ctx.count('programs_not_built')
            continue
        _, i, _, script, obs, crashes, _ = r
        ctx.count('programs')
        for cid, crash in crashes:
            ctx.count('crashes')
            c = script.cases[cid]
            if 'crash' in aspects:
                ctx.violation('crash:%s:%s' % (rt.crash_summary(crash), sig_of('', c) if c else ''),
                              '%s\n%s' % (describe(c) if c else '?', crash[2][-2500:]), files)
        seen = 0
        for cid, o in obs.items():
            c = script.cases[cid]
            if c is None:
                continue
            ctx.case(c.key())
            ctx.count('calls')
            if c.var:
                ctx.count(c.var if isinstance(c.var, str) else 'variant_calls')
            ctx.count('invocations_observed', len(o.inv))
            ctx.count('implementation_entries', len(o.impl))
            for aspect, msg in opts.get('judge', judge)(c, o):
                if aspect in aspects:
                    ctx.violation(sig_of(aspect, c), describe(c) + '\n' + msg, files)
                else:
                    ctx.count('other_aspect_' + aspect)
            if ctx.evaluations % 997 == 1:
                ctx.sample(describe(c))
