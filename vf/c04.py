"""C04: hostile envelopes delivered straight to generated skeletons."""
import random
from . import c18, common, core, direct, gen, jv, rt
from .idl import *

GENERIC = range(1, 10)


class Raw:
    __slots__ = ('kind', 'prog', 'm', 'kbe', 'sbe', 'impl_if', 'stub_if', 'what', 'expect', 'val', 'status', 'op', 'flags', 'var', 'extra')

    def key(self):
        return (self.kbe, self.what, core.shape(self.prog, self.m) if self.m else None, self.expect)


def canonical(prog, m, val):
    cnt, bi, sizes, oi, bo, oo = rt.ref_envelope(prog, m, val)
    return cnt, list(bi), list(sizes), list(oi)


def fixed_slots(prog, m):
    """indexes of BI / BO slots that carry fixed-size parameters"""
    w = prog.wire(m)
    out = []
    for d, k in (('in', 'BI'), ('out', 'BO')):
        for i, it in enumerate(w[k]):
            if it[0] != 'buf':
                out.append((d, i))
    return out


def workload(prog, rng, script, opts):
    ix = core.indexes(prog)
    n = 0
    Val = opts.get('val', rt.Val)

    def emit(kbe, impl_if, m, what, expect, op, k, bi, bo, oi, val=None, var=0, status=0, nul0=0):
        nonlocal n
        c = Raw()
        c.kind, c.prog, c.m, c.kbe, c.sbe, c.impl_if, c.stub_if = 'raw', prog, m, kbe, 'raw', impl_if, impl_if
        c.what, c.expect, c.val, c.status, c.op, c.flags, c.var, c.extra = what, expect, val, status, op, 0, 'raw_' + what, var
        plan = rt.plan_blob(prog, m, val) if val is not None and m is not None else b''
        script.raw(c, kbe, ix[impl_if], status, op, k, bi, bo, oi, plan, var, nul0)
        n += 1

    def good(kbe, impl_if, var=0):
        ms = [x for x in prog.methods(impl_if) if not (var and x[2].optional)]
        if not ms:
            return
        op, _, m = rng.choice(ms)
        val = Val(prog, m, rng, 'alias', [0, 1, 3, 9])
        cnt, bi, bo, oi = canonical(prog, m, val)
        emit(kbe, impl_if, m, 'well-formed', 'served', op, pack_counts(cnt), bi, bo, oi, val, var, rng.choice([0, 0, 0, 11]), rng.random() < .3)

    for impl_if in prog.ifaces:
        ms = prog.methods(impl_if)
        anyopt = any(m.optional for _, _, m in ms)
        for kbe in opts.get('bes', rt.BES):
            for op, owner, m in ms:
                if rng.random() > opts.get('density', 1):
                    continue
                val = Val(prog, m, rng, 'alias', [0, 1, 3, 9])
                cnt, bi, bo, oi = canonical(prog, m, val)
                k0 = pack_counts(cnt)
                emit(kbe, impl_if, m, 'well-formed', 'served', op, k0, bi, bo, oi, val)
                # --- argument counts
                deltas = []
                for cl in range(4):
                    for dlt in (-1, 1, 2, -cnt[cl], 15 - cnt[cl]):
                        c2 = list(cnt)
                        c2[cl] += dlt
                        if 0 <= c2[cl] <= 15 and c2[cl] != cnt[cl]:
                            deltas.append(tuple(c2))
                deltas += [(0, 0, 0, 0), (15, 15, 15, 15), cnt[::-1], (cnt[1], cnt[0], cnt[2], cnt[3]), (cnt[0], cnt[1], cnt[3], cnt[2]),
                           (cnt[2], cnt[3], cnt[0], cnt[1])]
                deltas = sorted(set(d for d in deltas if d != cnt))
                rng.shuffle(deltas)
                for c2 in deltas[:opts.get('n_counts', 4)]:
                    b2 = (bi + [b'\x11' * 4] * 15)[:c2[0]]
                    o2 = (bo + [4] * 15)[:c2[1]]
                    i2 = (oi + [9] * 15)[:c2[2]]
                    emit(kbe, impl_if, m, 'counts', 'refused', op, pack_counts(c2), b2, o2, i2, val)
                    if rng.random() < .25:
                        good(kbe, impl_if)
                # bits beyond the four classes (a Java skeleton sees the array lengths only)
                if kbe != 'java':
                    emit(kbe, impl_if, m, 'counts-highbits', 'refused', op, k0 | 1 << rng.randrange(16, 32), bi, bo, oi, val)
                # --- fixed sizes
                for d, i in fixed_slots(prog, m):
                    full = len(bi[i]) if d == 'in' else bo[i]
                    sizes = [0, 1, full - 1, full + 1, full * 2, full // 2, full + 8, ('w', 0), ('w', 1)]
                    if kbe == 'java':
                        sizes = sizes[:-2] + [2 ** 31 - 1] * (d == 'out') + [-1] * (d == 'out')
                    rng.shuffle(sizes)
                    for s in sizes[:opts.get('n_sizes', 3)]:
                        if s == full:
                            continue
                        b2, o2 = list(bi), list(bo)
                        if isinstance(s, tuple):
                            # 64-bit sizes that only match when truncated
                            if d == 'in':
                                b2[i] = (bi[i], 2 - s[1])
                            else:
                                o2[i] = (full, 2 - s[1])
                        elif d == 'in':
                            b2[i] = (bi[i] + b'\xEE' * (full + 8))[:s]
                        else:
                            o2[i] = s
                        emit(kbe, impl_if, m, 'size-' + d, 'refused', op, k0, b2, o2, oi, val, nul0=rng.random() < .5)
                        if rng.random() < .25:
                            good(kbe, impl_if)
                # --- variable-size buffers whose byte size is no multiple of the element
                w = prog.wire(m)
                for d, key in (('in', 'BI'), ('out', 'BO')):
                    for i, it in enumerate(w[key]):
                        if it[0] == 'buf' and it[2] > 1:
                            b2, o2 = list(bi), list(bo)
                            if d == 'in':
                                b2[i] = b'\x77' * (it[2] + rng.randrange(1, it[2]))
                            else:
                                o2[i] = rng.randrange(1, it[2])
                            if kbe == 'java' and d == 'out':
                                continue
                            emit(kbe, impl_if, m, 'ragged', 'any', op, k0, b2, o2, oi, None, status=12)
            # --- op-codes of nobody
            nm = len(ms)
            val0 = None
            for op in sorted({nm, nm + 1, nm + rng.randrange(2, 200), 0x3fff, 0x4000, 0x7fff, 0x8000, 0xfffc, 0xfff0, rng.randrange(nm, 0xff00), 0x10000 + nm, 0x80000000 | nm}):
                m = rng.choice(ms)[2] if ms and rng.random() < .7 else None
                if m is not None:
                    val = Val(prog, m, rng, 'alias', [0, 1, 3, 9])
                    cnt, bi, bo, oi = canonical(prog, m, val)
                else:
                    cnt, bi, bo, oi = (0, 0, 0, 0), [], [], []
                emit(kbe, impl_if, m, 'op', 'refused', op, pack_counts(cnt), bi, bo, oi)
                if rng.random() < .3:
                    good(kbe, impl_if)
            # --- optional methods left out
            if anyopt:
                for op, owner, m in ms:
                    if m.optional:
                        val = Val(prog, m, rng, 'alias', [0, 1, 3, 9])
                        cnt, bi, bo, oi = canonical(prog, m, val)
                        emit(kbe, impl_if, m, 'optional', 'invalid', op, pack_counts(cnt), bi, bo, oi, val, var=1)
                        good(kbe, impl_if, 1)
                        c2 = list(cnt)
                        c2[rng.randrange(4)] = 14
                        if tuple(c2) != cnt:
                            emit(kbe, impl_if, m, 'optional-counts', 'refused', op, pack_counts(c2), (bi + [b''] * 15)[:c2[0]], (bo + [0] * 15)[:c2[1]], (oi + [0] * 15)[:c2[2]], val, var=1)
            for _ in range(4):
                good(kbe, impl_if)
    return n


def judge(c, o):
    res = []
    A = lambda s: res.append(('refuse', '%s envelope: %s' % (c.what, s)))
    if o.raw is None:
        return res
    r, entered = o.raw[0], o.raw[1]
    for ln in o.other:
        if ln.startswith('OBJCALL'):
            A('foreign object invoked: ' + ln)
        if ln.startswith('EXC') and c.what != 'ragged':
            A('the skeleton failed with ' + ln[4:])
            return res
    if c.expect == 'any':
        return res
    if c.expect == 'served':
        if entered != 1 or r != c.status:
            A('a well-formed call was not served: status %d (expected %d), implementation entered %d times' % (r, c.status, entered))
        elif o.got and o.got[0] != rt.got_blob(c.prog, c.m, c.val):
            A('served with wrong arguments')
        return res
    if entered:
        A('implementation entered (%s) although the invocation must be refused' % ', '.join(o.impl))
    if r == 0:
        A('returned success although the invocation must be refused')
    elif r not in GENERIC:
        A('returned %d, not a generic error' % r)
    elif c.expect == 'invalid' and r != 2:
        A('optional method not provided: returned %d instead of the invalid-request code 2' % r)
    for i, (refs, mn, ret, rel) in o.refs.items():
        if refs != 1 or mn < 1:
            A('object %d count ended at %d (minimum %d) on a refused invocation' % (i, refs, mn))
    if r != 0 and len(o.raw) > 3 and o.raw[3]:
        A('refused invocation left an object in an output slot')
    return res


def jworkload(prog, rng, script, opts):
    return workload(prog, rng, script, dict(opts, val=lambda *a: jv.clean(prog, a[1], rt.Val(*a))))


def check(ctx):
    idlc = common.Idlc(common.build_idlc())
    ctx.rule = ('hostile envelopes against every generated skeleton: each count class shifted, zeroed, saturated or swapped, bits above the '
                'counts, every fixed-size slot with wrong sizes (0, 1, n-1, n+1, 2n, n+2^32, SIZE_MAX), unknown op-codes with matching '
                'and foreign shapes, optional methods left out, each interleaved with well-formed calls; all buffers are exact-size heap '
                'blocks under AddressSanitizer. Distinct by (backend, perturbation, parameter shape)')
    ctx.assumptions += ['a refused call is judged by status, implementation entry, object counts and sanitizer reports; bytes inside the described output extents may change']
    asp = {'refuse', 'crash', 'build'}
    o = {'workload': workload, 'judge': judge, 'reserve': 30}
    bo = {'asan_rust': True}
    fs = [lambda r, i: direct.p_singles(), lambda r, i: direct.p_limits(), lambda r, i: direct.p_bundles(r), lambda r, i: direct.p_objstructs(r), lambda r, i: direct.p_chain(r)] + direct.arrstructs(idlc, ctx)
    core.drive(ctx, idlc, lambda rng, i: fs[i](rng, i), len(fs), asp, dict(o, n_counts=3, n_sizes=3), build_opts=bo)
    total = 1600 if ctx.thorough else 48

    def mk(rng, i):
        return gen.gen_program(rng, {'n_files': 1 + i % 3, 'p_obj_struct': .3, 'n_ifaces': 1 + i % 4})
    done = 0
    while done < total and ctx.left() > 40:
        n = min(64, total - done)
        core.drive(ctx, idlc, mk, n, asp, dict(o, n_counts=12, n_sizes=6), build_opts=bo)
        done += n
    # the Java skeletons, where the arrays' lengths are the counts
    jfs = [lambda r, i: c18.strip(direct.p_singles()), lambda r, i: c18.strip(direct.p_limits()), lambda r, i: c18.strip(direct.p_bundles(r)),
           lambda r, i: c18.strip(direct.p_chain(r))]
    jo = {'workload': jworkload, 'judge': judge, 'reserve': 20, 'n_counts': 6, 'n_sizes': 4, 'bes': ['java']}
    nj = 160 if ctx.thorough else 12
    jv.drive(ctx, idlc, lambda rng, i: jfs[i](rng, i) if i < len(jfs) else
             gen.gen_program(rng, {'n_files': 1 + i % 3, 'struct_objects': False, 'n_ifaces': 1 + i % 4}), nj, asp, jo)
    if not ctx.counters.get('programs'):
        ctx.inconclusive.append('no program could be built')
