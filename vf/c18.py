"""C18: Java proxies and skeletons, driven through a copying transport and
judged against the wire model shared with the C-family backends."""
from . import common, core, direct, gen, jv

ASPECTS = {'value', 'env', 'wire', 'build'}


def strip(prog):
    """Java does not support objects inside structs"""
    for it in prog.ifaces.values():
        it.members = [m for m in it.members if m.kind != 'method' or not any(p.pk == 'struct' and prog.objects(p.ty) for p in m.params)]
    for f in prog.files:
        f.decls = [d for d in f.decls if d.kind != 'struct' or not prog.objects(d.name)]
    prog.reindex()
    return prog


def raw_judge(c, o):
    """skeletons fed reference-encoded envelopes directly"""
    res = []
    for ln in o.other:
        if ln.startswith('EXC') and c.expect == 'served':
            res.append(('value', 'skeleton threw on a well-formed invocation: ' + ln))
    if c.expect == 'served' and o.raw is not None:
        from . import c04, rt
        r, entered = o.raw[0], o.raw[1]
        if entered != 1 or r != c.status:
            res.append(('env', 'well-formed invocation not served: status %d, entered %d' % (r, entered)))
        elif o.got and o.got[0] != rt.got_blob(c.prog, c.m, c.val):
            res.append(('value', 'implementation received %s, envelope carried %s' % (o.got[0].hex(), rt.got_blob(c.prog, c.m, c.val).hex())))
        elif r == 0:
            bo = rt.ref_envelope(c.prog, c.m, c.val)[4]
            oo = rt.ref_envelope(c.prog, c.m, c.val)[5]
            if [b for _, b in o.raw[2]] != bo:
                res.append(('wire', 'output buffers %s, expected %s' % ([b and b.hex() for _, b in o.raw[2]], [b.hex() for b in bo])))
            if o.raw[3] != oo:
                res.append(('wire', 'output objects %s, expected %s' % (o.raw[3], oo)))
    return res


def raw_workload(prog, rng, script, opts):
    from . import c04, rt
    from .idl import pack_counts
    ix = core.indexes(prog)
    for impl_if in prog.ifaces:
        for op, owner, m in prog.methods(impl_if):
            for _ in range(opts.get('vals', 2)):
                val = jv.clean(prog, m, rt.Val(prog, m, rng, rng.choice(['distinct', 'mix']), [0, 1, 3, 9]))
                cnt, bi, sizes, oi, _, _ = rt.ref_envelope(prog, m, val)
                c = c04.Raw()
                c.kind, c.prog, c.m, c.kbe, c.sbe, c.impl_if, c.stub_if = 'raw', prog, m, 'java', 'raw', impl_if, impl_if
                c.what, c.expect, c.val, c.status, c.op, c.flags, c.var, c.extra = 'well-formed', 'served', val, rng.choice([0, 0, 0, 13]), op, 0, 'raw_well-formed', 0
                script.raw(c, 'java', ix[impl_if], c.status, op, pack_counts(cnt), bi, sizes, oi, rt.plan_blob(prog, m, val), 0, rng.random() < .5)


def check(ctx):
    idlc = common.Idlc(common.build_idlc())
    ctx.rule = ('directed catalogue (every supported parameter kind alone and in ordered pairs, bundle ties and boundaries, 15-argument limits, '
                'deep inheritance) and seeded random multi-file programs; proxies called through a copying transport into the generated MinkObject; '
                'every invoke() is compared with the wire model (op, section lengths, buffer bytes, objects), implementation arguments and caller '
                'outputs with the planned values; skeletons are also fed reference-encoded envelopes. Distinct by (parameter shapes, outcome, '
                'array lengths)')
    ctx.assumptions += ['stand-in Java Mink runtime (IMinkObject, JMinkObject, MinkProxy) written from the names generated code uses; NaN payloads are not exercised',
                        'one output argument in five calls is passed as null where the generated proxy allows it']
    sets = [lambda r, i: strip(direct.p_singles()), lambda r, i: strip(direct.p_limits()), lambda r, i: strip(direct.p_bundles(r)),
            lambda r, i: strip(direct.p_chain(r)), lambda r, i: strip(direct.p_wide(r)), lambda r, i: strip(direct.p_far_java(r))]
    parts = list(range(16)) if ctx.thorough else [ctx.rng.randrange(16)]
    sets += [lambda r, i, k=k: strip(direct.p_pairs(k, 16)) for k in parts]
    jv.drive(ctx, idlc, lambda rng, i: sets[i](rng, i), len(sets), ASPECTS, {'vals': 3, 'reserve': 30})
    jv.drive(ctx, idlc, lambda rng, i: sets[i](rng, i), len(sets), ASPECTS, {'vals': 2, 'reserve': 30, 'workload': raw_workload, 'judge': raw_judge})
    jv.drive(ctx, idlc, lambda rng, i: strip(direct.p_long()), 12 if ctx.thorough else 2, ASPECTS, {'vals': 3, 'reserve': 30, 'lens': direct.LONG, 'fail': .05})
    total = 1500 if ctx.thorough else 48

    def mk(rng, i):
        return gen.gen_program(rng, {'n_files': 1 + i % 3, 'struct_objects': False, 'n_ifaces': 1 + i % 4, 'fwd': i % 2})
    done = 0
    while done < total and ctx.left() > 40:
        n = min(64, total - done)
        jv.drive(ctx, idlc, mk, n, ASPECTS, {'vals': 4})
        done += n
    if not ctx.counters.get('java_programs'):
        ctx.inconclusive.append('no Java program could be built')
