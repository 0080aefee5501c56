"""C02: envelope shape of every observed invocation, skeletons' expectation,
and compile-time rejection of methods beyond 15 arguments of a class."""
import os
from . import c04, common, core, direct, gen, rt, rtcheck
from .idl import *


def over_limit(rng):
    """(class, parameter list) whose reference counts exceed 15 in that class"""
    S = {s.name: s for s in direct.STRUCTS + direct.OSTRUCTS}
    prog = direct.prog_of([], direct.STRUCTS + direct.OSTRUCTS)
    out = []
    for d, B, O in (('in', 0, 2), ('out', 1, 3)):
        for n in (16, 17, 31, 32, 255, 256, 257, 264, 271, 512):
            out.append((d, [(d, 'buffer', None)] * n))
            out.append((d, [(d, 'obj', 'IDir')] * n))
            out.append((d, [(d, 'struct', 'S17')] * n))
            out.append((d, [(d, 'primarr', 'uint64')] * n))
        for n in (16, 17, 64, 255, 256, 65535):
            out.append((d, [(d, 'objarr', 'IDir', n)]))
            out.append((d, [(d, 'objarr', None, n)]))
        out.append((d, [(d, 'buffer', None)] * 15 + [(d, 'prim', 'uint8')]))
        out.append((d, [(d, 'prim', 'uint8')] + [(d, 'structarr', 'S3')] * 15))
        out.append((d, [(d, 'prim', 'uint8'), (d, 'prim', 'uint32')] + [(d, 'buffer', None)] * 15))
        out.append((d, [(d, 'struct', 'S16')] + [(d, 'struct', 'S17')] * 15))
        out.append((d, [(d, 'struct', 'O16')] * 16))
        out.append((d, [(d, 'obj', None)] * 15 + [(d, 'struct', 'O16')]))
        out.append((d, [(d, 'struct', 'OA')] * 5 + [(d, 'struct', 'O24')]))
        out.append((d, [(d, 'struct', 'OM')] * 4))
        for _ in range(10):
            ps = []
            while True:
                ps.append((d,) + rng.choice(direct.ATOMS[:-1] + direct.OATOMS))
                m = direct.M()
                m.add(*ps)
                if max(prog.counts(m.ms[0])) > 15:
                    break
            out.append((d, ps))
    res = []
    for d, ps in out:
        m = direct.M()
        m.add(*ps)
        cnt = prog.counts(m.ms[0])
        assert max(cnt) > 15
        res.append((cnt, m.ms[0]))
    return res


def rejections(ctx, idlc, rel):
    cases = []
    for cnt, m in over_limit(ctx.rng):
        for place in ('own', 'base', 'optional') if ctx.thorough else (ctx.rng.choice(['own', 'own', 'base', 'optional']),):
            cases.append((cnt, m, place))
    d = ctx.mkdir('rej')

    def one(ic):
        i, (cnt, m, place) = ic
        ms = [Method('ok0', []), Method(m.name, m.params, place == 'optional'), Method('ok1', [Param('in', 'prim', 'uint8', 'x0')])]
        prog = direct.prog_of(ms, direct.STRUCTS + direct.OSTRUCTS, 'rej%d' % i,
                              [Interface('IDer', 'IDir', [Method('der0', [])])] if place == 'base' else None)
        src = prog.write(os.path.join(d, str(i)))
        res = []
        has_os = any(p.pk == 'struct' and prog.objects(p.ty) for p in m.params)
        for be in ('c', 'cskel', 'cpp', 'cppskel', 'rust', 'java'):
            if be == 'java' and has_os:
                continue
            out = os.path.join(d, '%d-%s' % (i, be))
            if be in ('rust', 'java'):
                os.makedirs(out)
            r = idlc([src, '--' + be.replace('skel', ''), '-o', out] + (['--skel'] if 'skel' in be else []))
            res.append((be, r))
            # release arithmetic wraps where the debug build stops
            r = rel([src, '--' + be.replace('skel', ''), '-o', out + ('r' if be not in ('rust', 'java') else '')] + (['--skel'] if 'skel' in be else []))
            res.append((be + '-release', r))
        return prog, res
    for (cnt, m, place), (prog, res) in zip(cases, common.parmap(one, list(enumerate(cases)))):
        for be, r in res:
            ctx.case(('reject', be, place, cnt, core.shape(prog, m)[:20]))
            ctx.count('overlimit_methods_compiled')
            if common.accepted(r):
                ctx.violation('overlimit:%s:%s' % (be, ','.join(map(str, cnt))),
                              '%s accepted a method whose counts are BI,BO,OI,OO=%s (%s)' % (be, cnt, m.text()[:300]), common.program_files(prog))


def judge(c, o):
    return c04.judge(c, o) if c.what in ('well-formed', 'counts', 'counts-highbits') else []


def check(ctx):
    idlc = common.Idlc(common.build_idlc())
    rejections(ctx, idlc, common.Idlc(common.build_idlc(kind='rel')))
    rtcheck.run(ctx, {'env'}, 48, 2000)
    # the skeleton expects exactly the canonical counts
    fs = [lambda r, i: direct.p_singles(), lambda r, i: direct.p_chain(r), lambda r, i: direct.p_bundles(r), lambda r, i: direct.p_limits()]
    core.drive(ctx, idlc, lambda rng, i: fs[i](rng, i), len(fs), {'refuse'},
               {'workload': c04.workload, 'judge': judge, 'n_counts': 6, 'n_sizes': 0, 'density': .5, 'reserve': 20})
