"""C01/C02/C03/C05: one round-trip workload, judged per aspect."""
from . import common, core, direct, gen

RULE = ('programs: a directed catalogue (every parameter kind alone and in ordered pairs, bundle boundaries and ties, '
        '15-argument limits, arrays of up to 70001 elements, structs with objects, object arrays next to them, deep inheritance) plus seeded random programs; every method is called '
        'for (stub, skeleton) pairs over C, C --no-typed-objects, C++ and Rust through a copying transport; a case is '
        'non-trivial/distinct by (stub, skeleton, parameter shapes, success/failure, transport mode, array lengths)')


def run(ctx, aspects, n_quick, n_thorough, opts=None, objs=.4):
    idlc = common.Idlc(common.build_idlc())
    ctx.rule = RULE
    ctx.assumptions += [
        'object.h, proxy_base.hpp, impl_base.hpp and the Rust object module under /repo/tests are the Mink runtime and are trusted',
        'x86-64 little-endian host; harness glue written from the documented signatures',
    ]
    fs = direct.full_set(ctx.rng) if ctx.thorough else direct.quick_set(ctx.rng)
    fs = fs + direct.arrstructs(idlc, ctx) * (3 if ctx.thorough else 1)
    o = {'vals': 1, 'reserve': 30}
    o.update(opts or {})
    core.drive(ctx, idlc, lambda rng, i: fs[i](rng, i), len(fs), aspects, dict(o))
    if aspects != {'refs'}:
        core.drive(ctx, idlc, lambda rng, i: direct.p_long(), 24 if ctx.thorough else 4, aspects,
                   dict(o, lens=direct.LONG, pairs=16 if ctx.thorough else 4, fail=.05))
    rounds = n_thorough if ctx.thorough else n_quick
    o2 = {'vals': 2}
    o2.update(opts or {})

    def mk(rng, i):
        return gen.gen_program(rng, {'n_files': 1 + i % 3, 'p_obj_struct': objs if i % 2 else .15, 'n_ifaces': 1 + i % 4,
                                     'fwd': i % 4 == 3})
    done = 0
    while done < rounds and ctx.left() > 40:
        n = min(64, rounds - done)
        core.drive(ctx, idlc, mk, n, aspects, o2)
        done += n
    if not ctx.counters.get('programs'):
        ctx.inconclusive.append('no program could be built')
