"""Directed programs: a systematic catalogue of method shapes, complementing
the random generator (every kind alone, every pair of kinds, every bundle
boundary, the 15-argument limits, deep inheritance)."""
import itertools
from .idl import *

# structs of every interesting size; all packed-aligned
STRUCTS = [
    Struct('S1', [('uint8', 1, 'f')]),
    Struct('S2', [('uint8', 2, 'f')]),
    Struct('S3', [('int8', 3, 'f')]),
    Struct('S4', [('uint16', 1, 'f'), ('uint8', 2, 'g')]),
    Struct('S8', [('uint32', 1, 'f'), ('float32', 1, 'g')]),
    Struct('S12', [('uint32', 3, 'f')]),
    Struct('S15', [('uint8', 15, 'f')]),
    Struct('S16', [('uint64', 1, 'f'), ('float64', 1, 'g')]),
    Struct('S16b', [('uint8', 16, 'f')]),
    Struct('S17', [('uint8', 17, 'f')]),
    Struct('S20', [('uint32', 4, 'f'), ('uint16', 2, 'g')]),
    Struct('S24', [('uint64', 2, 'f'), ('uint32', 2, 'g')]),
    Struct('S40', [('S16', 2, 'f'), ('S8', 1, 'g')]),
    Struct('S64', [('uint64', 8, 'f')]),
    Struct('N16', [('S4', 1, 'f'), ('S12', 1, 'g')]),
    Struct('N18', [('S15', 1, 'f'), ('S3', 1, 'g')]),
]
OSTRUCTS = [
    Struct('O16', [('interface', 1, 'h')]),
    Struct('T16', [('IDir', 1, 'h')]),
    Struct('O24', [('uint64', 1, 'f'), ('interface', 1, 'h')]),
    Struct('O24b', [('interface', 1, 'h'), ('uint32', 2, 'f')]),
    Struct('O32', [('IDir', 1, 'h'), ('interface', 1, 'j')]),
    Struct('O40', [('uint32', 2, 'f'), ('IDir', 1, 'h'), ('uint64', 1, 'g'), ('uint16', 4, 'q')]),
    Struct('OA', [('uint64', 1, 'f'), ('IDir', 3, 'h')]),
    Struct('ON', [('O16', 1, 'f'), ('O24', 1, 'g')]),
    Struct('ONA', [('O24', 2, 'f'), ('uint64', 1, 'g')]),
    Struct('OM', [('uint32', 2, 'f'), ('ON', 1, 'g'), ('T16', 2, 'h')]),
    Struct('OW', [('O16', 1, 'w')]),
    # objects before, between and after nested structs without any
    Struct('OP', [('O16', 1, 'f'), ('S24', 1, 'g')]),
    Struct('OQ', [('S16', 1, 'e'), ('O24', 1, 'f'), ('S8', 1, 'g'), ('S8', 2, 'k')]),
    Struct('OR', [('S24', 1, 'e'), ('interface', 2, 'f'), ('S40', 1, 'g')]),
    Struct('OS', [('OP', 1, 'f'), ('S16', 1, 'g')]),
]

ATOMS = [('prim', 'uint8'), ('prim', 'uint16'), ('prim', 'int32'), ('prim', 'uint64'), ('prim', 'float32'), ('prim', 'float64'),
         ('struct', 'S3'), ('struct', 'S12'), ('struct', 'S16'), ('struct', 'S17'), ('struct', 'S40'),
         ('buffer', None), ('primarr', 'uint8'), ('primarr', 'uint16'), ('primarr', 'float64'), ('structarr', 'S3'), ('structarr', 'S24'),
         ('obj', None), ('obj', 'IDir'), ('objarr', 'IDir')]
OATOMS = [('struct', s.name) for s in OSTRUCTS]


class M:
    """accumulates methods into an interface"""

    def __init__(self):
        self.ms = []

    def add(self, *ps, **kw):
        out = []
        for j, (d, pk, ty, *cnt) in enumerate(ps):
            out.append(Param(d, pk, ty, 'p%d' % j, cnt[0] if cnt else (3 if pk == 'objarr' else None)))
        self.ms.append(Method('mt%d' % len(self.ms), out, **kw))


def prog_of(ms, structs, name='dir', extra=None):
    f = File(name + '.idl', [], list(structs) + [Interface('IDir', None, ms)] + (extra or []))
    return Program([f])


def ok_objs(ps):
    """documented rule: an object array excludes other objects in its direction"""
    for d in ('in', 'out'):
        arr = sum(1 for p in ps if p[0] == d and p[1] == 'objarr')
        one = sum(1 for p in ps if p[0] == d and (p[1] == 'obj' or p[1] == 'struct' and p[2][0] in 'OT'))
        if arr > 1 or arr and one:
            return False
    return True


def p_singles():
    m = M()
    m.add()
    for d in ('in', 'out'):
        for t in PRIM_NAMES:
            m.add((d, 'prim', t))
            m.add((d, 'primarr', t))
        for s in STRUCTS:
            m.add((d, 'struct', s.name))
            m.add((d, 'structarr', s.name))
        m.add((d, 'buffer', None))
        m.add((d, 'obj', None))
        m.add((d, 'obj', 'IDir'))
        for n in (1, 2, 3, 15):
            m.add((d, 'objarr', 'IDir', n))
        m.add((d, 'objarr', None, 2))
    return prog_of(m.ms, STRUCTS, 'singles')


def p_pairs(part, parts):
    m = M()
    combos = []
    for (d1, d2) in (('in', 'in'), ('out', 'out'), ('in', 'out'), ('out', 'in')):
        for a, b in itertools.product(ATOMS, ATOMS):
            ps = [(d1,) + a, (d2,) + b]
            if ok_objs(ps):
                combos.append(ps)
    for ps in combos[part::parts]:
        m.add(*ps)
    return prog_of(m.ms, STRUCTS, 'pairs%d' % part)


def p_bundles(rng):
    """ties, ascending/descending sizes, interleaved buffers, boundary members"""
    m = M()
    smalls = [('prim', t) for t in PRIM_NAMES] + [('struct', s.name) for s in STRUCTS if s.name in
              ('S1', 'S2', 'S3', 'S4', 'S8', 'S12', 'S15', 'S16', 'S16b', 'N16')]
    bigs = [('struct', 'S17'), ('struct', 'S20'), ('struct', 'S64'), ('struct', 'N18'), ('buffer', None), ('primarr', 'uint32'), ('structarr', 'S12'), ('obj', 'IDir')]
    asc = [('prim', 'uint8'), ('struct', 'S2'), ('struct', 'S3'), ('prim', 'uint32'), ('prim', 'uint64'), ('struct', 'S12'), ('struct', 'S15'), ('struct', 'S16')]
    for d in ('in', 'out'):
        m.add(*[(d,) + a for a in asc])
        m.add(*[(d,) + a for a in asc[::-1]])
        m.add(*[(d, 'prim', 'uint32')] * 7)
        m.add(*[(d, 'prim', t) for t in PRIM_NAMES])
        m.add(*[(d, 'prim', t) for t in PRIM_NAMES[::-1]])
        m.add(*[(d, 'struct', 'S16'), (d, 'struct', 'S16b'), (d, 'struct', 'N16'), (d, 'struct', 'S16')])
        m.add(*[(d, 'struct', 'S16'), (d, 'struct', 'S17')])
        m.add(*[(d, 'struct', 'S17'), (d, 'struct', 'S16'), (d, 'struct', 'S17'), (d, 'struct', 'S15')])
        for _ in range(14):
            ps = [(d,) + rng.choice(smalls) for _ in range(rng.randrange(2, 9))]
            for _ in range(rng.randrange(0, 4)):
                ps.insert(rng.randrange(len(ps) + 1), (d,) + rng.choice(bigs))
            m.add(*ps)
    for _ in range(22):
        ps = [(rng.choice(['in', 'out']),) + rng.choice(smalls + bigs) for _ in range(rng.randrange(4, 14))]
        m.add(*ps)
    return prog_of(m.ms, STRUCTS, 'bundles')


SMALLS = [('prim', t) for t in PRIM_NAMES] + [('struct', s) for s in ('S1', 'S2', 'S3', 'S4', 'S8', 'S12', 'S15', 'S16', 'S16b', 'N16')]
WIDE = (17, 20, 21, 24, 33, 48, 64)


def p_wide(rng, widths=WIDE):
    """bundles of many members: sizes in every order, equal sizes far apart"""
    m = M()
    for d in ('in', 'out'):
        for n in widths:
            m.add(*[(d,) + rng.choice(SMALLS) for _ in range(n)])
        n = rng.choice(widths)
        few = rng.sample(SMALLS, 2)
        m.add(*[(d,) + rng.choice(few) for _ in range(n)])
        ps = [(d,) + rng.choice(SMALLS) for _ in range(n)]
        for _ in range(6):
            ps.insert(rng.randrange(len(ps) + 1), (d,) + rng.choice([('struct', 'S17'), ('struct', 'N18'), ('buffer', None), ('primarr', 'uint16'), ('obj', 'IDir')]))
        m.add(*ps)
    m.add(*[(rng.choice(['in', 'out']),) + rng.choice(SMALLS) for _ in range(60)])
    return prog_of(m.ms, STRUCTS, 'wide')


def p_far(rng, widths=(70, 131, 260)):
    """far more members, fields and nesting than programs usually have"""
    m = M()
    for n, kinds in zip(widths, (SMALLS, SMALLS[:10], SMALLS[:10])):
        ps = [(d,) + rng.choice(kinds) for d in ('in', 'out') for _ in range(n)]
        if n > widths[0]:
            rng.shuffle(ps)
        m.add(*ps)
    structs = [Struct('W0', [(rng.choice(['uint32', 'int32', 'float32']), 1, 'f%d' % k) for k in range(140)]),
               # many fields, an object only behind them, one level down
               Struct('WO', [('uint64', 1, 'f%d' % k) for k in range(39)] + [('IDir', 1, 'o')]), Struct('WP', [('uint64', 1, 'a'), ('WO', 1, 'n')])]
    # a size of little more than 64 KiB
    for k, (t, c, rest) in enumerate([('uint64', 8192, [('uint8', 8, 'z')]), ('uint64', 8193, []), ('uint8', 65535, [('uint8', 1, 'z')]), ('uint16', 32769, []), ('S8', 8193, []), ('S2', 32769, [('uint16', 1, 'z')])]):
        structs.append(Struct('K64_%d' % k, [(t, c, 'f')] + rest))
    for k in range(12):
        # an object on every level; in the other chain only at the bottom
        structs.append(Struct('DA%d' % k, [('IDir', 1, 'o'), ('uint64', 2, 'v')] if not k else [('DA%d' % (k - 1), 1, 'n'), ('IDir' if k % 2 else 'interface', 1, 'o')]))
        structs.append(Struct('DB%d' % k, [('uint16', 4, 'v'), ('IDir', 2, 'o')] if not k else [('uint64', 1, 'v'), ('DB%d' % (k - 1), 1, 'n')] if k % 3 else [('DB%d' % (k - 1), 1, 'n')]))
        structs.append(Struct('DC%d' % k, [('interface', 1, 'o')] if not k else [('DC%d' % (k - 1), 1, 'n')]))
    for d in ('in', 'out'):
        m.add((d, 'struct', 'W0'))
        m.add((d, 'struct', 'DA11'))
        m.add((d, 'struct', 'DB11'), (d, 'prim', 'uint8'), (d, 'struct', 'DC11'), (d, 'obj', None))
        m.add((d, 'prim', 'uint16'), (d, 'struct', 'DC11'), (d, 'prim', 'uint32'))
        m.add((d, 'struct', 'DB9'), (d, 'struct', 'DB8'), (d, 'struct', 'DC9'))
        m.add((d, 'struct', 'WP'), (d, 'prim', 'uint8'))
        for k in range(6):
            m.add((d, 'struct', 'K64_%d' % k))
            m.add((d, 'prim', 'uint32'), (d, 'struct', 'K64_%d' % k), (d, 'prim', 'uint64'))
    m.add(('in', 'struct', 'DA11'), ('out', 'struct', 'DA10'), ('out', 'structarr', 'W0'))
    return prog_of(m.ms, STRUCTS + structs, 'far')


def p_far_java(rng):
    """parameters of one method take 255 places at most in Java, two for the wide ones"""
    return p_far(rng, (20, 31, 60))


def p_limits():
    m = M()
    for d in ('in', 'out'):
        m.add(*[(d, 'buffer', None)] * 15)
        m.add(*[(d, 'primarr', 'uint16')] * 14, (d, 'prim', 'uint8'))
        m.add(*[(d, 'struct', 'S17')] * 14, (d, 'prim', 'uint8'), (d, 'prim', 'uint32'))
        m.add(*[(d, 'obj', 'IDir')] * 15)
        m.add((d, 'objarr', 'IDir', 15))
        m.add(*[(d, 'prim', 'uint64')] * 40)
    full = []
    for d in ('in', 'out'):
        full += [(d, 'buffer', None)] * 15 + [(d, 'obj', None)] * 15
    m.add(*full)
    m.add(*full[::-1])
    m.add(*[('in', 'buffer', None)] * 15 + [('out', 'objarr', 'IDir', 15)])
    m.add(*[('out', 'buffer', None)] * 15 + [('in', 'objarr', 'IDir', 15)])
    return prog_of(m.ms, STRUCTS, 'limits')


def p_objstructs(rng):
    m = M()
    for d in ('in', 'out'):
        for s in OSTRUCTS:
            m.add((d, 'struct', s.name))
            for a in [('prim', 'uint32'), ('buffer', None), ('obj', 'IDir'), ('struct', 'S40'), ('struct', 'S12'), ('struct', 'O16')]:
                m.add((d,) + a, (d, 'struct', s.name))
                if rng.random() < .3:
                    m.add((d, 'struct', s.name), (d,) + a)
        for a in [('obj', 'IDir'), ('obj', None)]:
            m.add((d,) + a, (d, 'struct', 'O24'), (d,) + a, (d, 'struct', 'O16'), (d, 'struct', 'OM'))
            m.add((d, 'struct', 'T16'), (d,) + a, (d, 'struct', 'O16'), (d, 'prim', 'uint8'))
    for s in OSTRUCTS:
        m.add(('in', 'struct', s.name), ('out', 'struct', s.name))
        m.add(('out', 'struct', s.name), ('in', 'obj', 'IDir'), ('in', 'struct', s.name), ('out', 'obj', None))
    return prog_of(m.ms, STRUCTS + OSTRUCTS, 'objst')


def p_arrstructs(rng):
    """an object array next to objects that travel inside structs"""
    m = M()
    for d in ('in', 'out'):
        for s in OSTRUCTS:
            ps = [(d, 'struct', s.name)]
            ps.insert(rng.randrange(2), (d, 'objarr', rng.choice(['IDir', None]), rng.choice([1, 2, 3, 5])))
            m.add(*ps)
        for n in (1, 2, 4):
            m.add((d, 'struct', 'O16'), (d, 'prim', 'uint16'), (d, 'objarr', 'IDir', n), (d, 'struct', 'OA'), (d, 'buffer', None))
            m.add((d, 'objarr', None, n), (d, 'struct', 'ON'), (d, 'struct', 'T16'))
    for s in OSTRUCTS:
        m.add(('out', 'objarr', 'IDir', 2), ('in', 'struct', s.name), ('in', 'objarr', None, 3), ('out', 'struct', s.name), ('in', 'struct', 'O24'))
    return prog_of(m.ms, STRUCTS + OSTRUCTS, 'arrst')


LONG = (255, 256, 257, 8191, 32768, 65535, 65536, 65537, 70001)


def p_long(java=False):
    """array parameters, meant for lengths around and beyond 16 bits"""
    m = M()
    for d in ('in', 'out'):
        m.add((d, 'buffer', None))
        for t in ('uint8', 'uint16', 'int32', 'uint64'):
            m.add((d, 'primarr', t))
        m.add((d, 'structarr', 'S3'))
        m.add((d, 'structarr', 'S12'))
    m.add(('out', 'primarr', 'uint32'), ('in', 'buffer', None), ('out', 'prim', 'uint8'), ('out', 'structarr', 'S3'))
    return prog_of(m.ms, STRUCTS, 'lengths')


def arrstructs(idlc, ctx):
    """constructors of p_arrstructs, none if the compiler does not take such
    methods (the documents leave it open, so a refusal is no defect)"""
    import os, shutil
    from . import common
    d = ctx.mkdir('arrprobe')
    try:
        for mod in (None, 'Rust'):
            f = os.path.join(d, 'a.idl')
            open(f, 'w').write('interface IDir { method n(); }; struct O16 { IDir h; };\n'
                               'interface IX { method a(in IDir[2] a, in O16 s); method b(out O16 s, out IDir[2] a); };\n')
            os.makedirs(os.path.join(d, 'r'), exist_ok=True)
            r = idlc([f, '-o', os.path.join(d, 'r') if mod else os.path.join(d, 'x.h'), '--rust' if mod else '--c'])
            if not common.accepted(r):
                return []
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return [lambda r, i: p_arrstructs(r)]


def p_chain(rng, depth=6):
    """deep inheritance; errors, constants, optional methods interleaved"""
    decls, prev = list(STRUCTS), None
    k = 0
    shapes = [[], [('in', 'prim', 'uint32')], [('in', 'buffer', None), ('out', 'prim', 'uint64')], [('out', 'obj', None)],
              [('in', 'obj', None), ('in', 'prim', 'uint8'), ('out', 'struct', 'S20')], [('out', 'buffer', None)],
              [('in', 'struct', 'S16'), ('in', 'struct', 'S3'), ('out', 'primarr', 'uint32')]]
    for i in range(depth):
        ms = []
        for _ in range([0, 3, 1, 0, 4, 2, 3][(i + 1) % 7]):
            m = M()
            m.add(*rng.choice(shapes), optional=rng.random() < .3)
            m.ms[0].name = 'ch%d' % k
            k += 1
            ms.append(m.ms[0])
            if rng.random() < .4:
                ms.append(Error('E%d' % k))
            if rng.random() < .4:
                ms.append(Const('uint32', 'C%d' % k, str(k)))
        it = Interface('IL%d' % i, prev, ms)
        prev = it.name
        decls.append(it)
    return Program([File('chain.idl', [], decls)])


def quick_set(rng):
    """constructors, cheap ones first"""
    part = rng.randrange(16)
    return [lambda r, i: p_singles(), lambda r, i: p_limits(), lambda r, i: p_bundles(r), lambda r, i: p_objstructs(r), lambda r, i: p_chain(r), lambda r, i: p_wide(r, rng.sample(WIDE, 4)), lambda r, i: p_far(r),
            lambda r, i: p_pairs(part, 16), lambda r, i: p_pairs((part + 7) % 16, 16)]


def full_set(rng):
    return quick_set(rng)[:7] + [lambda r, i: p_wide(r)] * 3 + [lambda r, i, k=k: p_pairs(k, 16) for k in range(16)] + \
        [lambda r, i: p_bundles(r)] * 6 + [lambda r, i: p_objstructs(r)] * 3 + [lambda r, i: p_chain(r, 9)] * 4
