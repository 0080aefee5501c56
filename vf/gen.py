"""Seeded generators of valid IDL programs (validity by the reference rules)."""
from .idl import *

WORDS = ('alpha beta gamma delta eps zeta eta theta iota kappa lam mu nu xi omi rho sigma tau ups phi chi psi omega '
         'key val data size len count idx pos cur nxt prv head tail src dst tmp acc sum avg flag mode kind tag name '
         'code node leaf root left right up down lo hi first last buf blob req rsp cmd arg_x p1 q2 b3 x y z w v '
         'value handle token nonce hash iv salt mac sig cert chain ver rev minor major patch').split()
RESERVED = set('val'.split())


class Namer:
    def __init__(self, rng):
        self.rng = rng
        self.used = set()

    def fresh(self, prefix='', words=WORDS, cap=False):
        while True:
            w = self.rng.choice(words)
            r = self.rng.random()
            if r < .35:
                w = w + '_' + self.rng.choice(words)
            if r < .6:
                w += str(self.rng.randrange(100))
            if cap:
                w = ''.join(x.capitalize() for x in w.split('_'))
            n = prefix + w
            if n.lower() not in self.used:
                self.used.add(n.lower())
                return n


INT_LIMITS = {t: ((0, 2 ** (8 * s) - 1) if t[0] == 'u' else (-2 ** (8 * s - 1), 2 ** (8 * s - 1) - 1))
              for t, s in PRIMS.items() if not t.startswith('f')}


def int_literal(rng, ty):
    lo, hi = INT_LIMITS[ty]
    v = rng.choice([lo, hi, 0, 1, hi // 2, rng.randint(lo, hi), rng.randint(max(lo, -100), min(hi, 100))])
    if rng.random() < .4:
        h = '%x' % abs(v)
        if rng.random() < .5:
            h = h.upper()
        return ('-' if v < 0 else '') + '0x' + h
    return str(v)


def float_literal(rng):
    a = rng.choice([0, 1, 3, 10, 100, 65504, rng.randrange(10 ** 6)])
    f = rng.choice(['0', '5', '25', '125', '1', '333', '000001'])
    return rng.choice(['', '', '-']) + '%d.%s' % (a, f)


def literal(rng, ty):
    return float_literal(rng) if ty.startswith('f') else int_literal(rng, ty)


def gen_struct(rng, prog, nm, name, opts):
    """random aligned packed struct; uses existing structs of prog"""
    fn = Namer(rng)
    target = rng.choice(opts.get('struct_sizes', [1, 2, 3, 4, 6, 8, 12, 12, 15, 16, 16, 17, 18, 20, 24, 24, 32, 40, 64]))
    fields, off, al = [], 0, 1
    objs = opts.get('struct_objects', True) and rng.random() < opts.get('p_obj_struct', .25)
    tries = 0
    nobj = 0
    while off < target and tries < 60:
        tries += 1
        r = rng.random()
        c = 1
        if r < .22 and prog.structs and opts.get('nested', True):
            t = rng.choice(list(prog.structs))
            no = len(prog.objects(t))
            if no and not objs:
                continue
            c = rng.choice([1, 1, 1, 2, 3])
            if no and (not opts.get('struct_obj_arrays', True)):
                c = 1
            if nobj + no * c > opts.get('max_struct_objs', 4):
                continue
        elif objs and r < .5:
            t = rng.choice(['interface'] + opts['ifaces'])
            c = rng.choice([1, 1, 1, 2]) if opts.get('struct_obj_arrays', True) else 1
            if nobj + c > opts.get('max_struct_objs', 4):
                continue
        else:
            t = rng.choice(PRIM_NAMES)
            c = rng.choice([1, 1, 1, 2, 3, 4, 5, 8])
        a, s = prog.talign(t), prog.tsize(t)
        if off % a or off + s * c > max(target, 16) + 64:
            continue
        if t in prog.structs:
            nobj += len(prog.objects(t)) * c
        elif t not in PRIMS:
            nobj += c
        fields.append((t, c, fn.fresh()))
        off += s * c
        al = max(al, a)
    while off % al or not fields:
        t, s = rng.choice([(t, s) for t, s in PRIMS.items() if s <= al and off % s == 0])
        fields.append((t, 1, fn.fresh()))
        off += s
    return Struct(name, fields)


def gen_params(rng, prog, opts, n=None, allow=None, avoid=()):
    """random parameter list within the envelope limits"""
    fn = Namer(rng)
    fn.used |= {a.lower() for a in avoid}
    if n is None and 'n_params' in opts:
        n = rng.choice(opts['n_params'])
    if n is None:
        n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10]) if rng.random() < .97 else rng.choice([18, 25, 40])
    structs = list(prog.structs)
    plain = [s for s in structs if not prog.objects(s)]
    kinds = [('prim', 6), ('buffer', 2), ('primarr', 2), ('obj', 3), ('objarr', 1)]
    if structs:
        kinds.append(('struct', 5))
    if plain:
        kinds.append(('structarr', 2))
    kinds = [(k, w) for k, w in kinds if k not in opts.get('no_kinds', ())]
    if allow:
        kinds = [(k, w) for k, w in kinds if k in allow]
    ps, oa, ov = [], {'in': 0, 'out': 0}, {'in': 0, 'out': 0}
    for _ in range(n):
        d = rng.choice(['in', 'out'])
        k = rng.choices([k for k, _ in kinds], [w for _, w in kinds])[0]
        cnt = None
        if k == 'prim' or k == 'primarr':
            t = rng.choice(PRIM_NAMES)
        elif k == 'buffer':
            t = None
        elif k == 'struct':
            t = rng.choice(structs)
            if prog.objects(t):
                if oa[d]:
                    continue
                ov[d] = 1
        elif k == 'structarr':
            t = rng.choice(plain)
        else:
            t = rng.choice([None] + opts['ifaces'] * 2) if opts['ifaces'] else None
            if opts.get('typed_objarr_only') and k == 'objarr' and t is None:
                continue
            if k == 'objarr':
                if oa[d] or ov[d]:
                    continue
                cnt = rng.choice([1, 2, 2, 3, 4, 7, 15] if rng.random() < .3 else [2, 3])
                oa[d] = 1
            else:
                if oa[d]:
                    continue
                ov[d] = 1
        p = Param(d, k, t, fn.fresh(), cnt)
        if max(prog.counts(Method('x', ps + [p]))) <= 15:
            ps.append(p)
    return ps


def gen_program(rng, opts=None):
    """opts: n_structs, n_ifaces, n_methods(range), max_depth, n_files, struct_objects,
    fwd (use-before-declare order), consts, errors, optional, docs"""
    o = {'n_structs': rng.randrange(3, 9), 'n_ifaces': rng.randrange(1, 5), 'n_methods': (1, 8),
         'max_depth': 4, 'n_files': 1, 'struct_objects': True, 'fwd': False, 'consts': True,
         'errors': True, 'optional': True, 'docs': False}
    o.update(opts or {})
    nm = Namer(rng)
    stem = nm.fresh('m')
    inames = [nm.fresh('I', cap=True) for _ in range(o['n_ifaces'])]
    o['ifaces'] = inames
    nf = o['n_files']
    files = [File('%s.idl' % stem, [], [])]
    for i in range(nf - 1):
        files.append(File('%s.idl' % nm.fresh('inc'), [], []))
    prog = Program(files)
    # files: later files are lower in the include order (files[0] includes others)
    for i in range(nf - 1):
        for j in range(i + 1, nf):
            if j == i + 1 or rng.random() < .4:
                files[i].includes.append(files[j].path)
    order = []
    ncon = rng.randrange(0, 4) if o['consts'] else 0
    # dependency order: earlier declarations go to files lower in the include order
    total = o['n_structs'] + ncon + o['n_ifaces']
    idx = sorted((rng.randrange(nf) for _ in range(total)), reverse=True)
    ifile = dict(zip(inames, idx[o['n_structs'] + ncon:]))

    def visible(k):
        return inames if o.get('scatter') else [x for x in inames if ifile[x] >= k]
    for i in range(o['n_structs']):
        o['ifaces'] = visible(idx[i])
        s = gen_struct(rng, prog, nm, nm.fresh('S', cap=True), o)
        prog.structs[s.name] = s
        order.append(s)
    for i in range(ncon):
        t = rng.choice(PRIM_NAMES if o.get('float_consts') else list(INT_LIMITS))
        order.append(Const(t, nm.fresh('K', cap=True).upper(), literal(rng, t)))
    depth = {}
    for i, n in enumerate(inames):
        base = None
        c = [x for x in inames[:i] if depth[x] < o['max_depth']]
        if c and rng.random() < .6:
            base = rng.choice(c) if rng.random() < .5 else c[-1]
        depth[n] = depth[base] + 1 if base else 0
        prog.ifaces[n] = Interface(n, base, [])
        order.append(prog.ifaces[n])
    memnames = {}
    for n in inames:
        it = prog.ifaces[n]
        mn = memnames.setdefault(n, Namer(rng))
        if it.base:
            mn.used |= memnames[it.base].used
        lo, hi = o['n_methods']
        o['ifaces'] = visible(ifile[n])
        for _ in range(rng.randrange(lo, hi + 1)):
            nmx = mn.fresh()
            opt = o['optional'] and rng.random() < .12
            doc = None
            if o['docs'] and rng.random() < .4:
                doc = rng.choice(['  * does %s\n  ', '  some words %s\n   more\n  ', ' @param x %s\n']) % nmx
            it.members.append(Method(nmx, gen_params(rng, prog, o, avoid=[nmx]), opt, doc))
        if o['errors']:
            for _ in range(rng.randrange(0, 4)):
                it.members.insert(rng.randrange(len(it.members) + 1), Error(mn.fresh('E').upper()))
        if o['consts']:
            for _ in range(rng.randrange(0, 3)):
                t = rng.choice(PRIM_NAMES if o.get('float_consts') else list(INT_LIMITS))
                it.members.insert(rng.randrange(len(it.members) + 1), Const(t, mn.fresh('C').upper(), literal(rng, t)))
    # fwd: any order within a file; scatter: any file of the include set
    for d, k in zip(order, idx):
        files[rng.randrange(nf) if o.get('scatter') else k].decls.append(d)
    if o['fwd'] or o.get('scatter'):
        for f in files:
            rng.shuffle(f.decls)
    prog.reindex()
    return prog
