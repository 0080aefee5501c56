"""C09: whatever violates a documented restriction is refused.

Valid programs get one violation at a random position; the text is classified
by the independent reference front end (fe.py), the compiler is run for every
backend and through the library entry point, and any acceptance, or any output
left behind, is reported."""
import copy, os, random, re, shutil
from . import acc, common, fe, gen, sweep, tok
from .idl import *


def _ifaces(p, f=lambda i: True):
    return [i for i in p.ifaces.values() if f(i)]


def _pick(rng, l):
    l = list(l)
    return rng.choice(l) if l else None


def _fresh(rng, p, pre='Zq'):
    return pre + str(rng.randrange(10 ** 6))


def _addfile(rng, p, d):
    f = rng.choice(p.files)
    f.decls.insert(rng.randrange(len(f.decls) + 1), d)


def _method(rng, p, need=None):
    """a random method of a random interface"""
    c = [(i, m) for i in p.ifaces.values() for m in i.methods if need is None or need(m)]
    return _pick(rng, c)


def _newmethod(rng, p, params):
    it = _pick(rng, p.ifaces.values())
    if it is None:
        return None
    m = Method(_fresh(rng, p, 'zm'), params, rng.random() < .2)
    it.members.insert(rng.randrange(len(it.members) + 1), m)
    return m


def _ins(rng, l, x):
    l.insert(rng.randrange(len(l) + 1), x)


def dup_top(rng, p):
    all_ = [d for f in p.files for d in f.decls]
    d = _pick(rng, all_)
    if not d:
        return
    k = rng.choice(['struct', 'interface', 'const', 'copy'])
    if k == 'copy':
        n = copy.deepcopy(d)
    elif k == 'struct':
        n = Struct(d.name, [('uint32', 1, 'a')])
    elif k == 'interface':
        n = Interface(d.name, None, [])
    else:
        n = Const('uint32', d.name, '1')
    _addfile(rng, p, n)
    return '%s/%s' % (d.kind, n.kind)


def dup_field(rng, p):
    s = _pick(rng, p.structs.values())
    if not s:
        return
    t, c, n = rng.choice(s.fields)
    if rng.random() < .5:
        s.fields.append((t, c, n))
    else:
        k = rng.randrange(len(s.fields))
        s.fields.insert(k, (t, 2 if rng.random() < .3 else c, n))
    return 'field'


def dup_param(rng, p):
    im = _method(rng, p, lambda m: m.params)
    if not im:
        return
    q = rng.choice(im[1].params)
    n = Param(rng.choice(['in', 'out']), *rng.choice([('prim', rng.choice(PRIM_NAMES)), ('buffer', None), ('primarr', 'uint16'), ('obj', None), (q.pk, q.ty)]), q.name, q.cnt)
    if n.pk == 'objarr' and n.cnt is None:
        n.cnt = 2
    _ins(rng, im[1].params, n)
    return '%s/%s' % (q.dir, n.dir)


def deep_chain(rng, p):
    """extends a chain of bases to a depth of up to 14, returns its interfaces root first"""
    n = rng.choice([2, 3, 4, 5, 6, 8, 11, 14])
    base = _pick(rng, p.ifaces) if rng.random() < .4 else None
    out = []
    for i in range(n):
        it = Interface('IZd%d%s' % (i, _fresh(rng, p, 'D')), base, [Method('zd%dm%d' % (i, j), [Param('in', 'prim', 'uint8', 'a')][:rng.randrange(2)]) for j in range(rng.choice([0, 1, 1, 2]))])
        base = it.name
        out.append(it)
    ds = list(out)
    if rng.random() < .5:
        rng.shuffle(ds)
    if rng.random() < .6:
        f = rng.choice(p.files)
        at = rng.randrange(len(f.decls) + 1)
        f.decls[at:at] = ds
    else:
        for x in ds:
            _addfile(rng, p, x)
    return out


def dup_deep(rng, p):
    """a member repeated at a chosen distance in a long chain, next to other interfaces"""
    c = deep_chain(rng, p)
    i, j = sorted(rng.sample(range(len(c)), 2))
    k = rng.choice(['method', 'error', 'const', 'errconst'])
    mk = {'method': lambda: Method('zdup', rng.choice([[], [Param('in', 'prim', 'uint32', 'q')]]), rng.random() < .3), 'error': lambda: Error('ZDUP'), 'const': lambda: Const(rng.choice(PRIM_NAMES[:8]), 'ZDUP', '1')}
    a, b = (k, k) if k != 'errconst' else rng.sample(['error', 'const'], 2)
    for x, q in ((c[i], a), (c[j], b)):
        _ins(rng, x.members, mk[q]())
    # the same names in an unrelated interface are fine
    if rng.random() < .4:
        _addfile(rng, p, Interface(_fresh(rng, p, 'IZu'), None, [mk[a]()]))
    return '%s/%s depth%d dist%d' % (a, b, len(c), j - i)


def cycle_deep(rng, p):
    """the root of a long chain derives from one of its descendants"""
    c = deep_chain(rng, p)
    root = p.ifaces.get(c[0].base) if c[0].base else None
    if root:
        p.chain(root.name)[0].base = rng.choice(c).name
    else:
        c[0].base = rng.choice(c).name
    return 'depth%d' % len(c)


def dup_method(rng, p):
    c = [(i, o, m) for i in p.ifaces for o in p.chain(i) for m in o.methods]
    x = _pick(rng, c)
    if not x:
        return
    i, o, m = x
    it = p.ifaces[i]
    _ins(rng, it.members, Method(m.name, rng.choice([[], list(m.params), [Param('in', 'prim', 'uint8', 'q')]]), rng.random() < .3))
    return 'dist%d' % [z.name for z in p.chain(i)][::-1].index(o.name)


def dup_const(rng, p):
    c = [(i, o, m) for i in p.ifaces for o in p.chain(i) for m in o.consts + o.errors]
    x = _pick(rng, c)
    if not x:
        it = _pick(rng, p.ifaces.values())
        if not it:
            return
        e = Error('ZE')
        _ins(rng, it.members, e)
        p.reindex()
        x = (it.name, it, e)
    i, o, m = x
    n = Error(m.name) if rng.random() < .5 else Const(rng.choice(PRIM_NAMES[:8]), m.name, '1')
    _ins(rng, p.ifaces[i].members, n)
    return '%s/%s dist%d' % (m.kind, n.kind, [z.name for z in p.chain(i)][::-1].index(o.name))


def undef_field(rng, p):
    s = _pick(rng, p.structs.values())
    if not s:
        return
    bad = rng.choice(['Nowhere', 'nowhere', 'uint128', 'int', 'Buffer', 'string'] + list(p.consts) + [x.name.upper() + 'x' for x in p.structs.values()])
    if rng.random() < .5:
        _ins(rng, s.fields, (bad, rng.choice([1, 1, 3]), 'zf'))
    else:
        k = rng.randrange(len(s.fields))
        s.fields[k] = (bad, s.fields[k][1], s.fields[k][2])
    return 'field'


def undef_param(rng, p):
    bad = rng.choice(['Nowhere', 'nowhere', 'uint128', 'Buffer', 'float16'] + list(p.consts) + [x.lower() + '_' for x in p.structs])
    q = Param(rng.choice(['in', 'out']), *rng.choice([('struct', bad, 'zp', None), ('structarr', bad, 'zp', None), ('objarr', bad, 'zp', 2)]))
    im = _method(rng, p)
    if im and rng.random() < .6:
        _ins(rng, im[1].params, q)
    elif not _newmethod(rng, p, [q]):
        return
    return q.dir + q.pk


def undef_base(rng, p):
    it = _pick(rng, p.ifaces.values())
    if not it:
        return
    it.base = rng.choice(['INowhere', 'interface', 'uint32'] + list(p.structs) + list(p.consts) + [it.name.swapcase()])
    return 'base'


def struct_cycle(rng, p):
    n = rng.choice([1, 1, 2, 2, 3, 4, 6])
    names = ['Zc%d%s' % (i, _fresh(rng, p, 'S')) for i in range(n)]
    ds = []
    for i, x in enumerate(names):
        fs = [('uint64', 1, 'a')] if rng.random() < .5 else []
        _ins(rng, fs, (names[(i + 1) % n], rng.choice([1, 1, 2, 5]), 'n'))
        if rng.random() < .4:
            _ins(rng, fs, ('uint64', 2, 'c'))
        ds.append(Struct(x, fs))
    # entered from an existing struct, a method, or nothing at all
    k = rng.random()
    if k < .35 and p.structs:
        s = _pick(rng, p.structs.values())
        _ins(rng, s.fields, (rng.choice(names), 1, 'zcyc'))
    elif k < .7:
        _newmethod(rng, p, [Param(rng.choice(['in', 'out']), 'struct', rng.choice(names), 'zp')])
    rng.shuffle(ds)
    for d in ds:
        _addfile(rng, p, d)
    return 'len%d' % n


def close_struct_cycle(rng, p):
    """close a cycle through existing nesting"""
    def reach(a):
        out, st = [], [a]
        while st:
            x = st.pop()
            for t, _, _ in p.structs[x].fields:
                if t in p.structs and t not in out:
                    out.append(t)
                    st.append(t)
        return out
    c = [(a, b) for a in p.structs for b in reach(a)]
    x = _pick(rng, c)
    if not x:
        return
    _ins(rng, p.structs[x[1]].fields, (x[0], 1, 'zback'))
    return 'existing'


def iface_cycle(rng, p):
    k = rng.random()
    if k < .4 and p.ifaces:
        i = _pick(rng, p.ifaces)
        p.chain(i)[0].base = rng.choice([i, i, p.chain(i)[0].name])
        return 'existing'
    n = rng.choice([1, 1, 2, 3, 5])
    names = ['IZc%d%s' % (i, _fresh(rng, p, 'I')) for i in range(n)]
    ds = [Interface(x, names[(i + 1) % n], [Method('m%d' % i, [])] if rng.random() < .5 else []) for i, x in enumerate(names)]
    if rng.random() < .4:
        ds.append(Interface(_fresh(rng, p, 'IZt'), rng.choice(names), []))
    rng.shuffle(ds)
    for d in ds:
        _addfile(rng, p, d)
    return 'len%d' % n


def include_cycle(rng, p):
    if len(p.files) == 1:
        f = p.files[0]
        _ins(rng, f.includes, rng.choice(['', './']) + f.path)
        return 'self'
    a = rng.randrange(len(p.files))
    reach, st = {a}, [a]
    while st:
        x = st.pop()
        for i in p.files[x].includes:
            for k, f in enumerate(p.files):
                if os.path.basename(i) == f.path and k not in reach:
                    reach.add(k)
                    st.append(k)
    b = rng.choice(sorted(reach))
    _ins(rng, p.files[b].includes, rng.choice(['', './']) + p.files[a].path)
    return 'self' if a == b else 'cycle'


def misalign(rng, p):
    s = _pick(rng, p.structs.values())
    if not s:
        return
    k = rng.random()
    if k < .5:
        _ins(rng, s.fields, (rng.choice(['uint8', 'uint16', 'int32', 'float32']), rng.choice([1, 1, 3]), 'zpad'))
    elif k < .75:
        i = rng.randrange(len(s.fields))
        t, c, n = s.fields[i]
        s.fields[i] = (t, c + rng.choice([1, 2, 3]), n)
    elif len(s.fields) > 1:
        s.fields.pop(rng.randrange(len(s.fields)))
    else:
        s.fields.append(('uint8', 1, 'zpad'))
    return 'existing'


def misalign_new(rng, p):
    big = rng.choice(['uint64', 'float64', 'int32', 'uint16', 'interface', 'uint64'] + list(p.structs)[:3] + list(p.ifaces)[:1])
    fs = rng.choice([
        [('uint8', 1, 'a'), (big, 1, 'b')], [(big, 1, 'a'), ('uint8', 1, 'b')], [(big, 2, 'a'), ('uint8', 3, 'b')],
        [('uint8', 3, 'a'), (big, 1, 'b'), ('uint8', 5, 'c')], [('uint32', 1, 'a'), (big, 1, 'b')], [(big, 1, 'a'), ('uint32', 1, 'b')]])
    n = _fresh(rng, p, 'Zmis')
    _addfile(rng, p, Struct(n, fs))
    if rng.random() < .4:
        _newmethod(rng, p, [Param(rng.choice(['in', 'out']), 'struct', n, 'zp')])
    return 'new'


def const_range(rng, p):
    from . import c17
    t = rng.choice(list(fe.INT_LIMITS))
    c = Const(t, _fresh(rng, p, 'ZK'), c17.out_of_range(rng, t))
    it = _pick(rng, p.ifaces.values())
    if it and rng.random() < .6:
        _ins(rng, it.members, c)
        return 'iface ' + t
    _addfile(rng, p, c)
    return 'file ' + t


def _obj(rng, p):
    return rng.choice([None] + list(p.ifaces))


def obj_unbounded(rng, p):
    t = _pick(rng, p.ifaces)
    if not t:
        return
    q = Param(rng.choice(['in', 'out']), 'structarr', t, 'zoa')
    im = _method(rng, p)
    if im and rng.random() < .5:
        _ins(rng, im[1].params, q)
    else:
        _newmethod(rng, p, [q])
    return q.dir


def obj_mix(rng, p):
    d = rng.choice(['in', 'out'])
    second = rng.choice(['obj', 'objarr'])
    ps = [Param(d, 'objarr', _obj(rng, p), 'za', rng.choice([1, 2, 3, 7])), Param(d, second, _obj(rng, p), 'zb', 2 if second == 'objarr' else None)]
    if rng.random() < .5:
        ps.reverse()
    for _ in range(rng.randrange(0, 3)):
        _ins(rng, ps, Param(rng.choice(['in', 'out']), 'prim', rng.choice(PRIM_NAMES), 'zx%d' % rng.randrange(10 ** 6)))
    c = [m for i in p.ifaces.values() for m in i.methods for q in m.params if q.pk == 'objarr']
    if c and rng.random() < .4:
        m = rng.choice(c)
        a = [q for q in m.params if q.pk == 'objarr'][0]
        _ins(rng, m.params, Param(a.dir, second, _obj(rng, p), 'zz', 2 if second == 'objarr' else None))
        return '%s %s existing' % (a.dir, second)
    if not _newmethod(rng, p, ps):
        return
    return '%s %s' % (d, second)


def obj_struct_array(rng, p):
    c = [s for s in p.structs if p.objects(s)]
    if not c or rng.random() < .4:
        n = _fresh(rng, p, 'Zos')
        t = _obj(rng, p) or 'interface'
        kind = rng.choice(['small', 'big', 'array', 'nested', 'nested2'])
        if kind.startswith('nested'):
            inner = _fresh(rng, p, 'Zoi')
            _addfile(rng, p, Struct(inner, [(t, 1, 'o')]))
            if kind == 'nested2':
                mid = _fresh(rng, p, 'Zom')
                _addfile(rng, p, Struct(mid, [('uint64', 1, 'k'), (inner, 1, 'o')]))
                inner = mid
            fs = [(inner, 1, 'i')]
        else:
            fs = {'small': [(t, 1, 'o')], 'big': [('uint64', 2, 'a'), (t, 1, 'o')], 'array': [(t, 3, 'o')]}[kind]
        _addfile(rng, p, Struct(n, fs))
        c = [n]
    else:
        kind = 'existing'
    q = Param(rng.choice(['in', 'out']), 'structarr', rng.choice(c), 'zsa')
    im = _method(rng, p)
    if im and rng.random() < .5:
        _ins(rng, im[1].params, q)
    elif not _newmethod(rng, p, [q]):
        return
    return q.dir + ' ' + kind


def bounded_data(rng, p):
    t = rng.choice(PRIM_NAMES + list(p.structs) * 2 + ['buffer'])
    q = Param(rng.choice(['in', 'out']), 'objarr', t, 'zba', rng.choice([1, 2, 3, 15, 16, 100]))
    im = _method(rng, p)
    if im and rng.random() < .5:
        _ins(rng, im[1].params, q)
    elif not _newmethod(rng, p, [q]):
        return
    return q.dir + (t if t in PRIMS or t == 'buffer' else 'struct')


def attr(rng, p):
    it = _pick(rng, p.ifaces.values())
    if not it:
        return
    n = rng.choice([2, 2, 3, 5])
    t = ''.join('#[optional]' + rng.choice([' ', '\n', '\n  ', '\t']) for _ in range(n))
    r = Raw(t + Method(_fresh(rng, p, 'zm'), [Param('in', 'prim', 'uint8', 'a')] if rng.random() < .5 else []).text())
    _ins(rng, it.members, r)
    return 'x%d' % n


def too_many(rng, p):
    d = rng.choice(['in', 'out'])
    k = rng.choice(['buf', 'obj', 'objarr', 'mixed'])
    if k == 'buf':
        ps = [Param(d, 'buffer', None, 'b%d' % i) for i in range(rng.choice([16, 17, 32]))]
    elif k == 'obj':
        ps = [Param(d, 'obj', _obj(rng, p), 'o%d' % i) for i in range(rng.choice([16, 17, 256, 272]))]
    elif k == 'objarr':
        ps = [Param(d, 'objarr', _obj(rng, p), 'o', rng.choice([16, 17, 255, 256, 257, 272, 65535]))]
    else:
        ps = [Param(d, 'primarr', rng.choice(PRIM_NAMES), 'b%d' % i) for i in range(15)] + [Param(d, 'prim', 'uint8', 'x')]
    if not _newmethod(rng, p, ps):
        return
    return '%s %s' % (d, k)


MUT = [dup_deep, dup_deep, cycle_deep, dup_top, dup_field, dup_param, dup_method, dup_const, undef_field, undef_param, undef_base, struct_cycle, close_struct_cycle,
       iface_cycle, include_cycle, misalign, misalign_new, const_range, obj_unbounded, obj_mix, obj_struct_array, bounded_data, attr, too_many]

TOK_RE = re.compile(r'/\*.*?\*/|//[^\n]*|[A-Za-z_][A-Za-z0-9_]*|-?0x[0-9a-fA-F]+|-?\d+(?:\.\d+)?|\};|\);|\s+|.', re.S)
POOL = ['{', '}', '};', '(', ')', ');', ';', ',', ':', '=', '[', ']', '[]', '[3]', '#[optional]', '#[optional] ', '#[mandatory] ', 'in', 'out', 'inout', 'struct ', 'interface ', 'const ',
        'error ', 'method ', 'buffer', 'uint8', 'int64', 'float32', 'uint24', 'bool', 'include "x.idl"\n', '0', '-1', '0x', '1.', '.5', '1e5', '"', "'", '/*', '*/', '//', '/** */', '\\', '@',
        '_x', '9a', 'a-b', 'é', '\x00', '\x0b', '\x0c', '\xa0', '\ufeff', ' ', '\n', '<', '>', '::', '->', '&', '*', '+', '1_000', '0b1', '0o7', '0X1F', '+1', 'void', 'string', '...', '//\r']


def token_mutate(rng, text):
    t = TOK_RE.findall(text)
    k = rng.random()
    n = rng.choice([1, 1, 1, 1, 2, 3])
    for _ in range(n):
        if not t:
            break
        i = rng.randrange(len(t))
        if k < .3:
            del t[i]
        elif k < .45:
            t.insert(i, t[rng.randrange(len(t))])
        elif k < .6:
            j = rng.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        elif k < .8:
            t.insert(i, rng.choice(POOL))
        else:
            t[i] = rng.choice(POOL)
    s = ''.join(t)
    if rng.random() < .15 and s:
        i = rng.randrange(len(s))
        s = s[:i] + s[i + 1:] if rng.random() < .6 else s[:i] + rng.choice(POOL) + s[i:]
    if rng.random() < .04 and s:
        s = s[:rng.randrange(len(s))]
    return s


def base_program(rng, small=False):
    if not small and rng.random() < .15:
        # many of everything: the violation is far from what it conflicts with
        return gen.gen_program(rng, {'n_files': rng.choice([1, 3, 9]), 'n_ifaces': rng.choice([6, 12]), 'max_depth': 12, 'n_structs': rng.choice([3, 14]), 'n_methods': (0, 3),
                                     'n_params': [0, 2, 18, 30, 45], 'struct_sizes': [24, 100, 240, 400], 'fwd': rng.random() < .5, 'scatter': rng.random() < .4, 'p_obj_struct': rng.choice([0, .4])})
    return gen.gen_program(rng, {'n_files': rng.choice([1, 1, 2, 3, 4]), 'n_ifaces': rng.randrange(1, 4 if small else 6), 'n_structs': rng.randrange(1, 4 if small else 8),
                                 'n_methods': (0, 3 if small else 5), 'fwd': rng.random() < .5, 'scatter': rng.random() < .4, 'docs': rng.random() < .3,
                                 'p_obj_struct': rng.choice([0, .4]), 'float_consts': True})


def make_case(rng, d):
    """write one violating file set into d; returns (rule, detail) or None"""
    p = base_program(rng)
    p.reindex()
    if rng.random() < .38:
        # textual: mutate one file until the grammar (or a restriction) is violated
        style = rng.random()
        txt = {f.path: (f.text() if style < .6 else tok.render(f, rng, .15)) for f in p.files}
        f = rng.choice(p.files).path
        txt[f] = token_mutate(rng, txt[f])
        rule, det = 'text', ''
    else:
        m = rng.choice(MUT)
        det = m(rng, p)
        if det is None:
            return None
        style = rng.random()
        txt = {f.path: (f.text() if style < .7 else tok.render(f, rng, .1)) for f in p.files}
        rule = m.__name__
    if rng.random() < .15:
        txt = {k: v.replace('\n', '\r\n') for k, v in txt.items()}
    for k, v in txt.items():
        with open(os.path.join(d, k), 'w', newline='') as fh:
            fh.write(v)
    return rule, det, os.path.join(d, p.files[0].path), txt


def judge_sweep(r, got, v, why, cfg):
    if r.returncode == 0:
        return 'accepted', 'accepted although it violates: ' + why
    if got:
        return 'output', 'refused (%s) with output left behind: %s' % (why, sorted(got))


def check(ctx):
    idlc = common.Idlc(common.build_idlc())
    rel = common.Idlc(common.build_idlc(kind='rel'))
    lib = common.build_lib()
    sweep.run(ctx, 'reject', {'dbg': idlc, 'rel': rel}, judge_sweep)
    ctx.rule = ('a case is one file set with one violation; distinct by (rule, detail, position class, backend); each is classified by the reference front end '
                '(grammar recogniser + documented restrictions), run for the C, C++, Rust and Java backends, stub and skeleton, with random flags, and through idlc::Language::generate')
    ctx.assumptions += ['the reference front end in vf/fe.py; inputs the documents leave open (array size 0, reserved words, object array next to objects inside structs) are not judged',
                        'a rejection is any non-zero exit status; how the compiler reports it is C16']
    total = 40000 if ctx.thorough else 2600
    seeds = [ctx.rng.getrandbits(48) for _ in range(total)]
    chunk = 60

    def work(c):
        if ctx.left() < 25:
            return None
        out, libitems, libidx = [], [], []
        root = ctx.mkdir('k%d' % c)
        for i in range(c * chunk, min((c + 1) * chunk, total)):
            rng = random.Random(seeds[i])
            d = os.path.join(root, str(i))
            os.makedirs(d)
            mc = make_case(rng, d)
            if mc is None:
                continue
            rule, det, main, txt = mc
            v, why, info = fe.verdict(main)
            vu = fe.verdict(main, ub=True)[0]
            if v != 'reject':
                out.append((rule, det, v, why, None, txt, None))
                shutil.rmtree(d)
                continue
            res = []
            cfgs = [x[0] for x in acc.CFGS]
            if rule == 'text' and not ctx.thorough:
                cfgs = rng.sample(cfgs, 2)
            for cfg in cfgs:
                fl = acc.flags(rng, d)
                if '--allow-undefined-behavior' in fl and vu != 'reject':
                    fl.remove('--allow-undefined-behavior')
                r, got = acc.compile_one(idlc, main, cfg, os.path.join(d, 'out-' + cfg), extra=fl, incs=[d] if rng.random() < .2 else [])
                res.append((cfg, fl, r.returncode, bool(got), common.diag(r)))
            # the optimised build is what users run; it has no overflow checks or debug assertions
            cfg = rng.choice(acc.CFGS)[0]
            r, got = acc.compile_one(rel, main, cfg, os.path.join(d, 'out-rel'))
            res.append((cfg + '/release', [], r.returncode, bool(got), common.diag(r)))
            out.append((rule, det, v, why, res, txt, len(libitems)))
            libitems.append((os.path.join(d, 'lib'), [d], main))
        lr = common.lib_run(lib, libitems, root) if libitems else []
        shutil.rmtree(root, ignore_errors=True)
        return out, lr
    for w in common.procmap(work, range((total + chunk - 1) // chunk)):
        if w is None:
            ctx.count('chunks_skipped_for_time')
            continue
        out, lr = w
        for rule, det, v, why, res, txt, li in out:
            if v != 'reject':
                ctx.count('mutants_' + v)
                if v == 'accept' and rule not in ('text', 'misalign', 'misalign_new', 'obj_mix', 'bounded_data', 'undef_base'):
                    ctx.count('mutants_not_violating_' + rule)
                continue
            cls = re.sub(r'[ :].*', '', why) if why.startswith('grammar') else re.sub(r' (\S*)$', '', why) if False else why
            cls = why.split(':')[0].split(' in ')[0]
            cls = ' '.join(w for w in cls.split() if not re.search(r'\d', w))[:40] if not why.startswith('more than') else why
            kind = 'grammar' if why.startswith('grammar') else rule
            ctx.count('rejected_class_' + kind)
            files = {'idl/' + k: t for k, t in txt.items()}
            for cfg, fl, rc, got, dg in res:
                ctx.case((rule, det, kind, cfg, tuple(x for x in fl if x.startswith('--')), why if kind == 'grammar' else ''))
                ctx.count('compiler_runs')
                if rc == 0:
                    ctx.violation('accepted:%s:%s' % (rule, cfg), 'violates: %s (%s %s)\naccepted by %s %s' % (why, rule, det, cfg, ' '.join(fl)), files)
                elif got:
                    ctx.violation('output:%s:%s' % (rule, cfg), 'violates: %s\nrejected by %s with output left behind' % (why, cfg), files)
            if li is not None:
                s = lr[li]
                ctx.case((rule, det, kind, 'library'))
                ctx.count('library_runs')
                if s and s.startswith('ok'):
                    ctx.violation('accepted:%s:library' % rule, 'violates: %s (%s %s)\naccepted by idlc::Language::Rust.generate' % (why, rule, det), files)
            if ctx.evaluations % 211 < 7:
                ctx.sample('%s [%s] %s: rejected in %d configurations' % (rule, det, why, len(res) + 1))
    if ctx.counters.get('compiler_runs', 0) < 500:
        ctx.inconclusive.append('too few runs')
