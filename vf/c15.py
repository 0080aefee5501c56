"""C15: appending to an interface or a file disturbs no existing method.

Histories of append-only revisions are generated; between any two of them
(1) the generated code that belongs to each pre-existing method, error,
constant or struct is extracted from every backend's output and compared token
by token, and (2) stubs compiled from one revision drive skeletons compiled
from the other through the recording transport, in all C-family backend pairs;
each observed call is judged by the reference semantics of the old revision.
Calls of methods the old skeleton does not know must fail without any
implementation being entered."""
import copy, os, random, re, shutil
from . import c14, c18, common, core, gen, glue, jv, rt
from .idl import *


# ------------------------------------------------------------------ histories
def visible_program(p, f):
    from .c11 import reach
    fs = reach(p, f)
    return Program([File('x.idl', [], [d for g in fs for d in g.decls])])


class Fresh:
    def __init__(self, p):
        self.n = 0

    def __call__(self, pre):
        self.n += 1
        return '%s_new%d' % (pre, self.n)


def descendants(p, n):
    return [x for x in p.ifaces if x != n and n in [a.name for a in p.chain(x)]]


def revise(rng, p, fresh, opts, leaves=None):
    """an append-only revision of p (a new program) and what was done"""
    p = copy.deepcopy(p)
    p.reindex()
    done = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        f = rng.choice(p.files)
        vp = visible_program(p, f)
        o = dict({'ifaces': list(vp.ifaces), 'struct_objects': True, 'p_obj_struct': .3}, **opts)
        k = rng.choice(['method', 'method', 'method', 'error', 'const', 'fconst', 'struct', 'iface'])
        if k in ('method', 'error', 'const'):
            c = [d for d in f.decls if d.kind == 'interface']
            if not c:
                continue
            it = rng.choice(c)
            if k == 'method':
                n = fresh(rng.choice(['a', 'z', 'mm']))
                it.members.append(Method(n, gen.gen_params(rng, vp, o, avoid=[n]), rng.random() < .15))
            elif k == 'error':
                n = fresh(rng.choice(['E', 'A', 'Z'])).upper()
                it.members.append(Error(n))
            else:
                n = fresh('C').upper()
                t = rng.choice(list(gen.INT_LIMITS))
                it.members.append(Const(t, n, gen.literal(rng, t)))
            done.append((k, it.name, n))
        else:
            at = rng.randrange(len(f.decls) + 1)
            if k == 'fconst':
                n = fresh(rng.choice(['K', 'A'])).upper()
                t = rng.choice(list(gen.INT_LIMITS))
                f.decls.insert(at, Const(t, n, gen.literal(rng, t)))
            elif k == 'struct':
                n = fresh(rng.choice(['S', 'A', 'Z']))
                nm = gen.Namer(rng)
                f.decls.insert(at, gen.gen_struct(rng, vp, nm, n, o))
            else:
                n = fresh(rng.choice(['I', 'A', 'Z']))
                ms = []
                for _ in range(rng.randrange(0, 4)):
                    x = fresh('q')
                    ms.append(Method(x, gen.gen_params(rng, vp, o, avoid=[x])))
                if rng.random() < .4:
                    ms.insert(0, Error(fresh('E').upper()))
                f.decls.insert(at, Interface(n, rng.choice([None] + list(vp.ifaces)), ms))
            done.append((k, f.path, n))
        p.reindex()
    return p, done


def base_program(rng, java=False):
    p = gen.gen_program(rng, {'n_files': rng.choice([1, 1, 2, 3]), 'n_ifaces': rng.choice([1, 2, 4]), 'n_structs': rng.choice([0, 2, 4]), 'n_methods': rng.choice([(0, 2), (1, 4), (2, 6)]), 'max_depth': rng.choice([1, 3, 5]),
                              'p_obj_struct': .3, 'fwd': rng.random() < .5, 'docs': rng.random() < .3})
    # code of a member is found by its name: make it occur nowhere else
    n = 0
    for it in p.ifaces.values():
        for m in it.members:
            n += 1
            m.name += '_Q%d' % n if m.name.isupper() else '_q%d' % n
    for f in p.files:
        for d in f.decls:
            if d.kind == 'const':
                n += 1
                d.name += '_Q%d' % n
    p.reindex()
    if java:
        c18.strip(p)
    return p


def changed(a, b):
    """interfaces of a with members appended in b"""
    return {n for n in a.ifaces if len(b.ifaces[n].members) != len(a.ifaces[n].members)}


def protected(a, b, owner):
    """members declared by `owner` keep their numbers: no proper ancestor grew"""
    ch = changed(a, b)
    return not any(x.name in ch for x in a.chain(owner) if x.name != owner)


# ------------------------------------------------------------------ fragments
OPEN, CLOSE = {'{': '}', '(': ')', '[': ']'}, {'}', ')', ']'}


def statements(toks):
    """nested statements: [(tokens, [sub statements])]"""
    def go(i, end):
        out, cur, subs = [], [], []
        while i < len(toks):
            t = toks[i]
            if t == end:
                if cur:
                    out.append((cur, subs))
                return out, i
            if t == '{':
                inner, j = go(i + 1, '}')
                cur = cur + toks[i:j + 1]
                subs = subs + inner
                i = j + 1
                nxt = toks[i] if i < len(toks) else ''
                if nxt not in (';', ',', ')', '.', '?', '=') and not (re.match(r'[A-Za-z_]', nxt) and cur[0] == 'typedef'):
                    out.append((cur, subs))
                    cur, subs = [], []
                continue
            if t in ('(', '['):
                depth, j = 0, i
                while j < len(toks):
                    if toks[j] in '([{':
                        depth += 1
                    elif toks[j] in ')]}':
                        depth -= 1
                        if not depth:
                            break
                    j += 1
                cur = cur + toks[i:j + 1]
                i = j + 1
                continue
            i += 1
            if t in (';', '<eol>') or t == ',' and end == '}':
                if cur:
                    out.append((cur, subs))
                cur, subs = [], []
                continue
            cur = cur + [t]
        if cur:
            out.append((cur, subs))
        return out, i
    return go(0, None)[0]


def head_of(toks):
    """tokens of a statement before its first block"""
    return toks[:toks.index('{')] if '{' in toks else toks


def fragments(text, lang):
    """[(path of enclosing heads, tokens)] of every statement, outermost first,
    as a flat list with the index range of its children"""
    # the pragma macros enclose all prototypes and expand to no statement
    toks = [t for t in c14.code(c14.lex(text, lang, False)) if not t.startswith('__compiler_pragma')]
    if lang == 'c':
        # the body of a macro is code: take it out of its directive
        out, i = [], 0
        while i < len(toks):
            if toks[i] == '#' and toks[i + 1:i + 2] == ['define']:
                j = toks.index('<eol>', i)
                body = toks[i:j]
                if '{' in body:
                    k = body.index('{')
                    out += ['#define-block'] + body[2:k] + ['{'] + body[k + 1:] + ['<eol>']
                else:
                    out += body + ['<eol>']
                i = j + 1
            else:
                out.append(toks[i])
                i += 1
        toks = out
    res = []

    def walk(sts, path):
        for t, subs in sts:
            res.append((path, t))
            if subs:
                walk(subs, path + (tuple(head_of(t)),))
    walk(statements(toks), ())
    return res


def keys(toks):
    """all names a statement head may be said to be about"""
    out = set()
    for t in toks:
        t = t.rsplit('.', 1)[-1]
        while t:
            out.add(t)
            t = t.partition('_')[2]
    return out


class Index:
    """statements of one output file by the names in their heads"""

    def __init__(self, text, lang):
        self.by, self.structs = {}, {}
        pk = {}
        for path, t in fragments(text, lang):
            while t[:2] in (['public', ':'], ['private', ':'], ['protected', ':']):
                t = t[2:]
            fr = (path, tuple(t))
            h = keys(head_of(t))
            if path not in pk:
                pk[path] = set().union(*[keys(x) for x in path]) if path else set()
            for k in h - pk[path]:
                self.by.setdefault(k, []).append(fr)
            if '{' in t and (not path or lang == 'java'):
                for k in set(t[-1:] + head_of(t)[-1:]):
                    self.structs.setdefault(k, []).append(fr)

    def member(self, name):
        return self.by.get(name, []) + (self.by.get(name.upper(), []) if name.upper() != name else [])


def without(x, y):
    """multiset difference"""
    y, out = list(y), []
    for z in x:
        if z in y:
            y.remove(z)
        else:
            out.append(z)
    return out


def text_compare(a, b, la, lb, new_names):
    """yields messages about fragments of old members that are not in the new output"""
    stats = 0
    none = Index('', 'c')
    for fn in la:
        if fn not in lb:
            yield 'file', 'output file %s is gone' % fn, None
    about = [(owner, m) for owner in a.ifaces if protected(a, b, owner) for m in a.ifaces[owner].members] + [('file', c) for c in a.consts.values()]
    for fn in la:
        new = lb.get(fn, none)
        for owner, m in about:
            x = la[fn].member(m.name)
            if not x:
                continue
            y = new.member(m.name)
            stats += len(x)
            miss = without(x, y)
            extra = [z for z in without(y, x) if not any(w in t for w in new_names for h in z[0] + (z[1],) for t in h)]
            if miss or extra:
                near = [z for z in y if z[0] == miss[0][0]] if miss else []
                yield 'member', '%s %s.%s: code changes in %s: %s against %s' % (
                    m.kind, owner, m.name, fn, ' '.join(miss[0][1])[:400] if miss else '(nothing)', ' '.join((near or extra)[0][1])[:400] if near or extra else '(nothing)'), None
        for s in a.structs:
            x, y = la[fn].structs.get(s, []), new.structs.get(s, [])
            stats += len(x)
            if without(x, y):
                yield 'struct', 'struct %s changes in %s: %s against %s' % (s, fn, ' '.join(x[0][1])[:300], ' '.join(y[0][1])[:300] if y else '(nothing)'), None
    yield None, None, stats


def text_case(ctx, idlc, rng, i):
    java = i % 4 == 3
    revs, done = [base_program(rng, java)], []
    fresh = Fresh(revs[0])
    opts = {'p_obj_struct': 0, 'struct_objects': False} if java else {}
    for _ in range(rng.choice([1, 2, 3])):
        q, d = revise(rng, revs[-1], fresh, opts)
        if java:
            c18.strip(q)
        revs.append(q)
        done.append(d)
    modes = ['java'] if java else [m for m in c14.MODES if m != 'java']
    d = ctx.mkdir('x%d' % i)
    v, runs, frags = [], 0, 0
    cache = {}

    def index(k, f, m):
        if (k, f, m) not in cache:
            cache[k, f, m] = {n: Index(t, c14.LANG(m)) for n, t in outs[k][f][m][1].items()}
        return cache[k, f, m]
    try:
        outs = []
        for k, p in enumerate(revs):
            p.write(os.path.join(d, 'r%d' % k))
            outs.append({f.path: c14.outputs(idlc, os.path.join(d, 'r%d' % k, f.path), d, modes) for f in p.files})
        for x in range(len(revs)):
            for y in range(x + 1, len(revs)):
                if y != x + 1 and (x, y) != (0, len(revs) - 1):
                    continue
                a, b = revs[x], revs[y]
                new = [n for n in list(b.structs) + list(b.ifaces) if n not in a.structs and n not in a.ifaces]
                for f in outs[x]:
                    for m in modes:
                        oa, ob = outs[x][f][m], outs[y][f][m]
                        files = {**{'old/' + g.path: g.text() for g in a.files}, **{'new/' + g.path: g.text() for g in b.files}}
                        runs += 1
                        if not oa[0] or not ob[0]:
                            v.append(('text:%s:refused' % m, 'revision %s is refused: %s' % (y if oa[0] else x, common.diag((ob if oa[0] else oa)[2])), files))
                            continue
                        for kind, msg, st in text_compare(a, b, index(x, f, m), index(y, f, m), new):
                            if kind:
                                v.append(('text:%s:%s' % (m, kind), '%s, revision %d to %d (%s): %s' % (m, x, y, done[x:y], msg), files))
                            else:
                                frags += st
        return revs, done, runs, frags, v
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ interoperation
def compile_rev(idlc, prog, d, tag, backends):
    """objects of one revision: {be: (stub object, skeleton object)}; Rust gives one rlib"""
    os.makedirs(d)
    ifaces = list(prog.ifaces)
    mods = rt.generate(idlc, prog, d, backends)
    objs = {}
    W = lambda n, t: open(os.path.join(d, n), 'w').write(t)
    for be in backends:
        if be == 'rust':
            t = glue.rust_glue(prog, ifaces, mods, rt.OBJ_RS)
            for s in ('clients', 'makers'):
                t = t.replace('pub static rt_%s_rust' % s, 'pub static rt_%s_rust_%s' % (s, tag))
            W('lib.rs', t)
            lib = os.path.join(d, 'librt_%s.rlib' % tag)
            cmds = [['rustc', '--edition', '2021', '--crate-type', 'rlib', '--cfg', 'feature="std"', '-Cdebug-assertions=on', '-Copt-level=0', '-Awarnings', '--crate-name', 'rt_' + tag, os.path.join(d, 'lib.rs'), '-o', lib]]
            objs[be] = lib
        else:
            a, b = glue.cpp_glue(prog, ifaces) if be == 'cpp' else glue.c_glue(prog, be, ifaces)
            cmds, pair = [], []
            for part, t in (('stub', a), ('skel', b)):
                n = '%s_%s.%s' % (be, part, 'cpp' if be == 'cpp' else 'c')
                W(n, t)
                ob = os.path.join(d, n + '.o')
                pair.append(ob)
                cmds.append(['clang++' if be == 'cpp' else 'clang', '-O0', '-g1', '-w', '-c'] + rt.SAN + rt.INC + ['-I' + os.path.join(d, be), os.path.join(d, n), '-o', ob])
                if be == 'cpp':
                    # two revisions of one class never meet in one program: keep this unit's inline
                    # functions, vtables and type information to itself
                    cmds.append(['ld', '-r', '--force-group-allocation', ob, '-o', ob + '.r'])
                    cmds.append(['objcopy', '--wildcard', '--keep-global-symbol=rt_*', ob + '.r', ob])
            objs[be] = pair
        for cmd in cmds:
            p = common.run(cmd, cwd=d, timeout=300, text=True)
            if p.returncode != 0:
                raise rt.BuildFail('compile ' + be, p.stderr[:3000])
    return objs


def link_mixed(d, stubs, skels, backends, tags):
    """stubs of one revision and skeletons of another in one executable"""
    os.makedirs(d)
    mask = 0
    link, rl = [], []
    for be in backends:
        mask |= 1 << rt.BES.index(be)
        if be != 'rust':
            # the stub's unit comes first: its inline functions win in C++
            link += [stubs[be][0], skels[be][1]]
    if 'rust' in backends:
        src = os.path.join(d, 'mix.rs')
        libs = {stubs['rust'], skels['rust']}
        open(src, 'w').write(''.join('extern crate %s;\n' % os.path.basename(x)[3:-5] for x in sorted(libs)) + '''
extern "C" { static rt_clients_rust_%s: [usize; 0]; static rt_makers_rust_%s: [usize; 0]; }
#[no_mangle] pub unsafe extern "C" fn mix_clients() -> *const [usize; 0] { &raw const rt_clients_rust_%s }
#[no_mangle] pub unsafe extern "C" fn mix_makers() -> *const [usize; 0] { &raw const rt_makers_rust_%s }
''' % (tags[0], tags[1], tags[0], tags[1]))
        lib = os.path.join(d, 'libmix.a')
        p = common.run(['rustc', '--edition', '2021', '--crate-type', 'staticlib', '-Awarnings', '--crate-name', 'mix', src, '-o', lib] + [w for x in sorted(libs) for w in ('--extern', '%s=%s' % (os.path.basename(x)[3:-5], x))], cwd=d, timeout=300, text=True)
        if p.returncode != 0:
            raise rt.BuildFail('link rust', p.stderr[:3000])
        link += ['-Wl,--defsym=rt_clients_rust=rt_clients_rust_%s' % tags[0], '-Wl,--defsym=rt_makers_rust=rt_makers_rust_%s' % tags[1], '-Wl,-u,mix_clients', lib]
    rto = os.path.join(d, 'rt.o')
    p = common.run(['clang', '-O1', '-g1', '-w', '-c', '-DRT_BES=%d' % mask] + rt.SAN + rt.INC + [os.path.join(rt.RTDIR, 'rt.c'), '-o', rto], cwd=d, timeout=200, text=True)
    if p.returncode != 0:
        raise rt.BuildFail('compile rt', p.stderr[:2000])
    exe = os.path.join(d, 'rt.exe')
    p = common.run(['clang++'] + rt.SAN + [rto] + link + ['-o', exe, '-lpthread', '-ldl', '-lm'], cwd=d, timeout=200, text=True)
    if p.returncode != 0:
        raise rt.BuildFail('link', p.stderr[-3000:])
    return exe


def mixed_workload(a, b, caller, callee, rng, script, pairs, bes):
    """calls of old methods (and of new ones when the callee is the old revision).
    a: old, b: new; caller/callee are the programs of stub and skeleton"""
    ixs, ixk = {n: i for i, n in enumerate(caller.ifaces)}, {n: i for i, n in enumerate(callee.ifaces)}

    def call(sbe, kbe, impl_if, stub_if, m, op, status, flags, unknown=False):
        names = [x[2].name for x in caller.methods(stub_if)]
        val = rt.Val(caller, m, rng, rng.choice(['mix', 'distinct', 'null']))
        c = core.Case()
        c.kind, c.prog, c.m, c.val, c.sbe, c.kbe, c.impl_if, c.stub_if = 'call', caller if unknown else a, m, val, sbe, kbe, impl_if, stub_if
        c.op, c.status, c.flags, c.var, c.desc, c.extra = op, status, flags, 0, '', 'unknown' if unknown else None
        script.call(c, sbe, kbe, ixk[impl_if], ixs[stub_if], names.index(m.name), status, rt.client_blob(caller, m, val), rt.plan_blob(caller, m, val), flags, 0)
    ch = changed(a, b)
    prs = [(x, y) for x in bes for y in bes]
    for impl_if in a.ifaces:
        for op, owner, m in a.methods(impl_if):
            if not protected(a, b, owner):
                continue
            for sbe, kbe in rng.sample(prs, min(pairs, len(prs))):
                stubs = [s.name for s in a.chain(impl_if) if owner in [x.name for x in a.chain(s.name)]]
                # of the hierarchy of the implementation only the inherited part is stable
                status = rng.choice(core.STATUSES) if rng.random() < .15 else 0
                flags = (1 if rng.random() < .3 else 0) | (4 if rng.random() < .1 else 0)
                call(sbe, kbe, impl_if, rng.choice(stubs), m, op, status, flags)
        # a method the old skeleton doesn't know
        if caller is b and impl_if in ch and protected(a, b, impl_if):
            old = {m.name for _, _, m in a.methods(impl_if)}
            for op, owner, m in b.methods(impl_if):
                if owner == impl_if and m.name not in old:
                    for sbe, kbe in rng.sample(prs, min(pairs, len(prs))):
                        call(sbe, kbe, impl_if, impl_if, m, op, 0, 0, unknown=True)


def judge_unknown(c, o):
    if c.sbe == 'java':
        if o.raw is None:
            yield 'status', 'no answer was recorded'
            return
        if o.raw[1]:
            yield 'reach', 'the unknown method reached %s' % (o.raw[1],)
        if o.raw[0] == 0:
            yield 'status', 'the skeleton answered success'
        return
    if o.impl:
        yield 'reach', 'the unknown method reached %s' % o.impl
    if o.status is None or o.status == 0:
        yield 'status', 'the caller observed status %s' % o.status
    if len(o.inv) != 1 or o.inv[0][0] != c.op:
        yield 'env', 'observed invocations %s' % [(x[0], x[1]) for x in o.inv]


def interop_case(ctx, idlc, rng, i):
    a = base_program(rng)
    fresh = Fresh(a)
    b, done = revise(rng, a, fresh, {})
    while len(done) < 2 or not changed(a, b):
        if not any(d.kind == 'interface' for f in a.files for d in f.decls):
            break
        b, more = revise(rng, b, fresh, {})
        done += more
    d = ctx.mkdir('i%d' % i)
    out = []
    try:
        bes = list(rt.BES)
        try:
            oa, ob = compile_rev(idlc, a, d + '/a', 'a', bes), compile_rev(idlc, b, d + '/b', 'b', bes)
            for name, cal, cee, ocal, ocee, tags in (('old stub, new skeleton', a, b, oa, ob, 'ab'), ('new stub, old skeleton', b, a, ob, oa, 'ba')):
                exe = link_mixed(os.path.join(d, tags), ocal, ocee, bes, tags)
                s = rt.Script()
                mixed_workload(a, b, cal, cee, rng, s, 5 if ctx.thorough else 3, bes)
                if s.cases:
                    obs, crashes = core.run_script(exe, s, os.path.join(d, tags))
                    out.append((name, s, obs, crashes))
        except rt.BuildFail as e:
            return a, b, done, [], '%s: %s' % (e.stage, e.what)
        return a, b, done, out, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ Java
def java_case(ctx, idlc, rng, i):
    """the new revision's proxies and skeletons under the old revision's numbers,
    and the old skeletons under envelopes of new methods"""
    a = base_program(rng, True)
    fresh = Fresh(a)
    b, done = revise(rng, a, fresh, {'p_obj_struct': 0, 'struct_objects': False})
    while not changed(a, b) and any(d.kind == 'interface' for f in a.files for d in f.decls):
        b, more = revise(rng, b, fresh, {'p_obj_struct': 0, 'struct_objects': False})
        done += more
    c18.strip(b)
    d = ctx.mkdir('j%d' % i)
    out = []
    try:
        try:
            for name, p in (('new', b), ('old', a)):
                e = os.path.join(d, name)
                os.makedirs(e)
                cls = jv.compile(e, jv.generate(idlc, p, e))
                s = jv.JScript(p)
                ix = {n: k for k, n in enumerate(p.ifaces)}
                for impl_if in a.ifaces:
                    if name == 'new':
                        for op, owner, m in a.methods(impl_if):
                            if protected(a, b, owner):
                                for _ in range(2):
                                    val = jv.clean(a, m, rt.Val(a, m, rng, rng.choice(['mix', 'distinct', 'null'])))
                                    c = core.Case()
                                    c.kind, c.prog, c.m, c.val, c.sbe, c.kbe, c.impl_if, c.stub_if = 'call', a, m, val, 'java', 'java', impl_if, impl_if
                                    c.op, c.status, c.flags, c.var, c.desc, c.extra = op, rng.choice([0, 0, 0, 42]), 0, 0, '', None
                                    s.call(c, 'java', 'java', ix[impl_if], ix[impl_if], [x[2].name for x in b.methods(impl_if)].index(m.name), c.status, rt.client_blob(a, m, val), rt.plan_blob(a, m, val))
                    elif impl_if in changed(a, b) and protected(a, b, impl_if):
                        old = {m.name for _, _, m in a.methods(impl_if)}
                        for op, owner, m in b.methods(impl_if):
                            if m.name not in old:
                                val = jv.clean(b, m, rt.Val(b, m, rng, 'distinct'))
                                cnt, bi, sizes, oi, bo, oo = rt.ref_envelope(b, m, val)
                                c = core.Case()
                                c.kind, c.prog, c.m, c.val, c.sbe, c.kbe, c.impl_if, c.stub_if = 'call', b, m, val, 'java', 'java', impl_if, impl_if
                                c.op, c.status, c.flags, c.var, c.desc, c.extra = op, 0, 0, 0, '', 'unknown'
                                s.raw(c, 'java', ix[impl_if], 0, op, pack_counts(cnt), bi, sizes, oi, None)
                if s.cases:
                    obs, _ = s.execute(e, cls)
                    out.append((name + ' Java', s, obs, []))
        except rt.BuildFail as e:
            return a, b, done, [], '%s: %s' % (e.stage, e.what)
        return a, b, done, out, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(ctx):
    idlc = common.Idlc(common.build_idlc())
    jv.runtime_classes()
    ctx.rule = 'a case is one compared output of two revisions, or one observed call between two revisions; distinct by (revisions, backend) or by (backend pair, method shape, status, values)'
    t = 8 if ctx.thorough else 1

    def section(name, fn, n):
        seeds = [ctx.rng.getrandbits(48) for _ in range(n)]

        def work(i):
            if ctx.left() < 50:
                return None
            return fn(ctx, idlc, random.Random(seeds[i]), i)
        for i, w in enumerate(common.procmap(work, range(n))):
            if w is None:
                ctx.count('skipped_for_time')
                continue
            yield i, w
    for i, (revs, done, runs, frags, v) in section('text', text_case, 120 * t):
        for k in range(runs):
            ctx.case(('text', revs[-1].text(), k))
        ctx.count('histories')
        ctx.count('revisions', len(revs))
        ctx.count('outputs_compared', runs)
        ctx.count('fragments_compared', frags)
        for ds in done:
            for x in ds:
                ctx.count('edit: ' + x[0])
        if i % 37 == 0:
            ctx.sample('history %s: %d outputs, %d fragments' % (done, runs, frags))
        for sig, what, files in v:
            ctx.violation(sig, what, files)
    for name, fn, n in (('interop', interop_case, 14), ('java', java_case, 10)):
        for i, (a, b, done, out, fail) in section(name, fn, n * t):
            ctx.count(name + '_revision_pairs')
            files = {**{'old/' + g.path: g.text() for g in a.files}, **{'new/' + g.path: g.text() for g in b.files}}
            if fail:
                ctx.violation('build:' + fail.split(':')[0], 'revisions %s: %s' % (done, fail[:1500]), files)
                continue
            for what, s, obs, crashes in out:
                for cid, crash in crashes:
                    c = s.cases[cid]
                    ctx.violation('crash:' + core.sig_of('value', c), '%s: %s\n%s' % (what, core.describe(c), '\n'.join(map(str, crash[1:]))[:2500]), files)
                for cid, o in sorted(obs.items()):
                    c = s.cases[cid]
                    ctx.case((what,) + tuple(c.key()) + (c.extra,))
                    ctx.count(what.replace(' ', '_') + ('_unknown_calls' if c.extra else '_calls'))
                    ctx.count('implementation_entries', len(o.impl))
                    for aspect, msg in (judge_unknown(c, o) if c.extra else (jv.judge if c.sbe == 'java' else core.judge)(c, o)):
                        ctx.violation('%s:%s' % (aspect, core.sig_of('interop', c)), '%s, revisions %s: %s\n%s' % (what, done, core.describe(c), msg), files)
            if i % 5 == 0:
                ctx.sample('%s: %s' % (name, done))
    for k in ('fragments_compared', 'old_stub,_new_skeleton_calls', 'new_stub,_old_skeleton_calls', 'new_stub,_old_skeleton_unknown_calls', 'new_Java_calls', 'old_Java_unknown_calls'):
        if not ctx.counters.get(k):
            ctx.inconclusive.append('nothing observed: ' + k)
