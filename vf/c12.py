"""C12: include resolution is first-match in search order; cycles and
unresolvable includes are always rejected; nothing else is.

Random directory trees with the same file name in several places, random
include graphs, search paths and spellings. Every physical file declares its
own marker struct, so which files were loaded is observed by which markers a
method of the main file can name."""
import os, random, shutil
from . import acc, common, fe, sweep


class Tree:
    pass


def dirname(rng):
    return rng.choice(['a', 'b', 'inc', 'lib', 'x y', 'd.idl', 'é', 'sub', 'v1.2', 'deep'])


def spell(rng, frm, to_dir, name, flip=None):
    """a spelling with a directory part that leads from directory `frm` to to_dir/name"""
    rel = os.path.relpath(os.path.join(to_dir, name), frm)
    k = rng.random()
    if '/' not in rel:
        rel = './' + rel
    if k < .25:
        h, t = os.path.split(rel)
        rel = h + '/./' + t
    elif k < .4:
        rel = './' + rel
    elif k < .55:
        d = os.path.basename(frm)
        rel = '../%s/%s' % (d, rel)
    elif k < .65:
        rel = rel.replace('/', '//', 1) if not rel.startswith('/') else rel
    elif k < .7:
        rel = os.path.join(to_dir, name)
    return rel


def make(rng, root):
    t = Tree()
    dirs = [root + '/src']
    for _ in range(rng.randrange(1, 6)):
        d = os.path.join(rng.choice(dirs + [root]), dirname(rng))
        if d not in dirs:
            dirs.append(d)
    names = ['n%d.idl' % i for i in range(rng.randrange(2, 6))]
    if rng.random() < .2:
        names.append('odd name.idl')
    t.files = []      # (dir, name)
    for n in names:
        for d in rng.sample(dirs, min(len(dirs), rng.choice([1, 1, 2, 2, 3]))):
            t.files.append((d, n))
    main = (dirs[0], 'main.idl')
    t.files = [main] + [f for f in t.files]
    t.links = []
    if rng.random() < .35:
        ln = os.path.join(rng.choice(dirs), 'lnk')
        t.links.append((ln, rng.choice([d for d in dirs if not ln.startswith(d)] or [root + '/src'])))
        if rng.random() < .5:
            dirs.append(ln)
    rng.shuffle(dirs)
    k = rng.randrange(0, len(dirs) + 1)
    t.incs = dirs[:k]
    if rng.random() < .15 and t.incs:
        t.incs.append(rng.choice(t.incs))
    if rng.random() < .1:
        t.incs.insert(0, root + '/missing')
    t.search = t.incs + [dirs and main[0]]
    # include graph
    mode = rng.choice(['dag', 'dag', 'dag', 'any', 'any', 'cycle'])
    t.inc = {f: [] for f in t.files}
    order = t.files[:]
    dens = rng.choice([.15, .3, .5])
    for i, f in enumerate(order):
        for j, g in enumerate(order):
            if (mode == 'dag' or rng.random() < .6) and j <= i:
                continue
            if mode == 'any' and j <= i and rng.random() < .8:
                continue
            if rng.random() > dens:
                continue
            if rng.random() < .55:
                t.inc[f].append(g[1])       # bare: whatever the search order finds
            else:
                to = g[0]
                for ln, d in t.links:
                    if d == to and rng.random() < .5:
                        to = ln
                t.inc[f].append(spell(rng, f[0], to, g[1]))
    if mode == 'cycle':
        n = rng.choice([1, 1, 2, 3, 5])
        ring = [rng.choice(order) for _ in range(n)]
        for a, b in zip(ring, ring[1:] + ring[:1]):
            t.inc[a].insert(rng.randrange(len(t.inc[a]) + 1), b[1] if rng.random() < .4 else spell(rng, a[0], *b))
    if rng.random() < .15:
        # a path with a directory part that leads somewhere from a directory of the search
        # path (or the working directory), but not, or elsewhere, from the including file
        f, g = rng.choice(order), rng.choice(order)
        frm = rng.choice(t.search + [root, t.files[0][0]])
        p = os.path.relpath(os.path.join(*g), frm)
        p = p if '/' in p else './' + p
        if fe.resolve(None, [], os.path.join(*f), p) is None or mode != 'dag':
            t.inc[f].insert(rng.randrange(len(t.inc[f]) + 1), p)
    if rng.random() < .12:
        f = rng.choice(order)
        t.inc[f].insert(rng.randrange(len(t.inc[f]) + 1), rng.choice(['nowhere.idl', './nowhere.idl', '../nowhere.idl', 'no/where.idl']))
    for f in order:
        if rng.random() < .1 and t.inc[f]:
            t.inc[f].append(rng.choice(t.inc[f]))
        if rng.random() < .5:
            rng.shuffle(t.inc[f])
    t.flinks, t.fdirs = [], []
    have = set(t.files)
    if rng.random() < .3:
        # a file under a further name: a symbolic link, beside it or elsewhere
        for k in range(rng.randrange(1, 4)):
            g = rng.choice(order[1:])
            d = rng.choice(dirs)
            n = rng.choice(names + ['k%d.idl' % k])
            if (d, n) in have or (d != g[0] and any('/' in x for x in t.inc[g])) or os.path.basename(d) == 'lnk':
                continue
            have.add((d, n))
            t.flinks.append((os.path.join(d, n), os.path.join(*g)))
            f = rng.choice(order)
            t.inc[f].append(n if rng.random() < .6 else spell(rng, f[0], d, n))
    if rng.random() < .25:
        # a directory that is called like a file the search looks for
        for k in range(rng.randrange(1, 4)):
            e = (rng.choice(dirs), rng.choice(names))
            if e not in have and os.path.basename(e[0]) != 'lnk':
                have.add(e)
                t.fdirs.append(os.path.join(*e))
    t.garbage = set()
    t.root = root
    return t


def write(t, use=(), extra=''):
    for ln, d in t.links:
        os.makedirs(os.path.dirname(ln), exist_ok=True)
        os.makedirs(d, exist_ok=True)
        if not os.path.islink(ln):
            os.symlink(d, ln)
    for ln, to in t.flinks:
        os.makedirs(os.path.dirname(ln), exist_ok=True)
        if not os.path.lexists(ln):
            os.symlink(to, ln)
    for d in t.fdirs:
        if not os.path.lexists(d):
            os.makedirs(d)
    for i, f in enumerate(t.files):
        os.makedirs(f[0], exist_ok=True)
        body = ''.join('include "%s"\n' % x for x in t.inc[f])
        body += 'struct Mark%d { uint32[%d] a; };\nconst uint32 MK%d = %d;\n' % (i, i % 7 + 1, i, i)
        if i == 0:
            body += 'interface IMain {\n%s};\n' % ''.join('  method m%d(in Mark%d a, out Mark%d b);\n' % (j, j, j) for j in use) + extra
        else:
            body += 'interface I%d { method q(); };\n' % i
        if i in t.garbage:
            body = 'this is not ( an idl'
        with open(os.path.join(*f), 'w') as fh:
            fh.write(body)


def run_case(ctx, idlc, rng, root, i):
    """returns list of (kind, expect, problem)"""
    t = make(rng, root)
    write(t)
    for d, n in t.files[1:]:
        if rng.random() < .05:
            os.makedirs(os.path.join(d, 'dironly.idl'), exist_ok=True)
    main = os.path.join(*t.files[0])
    out = []
    try:
        asts = fe.load(main, t.incs)
        ok, why = True, ''
    except fe.Reject as e:
        asts, ok, why = None, False, str(e)
    # file stems become identifiers in Rust and Java
    odd = any(' ' in n for _, n in t.files)
    t.odd = odd
    cfg = rng.choice([c[0] for c in acc.CFGS[:4 if odd else 6]])
    # spelling of the arguments: absolute, or relative to a working directory
    cwd = rng.choice([root, root + '/src', '/'])
    sp = (lambda p: os.path.relpath(p, cwd)) if rng.random() < .5 else (lambda p: p)

    def go(label, expect):
        args, multi = acc.CFG[cfg]
        o = os.path.join(root, 'out')
        if multi:
            os.makedirs(o)
        cmd = [sp(main), '-o', o] + args
        for x in t.incs:
            cmd += [rng.choice(['-I', '--include']), sp(x)]
        r = idlc(cmd, cwd=cwd, timeout=30)
        if multi:
            shutil.rmtree(o)
        elif os.path.exists(o):
            os.unlink(o)
        bad = None
        if r.timed_out:
            bad = 'did not terminate'
        elif r.returncode < 0 or r.returncode in (134, 139):
            bad = 'died of signal (%d)' % r.returncode
        elif (r.returncode == 0) != expect:
            bad = ('accepted, expected a rejection: %s' % why) if not expect else 'rejected: ' + common.diag(r)
        return bad
    idx = {os.path.realpath(os.path.join(*f)): k for k, f in enumerate(t.files)}
    if not ok:
        b = go('graph', False)
        out.append(('cycle' if 'cycle' in why else 'unresolved', why, b, t, cfg))
        return out
    reach = sorted(idx[p] for p in asts)
    # files that are not reachable must not even be looked at
    t.garbage = {k for k in range(len(t.files)) if k not in reach and rng.random() < .4}
    write(t, use=reach)
    out.append(('accepted', 'reachable %s' % reach, go('all', True), t, cfg))
    others = [k for k in range(len(t.files)) if k not in reach and k not in t.garbage]
    rng.shuffle(others)
    for k in others[:2]:
        write(t, use=reach + [k])
        why = 'Mark%d of an unreachable file is not visible' % k
        out.append(('invisible', why, go('inv', False), t, cfg))
    return out


def ring(n, tail, entry):
    return n, tail, entry


def directed(ctx, idlc):
    """cycles of every length 1..12, entered from a chain of every length 0..4,
    each file with further includes before and after the closing one; and long
    acyclic shapes (chains, diamonds, ladders)"""
    cases = []
    for n in range(1, 13):
        for lead in range(0, 4):
            for extra in ('none', 'before', 'after', 'both'):
                cases.append(('ring', n, lead, extra))
    for n in (30, 120):
        cases.append(('chain', n, 0, ''))
    for n in (4, 9):
        cases.append(('ladder', n, 0, ''))
        cases.append(('full', n, 0, ''))
        cases.append(('ladder-cycle', n, 0, ''))

    def one(c):
        kind, n, lead, extra = c
        d = ctx.mkdir('dir-%s-%d-%d-%s' % c)
        fs = {}
        if kind == 'ring':
            for i in range(lead):
                fs['l%d' % i] = ['l%d' % (i + 1) if i + 1 < lead else 'r0']
            for i in range(n):
                nxt = 'r%d' % ((i + 1) % n)
                fs['r%d' % i] = (['leaf'] if extra in ('before', 'both') else []) + [nxt] + (['leaf2'] if extra in ('after', 'both') else [])
            fs['leaf'], fs['leaf2'] = [], ['leaf']
            main, expect = ('l0' if lead else 'r0'), False
        elif kind == 'chain':
            for i in range(n):
                fs['c%d' % i] = ['c%d' % (i + 1)] if i + 1 < n else []
            main, expect = 'c0', True
        elif kind.startswith('ladder'):
            for i in range(n):
                fs['a%d' % i] = ['a%d' % (i + 1), 'b%d' % (i + 1)] if i + 1 < n else []
                fs['b%d' % i] = ['b%d' % (i + 1), 'a%d' % (i + 1)] if i + 1 < n else []
            main, expect = 'a0', True
            if kind == 'ladder-cycle':
                fs['b%d' % (n - 1)] = ['a1']
                expect = False
        else:
            for i in range(n):
                fs['f%d' % i] = ['f%d' % j for j in range(i + 1, n)]
            main, expect = 'f0', True
        for k, v in fs.items():
            with open(os.path.join(d, k + '.idl'), 'w') as fh:
                fh.write(''.join('include "%s.idl"\n' % x for x in v) + 'struct S_%s { uint8 a; };\n' % k)
        r, got = acc.compile_one(idlc, os.path.join(d, main + '.idl'), 'c', os.path.join(d, 'o.h'), timeout=60)
        shutil.rmtree(d)
        bad = None
        if r.timed_out or r.returncode < 0 or r.returncode == 134:
            bad = 'crashed or did not terminate (%s)' % r.returncode
        elif (r.returncode == 0) != expect:
            bad = 'exit %d, expected %s' % (r.returncode, 'acceptance' if expect else 'rejection')
        return c, bad, fs
    for c, bad, fs in common.parmap(one, cases):
        ctx.case(c)
        ctx.count('directed_graphs')
        if bad:
            ctx.violation('graph:%s:%d:%d:%s' % c, bad, {'idl/' + k + '.idl': ''.join('include "%s.idl"\n' % x for x in v) for k, v in fs.items()})


def places(ctx, idlc):
    """one include, its target present in every subset of the candidate places,
    written with and without a directory part: which one is read, or none"""
    import itertools
    P = {'rel': 'inc/d', 'main': 'src/d', 'i1': 'p1/d', 'i2': 'p2/d', 'cwd': 'd', 'up': 'inc'}
    cases = [(sub, sp, order) for n in range(len(P) + 1) for sub in itertools.combinations(P, n) for sp in ('d/n.idl', './d/n.idl', 'd/../d/n.idl', 'n.idl', './n.idl', '../inc/n.idl') for order in (0, 1, 2)]
    if not ctx.thorough:
        cases = ctx.rng.sample(cases, 500)

    def one(ic):
        i, (sub, sp, order) = ic
        root = ctx.mkdir('pl%d' % i)
        marks = {}
        for k, (w, d) in enumerate(P.items()):
            os.makedirs(os.path.join(root, d), exist_ok=True)
            if w in sub:
                open(os.path.join(root, d, 'n.idl'), 'w').write('struct Mark%d { uint8 a; };\n' % k)
                marks[os.path.realpath(os.path.join(root, d, 'n.idl'))] = k
        incs = [['p1', 'p2', 'inc'], ['p2/d', 'inc', 'p1'], ['inc', 'p1/d', 'src/d', 'p2']][order]
        incs = [os.path.join(root, x) for x in incs]
        os.makedirs(os.path.join(root, 'src'), exist_ok=True)
        mid, main = os.path.join(root, 'inc', 'mid.idl'), os.path.join(root, 'src', 'main.idl')
        open(mid, 'w').write('include "%s"\nstruct Mid { uint8 a; };\n' % sp)
        hit = fe.resolve(None, incs + [os.path.dirname(main)], mid, sp)
        probs = []
        for k in [None] + ([marks[os.path.realpath(hit)]] + [x for x in marks.values() if x != marks[os.path.realpath(hit)]][:2] if hit else []):
            open(main, 'w').write('include "mid.idl"\ninterface IMain { method m(in Mid a%s); };\n' % ('' if k is None else ', in Mark%d b' % k))
            exp = bool(hit) and (k is None or k == marks[os.path.realpath(hit)])
            cmd = [main, '-o', os.path.join(root, 'o.h')]
            for x in incs:
                cmd += ['-I', x]
            r = idlc(cmd, cwd=root)
            if (r.returncode == 0) != exp:
                probs.append('target in %s, include "%s" from inc/mid.idl, search path %s + src, naming %s: exit %d, expected %s' % (
                    [P[w] for w in sub], sp, [os.path.relpath(x, root) for x in incs], 'nothing' if k is None else 'the struct of %s' % list(P.values())[k], r.returncode, 'acceptance' if exp else 'rejection'))
        shutil.rmtree(root, ignore_errors=True)
        return sub, sp, order, bool(hit), probs
    for sub, sp, order, hit, probs in common.procmap(one, list(enumerate(cases))):
        ctx.case(('place', sub, sp, order))
        ctx.count('places_resolved' if hit else 'places_unresolved')
        for b in probs:
            ctx.violation('place:%s:%s:%d' % ('+'.join(sub), sp, order), b)


def check(ctx):
    idlc = common.Idlc(common.build_idlc())
    lib = common.build_lib()
    ctx.rule = ('a case is one run on a random directory tree (same file name in several directories, random include graph, search path, spellings); distinct by the include edges, search path and probe; '
                'which files were loaded is observed through a marker struct per physical file; cycles of every length with every lead-in are enumerated')
    ctx.assumptions += ['reference resolution written from the property statement (vf/fe.py: resolve, load)']
    directed(ctx, idlc)
    places(ctx, idlc)
    # what a file may be called

    def judge(r, got, v, why, cfg):
        if (r.returncode == 0) != (v == 'accept'):
            return 'names', 'exit %d, expected %s (%s): %s' % (r.returncode, v, why, common.diag(r))
    sweep.run(ctx, None, {'dbg': idlc}, judge, source=sweep.includes)
    total = 12000 if ctx.thorough else 2500
    seeds = [ctx.rng.getrandbits(48) for _ in range(total)]
    chunk = 25

    def work(c):
        if ctx.left() < 25:
            return None
        out, items = [], []
        root = ctx.mkdir('k%d' % c)
        for i in range(c * chunk, min(total, (c + 1) * chunk)):
            rng = random.Random(seeds[i])
            d = os.path.join(root, str(i))
            os.makedirs(d)
            res = run_case(ctx, idlc, rng, d, i)
            # the library on the last file set written
            t = res[-1][3]
            items.append(('', t.incs + [t.files[0][0]], os.path.join(*t.files[0])))
            txt = {os.path.relpath(os.path.join(*f), d): open(os.path.join(*f)).read() for f in t.files}
            out.append((res, txt, i, [os.path.relpath(x, d) for x in t.incs]))
        lr = common.lib_run(lib, items, root)
        shutil.rmtree(root, ignore_errors=True)
        return out, lr
    for w in common.procmap(work, range((total + chunk - 1) // chunk)):
        if w is None:
            ctx.count('chunks_skipped_for_time')
            continue
        for (res, txt, i, incs), l in zip(*w):
            files = {'idl/' + k: v for k, v in txt.items()}
            for n, (kind, why, bad, t, cfg) in enumerate(res):
                ctx.case((kind, why, tuple(sorted((k[1], tuple(v)) for k, v in t.inc.items())), tuple(incs)))
                ctx.count('runs_' + kind)
                if bad:
                    ctx.violation('%s:%s' % (kind, 'run'), '%s\nsearch path %s, main src/main.idl, backend %s\n%s' % (bad, incs, cfg, why), files)
            ctx.count('library_runs')
            exp = res[-1][0] == 'accepted'
            if l.startswith('ok') != exp and not (res[-1][3].odd and exp):
                ctx.violation('%s:library' % res[-1][0], 'library entry point: %s, expected %s (%s)\nsearch path %s' % (l, 'acceptance' if exp else 'refusal', res[-1][1], incs), files)
            if i % 211 == 0:
                ctx.sample('%s; include path %s; %s' % (res[0][1], incs, {k: v for k, v in list(txt.items())[:1]}))
    if ctx.counters.get('runs_accepted', 0) < 100 or ctx.counters.get('runs_cycle', 0) < 50:
        ctx.inconclusive.append('too few runs')
