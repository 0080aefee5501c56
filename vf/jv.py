"""Java side: build generated classes against the stand-in Mink runtime and
drive proxies / skeletons through the reflective recorder (runtime/java)."""
import hashlib, os, shutil, struct as st
from . import common, core, glue, rt
from .idl import *

JDIR = os.path.join(common.ROOT, 'runtime', 'java')


def runtime_classes():
    srcs = []
    for d, _, fs in os.walk(JDIR):
        srcs += [os.path.join(d, f) for f in fs if f.endswith('.java')]
    srcs.sort()
    h = hashlib.sha256(b''.join(open(s, 'rb').read() for s in srcs)).hexdigest()[:12]
    out = os.path.join(common.BUILD, 'jrt-' + h)
    if os.path.exists(os.path.join(out, 'ok')):
        return out
    tmp = out + '.%d' % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    r = common.run(['javac', '-nowarn', '-d', tmp] + srcs, timeout=200, text=True)
    if r.returncode:
        raise common.InternalError('javac of the stand-in runtime failed: ' + r.stderr[:1000])
    open(os.path.join(tmp, 'ok'), 'w').close()
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def generate(idlc, prog, d, extra=()):
    prog.write(os.path.join(d, 'idl'))
    out = os.path.join(d, 'java')
    os.makedirs(out, exist_ok=True)
    for f in prog.files:
        p = idlc([os.path.join(d, 'idl', f.path), '--java', '-o', out] + list(extra))
        if p.returncode != 0:
            raise rt.BuildFail('idlc java', common.diag(p))
    return out


def compile(d, src, lint=()):
    cls = os.path.join(d, 'cls')
    os.makedirs(cls, exist_ok=True)
    fs = sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith('.java'))
    p = common.run(['javac', '-J-XX:+UseSerialGC', '-J-XX:TieredStopAtLevel=1', '-encoding', 'UTF-8', '-cp', runtime_classes(), '-d', cls] + list(lint) + fs, cwd=d, timeout=200, text=True)
    if p.returncode != 0:
        raise rt.BuildFail('compile java', p.stderr[:3000])
    return cls


def hx(b):
    return b.hex() or '-'


def stem(prog, n):
    return glue.stem(prog.where[n].path)


class JScript:
    """same interface as rt.Script, text form"""

    def __init__(self, prog):
        self.prog = prog
        self.cases, self.lines = [], []
        self.names = list(prog.ifaces)

    def head(self):
        o = []
        for n, s in self.prog.structs.items():
            o.append('struct %s %s ' % (n, stem(self.prog, n)) + ' '.join('%s:%s:%d' % (f, t, c) for t, c, f in s.fields))
        for n in self.names:
            for _, _, m in self.prog.methods(n):
                o.append(' '.join(['method', n, m.name, '1' if m.optional else '0'] +
                                  ['%s:%s:%s:%d' % (p.dir, p.pk, 'uint8' if p.pk == 'buffer' else p.ty or 'interface', p.cnt or 0) for p in m.params]))
        return o

    def call(self, info, sbe, kbe, impl_if, stub_if, midx, status, cin, plan, flags=0, var=0):
        cid = len(self.cases)
        self.cases.append(info)
        self.lines.append('call %d %s %s %d %d %d %s %s' % (cid, self.names[impl_if], self.names[stub_if], midx, status, flags, hx(cin), hx(plan)))

    def raw(self, info, kbe, impl_if, status, op, k, bi, bo, oi, plan, var=0, nul0=0):
        cid = len(self.cases)
        self.cases.append(info)
        noo = k >> 12 & 15
        self.lines.append(' '.join(['raw', str(cid), self.names[impl_if], str(var), str(status), str(op), str(int(bool(nul0))), hx(plan) if plan is not None else '*',
                                    str(len(bi))] + [hx(x) for x in bi] + [str(len(bo))] + [str(x) for x in bo] + [str(len(oi))] + [str(x) for x in oi] + [str(noo)]))

    def execute(self, d, cls, timeout=240):
        sp, lp = os.path.join(d, 'j.txt'), os.path.join(d, 'j.log')
        with open(sp, 'w') as f:
            f.write('\n'.join(self.head() + self.lines) + '\n')
        p = common.run(['java', '-Xshare:auto', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-Xss4m', '-Xmx1g', '-cp', runtime_classes() + ':' + cls, 'vfj.Driver', sp, lp], cwd=d, timeout=timeout, text=True)
        try:
            lines = open(lp, errors='replace').read().split('\n')
        except FileNotFoundError:
            lines = []
        obs, consts, ok = rt.parse_log(lines)
        if not ok:
            raise rt.BuildFail('run java', 'the Java driver stopped: rc %s %s' % (p.returncode, p.stderr[-2000:]))
        return obs, consts


def no_nan(prog, t, v):
    """Java may quieten signalling NaNs: keep to ordinary bit patterns"""
    if t == 'float32' and st.unpack('<I', v)[0] & 0x7f800000 == 0x7f800000:
        return v[:3] + bytes([v[3] & 0x3f])
    if t == 'float64' and st.unpack('<Q', v)[0] & 0x7ff << 52 == 0x7ff << 52:
        return v[:7] + bytes([v[7] & 0x3f])
    if t in prog.structs:
        return [[no_nan(prog, ft, x) for x in xs] for (ft, c, _), xs in zip(prog.structs[t].fields, v)]
    return v


def clean(prog, m, val):
    for p in m.params:
        d = val.inv if p.dir == 'in' else val.outv
        v = d[p.name]
        if p.pk in ('primarr', 'structarr'):
            d[p.name] = [no_nan(prog, p.ty, x) for x in v]
        elif p.pk in ('prim', 'struct'):
            d[p.name] = no_nan(prog, p.ty, v)
    return val


def workload(prog, rng, script, opts):
    for impl_if in prog.ifaces:
        chain = [i.name for i in prog.chain(impl_if)]
        ms = prog.methods(impl_if)
        for midx, (op, owner, m) in enumerate(ms):
            for rep in range(opts.get('vals', 3)):
                stubs = [s for s in chain if midx < len(prog.methods(s))]
                stub_if = impl_if if rng.random() < .6 else rng.choice(stubs)
                val = clean(prog, m, rt.Val(prog, m, rng, rng.choice(['mix', 'distinct', 'distinct', 'alias', 'null']), opts.get('lens')))
                status, flags = 0, 0
                if rng.random() < opts.get('fail', .15):
                    status = rng.choice(core.STATUSES)
                elif rng.random() < opts.get('nullout', .2):
                    flags = 8 | rng.randrange(1 << 10) << 8
                core.add_call(script, prog, 'java', 'java', impl_if, stub_if, midx, m, val, op, status, flags)


def judge(c, o):
    res = []
    A = lambda a, s: res.append((a, s))
    skipped = set()
    for ln in o.other:
        if ln.startswith('EXC'):
            A('value', 'unexpected exception: ' + ln[4:])
        elif ln.startswith('SHAPE'):
            A('env', ln[6:])
        elif ln.startswith('SKIPPED'):
            skipped.add(int(ln.split()[1]))
    if skipped and o.out is not None:
        want = b''.join(rt.canon_param(c.prog, p, c.val.outv[p.name]) for i, p in enumerate(c.m.params) if p.dir == 'out' and i not in skipped)
        if o.out[1] == want:
            o.out = (0, rt.plan_blob(c.prog, c.m, c.val))
    o.other = [l for l in o.other if not l.startswith(('EXC', 'SHAPE', 'SKIPPED'))]
    return res + core.judge(c, o)


def drive(ctx, idlc, make_prog, n, aspects, opts=None):
    """build + run n programs; judge the requested aspects"""
    import random
    opts = opts or {}
    seeds = [ctx.rng.getrandbits(48) for _ in range(n)]
    runtime_classes()

    def one(i):
        if ctx.left() < opts.get('reserve', 20):
            return [('skipped', i)]
        rng = random.Random(seeds[i])
        prog = make_prog(rng, i)
        out = [attempt(rng, prog, ctx.mkdir('j%d' % i))]
        if out[0][0] == 'build':
            # what a program that does not build hides is looked at in its parts
            queue = core.halves(prog)
            while queue and ctx.left() > opts.get('reserve', 20) + 60:
                with lock:
                    if room[0] <= 0:
                        break
                    room[0] -= 1
                    k = room[0]
                part = queue.pop(0)
                r = attempt(rng, part, ctx.mkdir('j%d_%d' % (i, k)))
                if r[0] != 'build':
                    out.append(r)
                else:
                    queue += core.halves(part)
        return out
    import threading
    lock, room = threading.Lock(), [48]

    def attempt(rng, prog, d):
        try:
            try:
                cls = compile(d, generate(idlc, prog, d))
                s = JScript(prog)
                opts.get('workload', workload)(prog, rng, s, opts)
                if opts.get('after'):
                    s.lines.append('consts ' + ' '.join(prog.ifaces))
                obs, consts = s.execute(d, cls)
            except rt.BuildFail as e:
                return ('build', prog, e.stage, e.what)
            return ('ok', prog, s, obs, consts)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    for r in (r for l in common.parmap(one, range(n)) for r in l):
        if r[0] == 'skipped':
            ctx.count('java_programs_skipped_for_time')
            continue
        prog = r[1]
        files = common.program_files(prog)
        if r[0] == 'build':
            ctx.count('java_build_failures')
            if 'build' in aspects:
                ctx.violation('build:' + r[2], 'accepted interface has no usable Java output: %s: %s' % (r[2], r[3][:1500]), files)
            continue
        _, _, s, obs, consts = r
        if opts.get('after'):
            opts['after'](ctx, prog, consts)
        ctx.count('java_programs')
        for cid, o in sorted(obs.items()):
            c = s.cases[cid]
            ctx.case(('java',) + tuple(c.key()))
            ctx.count('java_calls')
            ctx.count('java_invocations_observed', len(o.inv))
            ctx.count('java_implementation_entries', len(o.impl))
            if c.kind == 'raw':
                ctx.count('java_' + c.var)
            for aspect, msg in opts.get('judge', judge)(c, o):
                if aspect in aspects:
                    ctx.violation(core.sig_of(aspect, c), core.describe(c) + '\n' + msg, files)
                else:
                    ctx.count('other_aspect_' + aspect)
            if ctx.evaluations % 499 == 1:
                ctx.sample(core.describe(c))
