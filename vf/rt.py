"""Round-trip harness: build generated code + glue, write scripts, parse logs."""
import os, struct as st
from . import common, glue
from .idl import *

BES = ['c', 'cu', 'cpp', 'rust']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment', '-fno-omit-frame-pointer']
RTDIR = os.path.join(common.ROOT, 'runtime')
INC = ['-I' + RTDIR, '-I/repo/tests/c', '-I/repo/tests/cpp']
OBJ_RS = '/repo/tests/src/object/mod.rs'


class BuildFail(Exception):
    def __init__(self, stage, what):
        Exception.__init__(self, '%s: %s' % (stage, what))
        self.stage, self.what = stage, what


def generate(idlc, prog, d, backends=BES, extra=()):
    """run idlc for every file and backend; returns rust modules"""
    prog.write(os.path.join(d, 'idl'))
    rust = []
    for be in backends:
        out = os.path.join(d, be)
        os.makedirs(out, exist_ok=True)
        for f in prog.files:
            src = os.path.join(d, 'idl', f.path)
            s = glue.stem(f.path)
            if be in ('c', 'cu'):
                runs = [['--c', '-o', '%s/%s.h' % (out, s)], ['--c', '--skel', '-o', '%s/%s_invoke.h' % (out, s)]]
                if be == 'cu':
                    runs = [r + ['--no-typed-objects'] for r in runs]
            elif be == 'cpp':
                runs = [['--cpp', '-o', '%s/%s.hpp' % (out, s)], ['--cpp', '--skel', '-o', '%s/%s_invoke.hpp' % (out, s)]]
            else:
                runs = [['--rust', '-o', out]]
            for r in runs:
                p = idlc([src] + r + list(extra))
                if p.returncode != 0:
                    raise BuildFail('idlc ' + be, common.diag(p))
    if 'rust' in backends:
        for n in sorted(os.listdir(os.path.join(d, 'rust'))):
            rust.append((n[:-3], os.path.join(d, 'rust', n)))
    return rust


def build(idlc, prog, d, backends=BES, asan_rust=False, opt='-O0'):
    """returns path of the harness executable"""
    ifaces = list(prog.ifaces)
    mods = generate(idlc, prog, d, backends)
    jobs = []
    W = lambda n, t: open(os.path.join(d, n), 'w').write(t)
    objs = []
    mask = 0
    for be in backends:
        mask |= 1 << BES.index(be)
        if be in ('c', 'cu'):
            a, b = glue.c_glue(prog, be, ifaces)
            for n, t in (('%s_stub.c' % be, a), ('%s_skel.c' % be, b)):
                W(n, t)
                ob = os.path.join(d, n + '.o')
                objs.append(ob)
                jobs.append((be, ['clang', opt, '-g1', '-w', '-c'] + SAN + INC + ['-I' + os.path.join(d, be), os.path.join(d, n), '-o', ob]))
        elif be == 'cpp':
            a, b = glue.cpp_glue(prog, ifaces)
            for n, t in (('cpp_stub.cpp', a), ('cpp_skel.cpp', b)):
                W(n, t)
                ob = os.path.join(d, n + '.o')
                objs.append(ob)
                jobs.append((be, ['clang++', opt, '-g1', '-w', '-c'] + SAN + INC + ['-I' + os.path.join(d, 'cpp'), os.path.join(d, n), '-o', ob]))
        else:
            W('lib.rs', glue.rust_glue(prog, ifaces, mods, OBJ_RS))
            ob = os.path.join(d, 'librt_rust.a')
            objs.append(ob)
            cmd = ['rustc', '--edition', '2021', '--crate-type', 'staticlib', '--cfg', 'feature="std"', '-Cdebug-assertions=on',
                   '-Copt-level=0', '-Cdebuginfo=1', '-Awarnings', '--crate-name', 'rt_rust', os.path.join(d, 'lib.rs'), '-o', ob]
            if asan_rust:
                cmd = [cmd[0], '+nightly', '-Zsanitizer=address'] + cmd[1:]
            jobs.append((be, cmd))
    rto = os.path.join(d, 'rt.o')
    objs.insert(0, rto)
    jobs.append(('rt', ['clang', '-O1', '-g1', '-w', '-c', '-DRT_BES=%d' % mask] + SAN + INC + [os.path.join(RTDIR, 'rt.c'), '-o', rto]))
    for be, cmd in jobs:
        e = {}
        if cmd[0] == 'rustc' and cmd[1] == '+nightly':
            e = {'RUSTUP_TOOLCHAIN': 'nightly'}
        p = common.run(cmd, cwd=d, timeout=300, text=True, env=e)
        if p.returncode != 0:
            raise BuildFail('compile ' + be, p.stderr[:3000])
    exe = os.path.join(d, 'rt.exe')
    p = common.run(['clang++'] + SAN + objs + ['-o', exe, '-lpthread', '-ldl', '-lm'], cwd=d, timeout=200, text=True)
    if p.returncode != 0:
        raise BuildFail('link', p.stderr[-3000:])
    return exe


# ---------------------------------------------------------------- values
FBITS = [0, 1, 0x80, 0xff, 0x7f]


def rand_bytes(rng, n):
    r = rng.random()
    if r < .1:
        return bytes(n)
    if r < .2:
        return b'\xff' * n
    if r < .25:
        return bytes([0x80] + [0] * (n - 1))[::-1] if n else b''
    return rng.getrandbits(8 * n).to_bytes(n, 'little') if n else b''


class Objs:
    """object id chooser: null / distinct / aliased patterns"""

    def __init__(self, rng, mode):
        self.rng, self.mode, self.next = rng, mode, 1

    def pick(self):
        m = self.mode
        if m == 'null':
            return 0
        if m == 'alias':
            return 7
        if m == 'mix' and self.rng.random() < .35:
            return self.rng.choice([0, 0, 5])
        self.next += 1
        return 8 + self.next % 50


def val_type(prog, rng, ob, t):
    """random value of a type: bytes | list | int id"""
    if t in PRIMS:
        return rand_bytes(rng, PRIMS[t])
    if t in prog.structs:
        return [[val_type(prog, rng, ob, ft) for _ in range(c)] for ft, c, _ in prog.structs[t].fields]
    return ob.pick()


def enc_canon(prog, t, v):
    if t in PRIMS:
        return v
    if t in prog.structs:
        return b''.join(enc_canon(prog, ft, x) for (ft, c, _), xs in zip(prog.structs[t].fields, v) for x in xs)
    return st.pack('<I', v)


def enc_wire(prog, t, v):
    """little-endian image with object slots blank"""
    if t in PRIMS:
        return v
    if t in prog.structs:
        return b''.join(enc_wire(prog, ft, x) for (ft, c, _), xs in zip(prog.structs[t].fields, v) for x in xs)
    return bytes(16)


def objs_of(prog, t, v):
    """object ids in path order of prog.objects (BFS-free: declaration order)"""
    if t in PRIMS:
        return []
    if t in prog.structs:
        return [o for (ft, c, _), xs in zip(prog.structs[t].fields, v) for x in xs for o in objs_of(prog, ft, x)]
    return [v]


class Val:
    """valuation of one method call"""

    def __init__(self, prog, m, rng, omode='mix', lens=None):
        ob = Objs(rng, omode)
        self.inv, self.outv, self.cap = {}, {}, {}
        L = lens or [0, 1, 2, 3, 5, 17, 64, 300]
        for p in m.params:
            if p.pk in ('buffer', 'primarr', 'structarr'):
                et = 'uint8' if p.pk == 'buffer' else p.ty
                n = rng.choice(L)
                if p.pk == 'structarr' and n > 17 and not lens:
                    n = 4
                if p.dir == 'out':
                    self.cap[p.name] = n
                    n = rng.choice([n, n, 0, rng.randint(0, n), max(0, n - 1)])
                v = [val_type(prog, rng, ob, et) for _ in range(n)]
            elif p.pk == 'objarr':
                v = [ob.pick() for _ in range(p.cnt)]
            elif p.pk == 'obj':
                v = ob.pick()
            else:
                v = val_type(prog, rng, ob, p.ty)
            (self.inv if p.dir == 'in' else self.outv)[p.name] = v


def canon_param(prog, p, v):
    if p.pk in ('buffer', 'primarr', 'structarr'):
        et = 'uint8' if p.pk == 'buffer' else p.ty
        return st.pack('<I', len(v)) + b''.join(enc_canon(prog, et, x) for x in v)
    if p.pk == 'objarr':
        return b''.join(st.pack('<I', x) for x in v)
    if p.pk == 'obj':
        return st.pack('<I', v)
    return enc_canon(prog, p.ty, v)


def wire_param(prog, p, v):
    if p.pk in ('buffer', 'primarr', 'structarr'):
        et = 'uint8' if p.pk == 'buffer' else p.ty
        return b''.join(enc_wire(prog, et, x) for x in v)
    return enc_wire(prog, p.ty, v)


def client_blob(prog, m, val):
    """consumed by the client glue: all params in declaration order; output
    buffers contribute their capacity"""
    b = b''
    for p in m.params:
        if p.dir == 'in':
            b += canon_param(prog, p, val.inv[p.name])
        elif p.name in val.cap:
            b += st.pack('<I', val.cap[p.name])
    return b


def plan_blob(prog, m, val):
    return b''.join(canon_param(prog, p, val.outv[p.name]) for p in m.params if p.dir == 'out')


def got_blob(prog, m, val):
    """what the implementation must report having received (same layout)"""
    return client_blob(prog, m, val)


def ref_envelope(prog, m, val):
    """(counts, BI bytes list, BO sizes list, OI ids, BO bytes list on success, OO ids)"""
    w = prog.wire(m)

    def bufs(items, vals, out):
        r = []
        for it in items:
            if it[0] == 'bundle':
                r.append(b''.join(enc_wire(prog, p.ty, vals[p.name]) for p in it[1]))
            else:
                r.append(wire_param(prog, it[1], vals[it[1].name]))
        return r

    def objs(d, vals):
        r = []
        for p in m.params:
            if p.dir != d:
                continue
            if p.pk == 'obj':
                r.append(vals[p.name])
            elif p.pk == 'objarr':
                r += vals[p.name]
            elif p.pk == 'struct':
                r += objs_of(prog, p.ty, vals[p.name])
        return r
    bi = bufs(w['BI'], val.inv, False)
    bo = bufs(w['BO'], val.outv, True)
    sizes = []
    for it, b in zip(w['BO'], bo):
        if it[0] == 'buf':
            sizes.append(val.cap[it[1].name] * it[2])
        else:
            sizes.append(len(b))
    oi, oo = objs('in', val.inv), objs('out', val.outv)
    return prog.counts(m), bi, sizes, oi, bo, oo


# ---------------------------------------------------------------- script / log
class Script:
    def __init__(self):
        self.b = bytearray()
        self.cases = []
        self.offsets = []

    def call(self, info, sbe, kbe, impl_if, stub_if, midx, status, cin, plan, flags=0, var=0):
        cid = len(self.cases)
        self.cases.append(info)
        self.offsets.append(len(self.b))
        self.b += st.pack('<BIBBBBHHHi', 1, cid, BES.index(sbe), BES.index(kbe), var, flags, impl_if, stub_if, midx, status)
        self.b += st.pack('<I', len(cin)) + cin + st.pack('<I', len(plan)) + plan
        return cid

    def raw(self, info, kbe, impl_if, status, op, k, bi, bo, oi, plan, var=0, nul0=0):
        """bi: list of bytes or (bytes, huge); bo: list of int or (int, huge)"""
        cid = len(self.cases)
        self.cases.append(info)
        self.offsets.append(len(self.b))
        self.b += st.pack('<BIBBHiIIB', 2, cid, BES.index(kbe), var, impl_if, status, op & 0xffffffff, k & 0xffffffff, nul0)
        self.b += st.pack('<I', len(plan)) + plan
        for x in bi:
            x, h = x if isinstance(x, tuple) else (x, 0)
            self.b += st.pack('<IB', len(x), h) + x
        for x in bo:
            x, h = x if isinstance(x, tuple) else (x, 0)
            self.b += st.pack('<IB', x, h)
        for x in oi:
            self.b += st.pack('<I', x)
        return cid

    def dropall(self, info):
        cid = len(self.cases)
        self.cases.append(info)
        self.offsets.append(len(self.b))
        self.b += st.pack('<BI', 3, cid)


def unhex(s):
    return b'' if s == '-' else bytes.fromhex(s)


def parse_env(tok):
    """tokens after op,k of INV / after r of RSP"""
    I, O, oi, oo = [], [], [], []
    for t in tok:
        if t[0] == 'I':
            n, h = t[1:].split(':', 1)
            I.append((int(n), unhex(h) if h else None))
        elif t[0] == 'O':
            if ':' in t:
                n, h = t[1:].split(':', 1)
                O.append((int(n), None if h == 'OVER' else unhex(h)))
            else:
                O.append((int(t[1:]), None))
        elif t[0] == 'i':
            oi.append(int(t[1:]))
        elif t[0] == 'o':
            oo.append(int(t[1:]) if len(t) > 1 else None)
    return I, O, oi, oo


class Obs:
    """what the monitors saw for one case"""

    def __init__(self):
        self.inv = []      # (op, k, I, O, oi, oo)
        self.rsp = []      # (r, O, oo)
        self.impl = []     # names
        self.got = []      # blobs
        self.status = None
        self.out = None
        self.raw = None
        self.refs = {}
        self.notes = []
        self.other = []
        self.left = None
        self.done = False
        self.order = []


def parse_log(lines):
    """returns ({case: Obs}, [CONST tokens], complete)"""
    obs, consts = {}, []
    cur = None
    complete = False
    for ln in lines:
        t = ln.split(' ')
        k = t[0]
        if k == 'CASE':
            cur = obs[int(t[1])] = Obs()
        elif k == 'CONST':
            consts.append(t[1:])
        elif k == 'DONE':
            complete = True
        elif cur is None:
            continue
        elif k == 'INV':
            cur.inv.append((int(t[1], 16), int(t[2], 16)) + parse_env(t[3:]))
            cur.order.append('INV')
        elif k == 'RSP':
            I, O, oi, oo = parse_env(t[2:])
            cur.rsp.append((int(t[1]), O, oo))
            cur.order.append('RSP')
        elif k == 'IMPL':
            cur.impl.append(t[1])
            cur.order.append('IMPL')
        elif k == 'GOT':
            cur.got.append(unhex(t[1]))
        elif k == 'STATUS':
            cur.status = int(t[1])
        elif k == 'OUT':
            cur.out = (int(t[1]), unhex(t[2]))
        elif k == 'TREFS':
            cur.left = (int(t[1]), int(t[3]), int(t[5]))
        elif k == 'REFS':
            cur.refs[int(t[1])] = tuple(int(t[i]) for i in (2, 4, 6, 8))
        elif k == 'RAW':
            r, ent = int(t[1]), int(t[3])
            if r == 0:
                I, O, oi, oo = parse_env(t[4:])
                cur.raw = (r, ent, O, oo)
            else:
                cur.raw = (r, ent, int(t[5]), int(t[7]))
        elif k == 'NOTE':
            cur.notes.append((t[1], int(t[2])))
        elif k == 'END':
            cur.done = True
        elif ln:
            cur.other.append(ln)
    return obs, consts, complete


def execute(exe, script, d, tag='s', timeout=240):
    sp, lp = os.path.join(d, tag + '.bin'), os.path.join(d, tag + '.log')
    with open(sp, 'wb') as f:
        f.write(script.b)
    p = common.run([exe, sp, lp], cwd=d, timeout=timeout, text=True, env={
        'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1',
        'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=78'})
    try:
        lines = open(lp, errors='replace').read().split('\n')
    except FileNotFoundError:
        lines = []
    obs, _, complete = parse_log(lines)
    lastc = max(obs) if obs else None
    crash = None
    if not complete or p.returncode != 0:
        crash = (lastc, p.returncode, (p.stderr or '')[-6000:], p.timed_out)
    return obs, crash


def crash_summary(crash):
    import re
    c, rc, err, to = crash
    if to:
        return 'hang'
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m:
        return 'asan:' + m.group(1)
    m = re.search(r'runtime error: (.*)', err)
    if m:
        return 'ubsan:' + re.sub(r'0x[0-9a-f]+|\d+', 'N', m.group(1))[:80]
    m = re.search(r"panicked at .*?\n(.*)", err)
    if m:
        return 'rust-panic:' + re.sub(r'0x[0-9a-f]+|\d+', 'N', m.group(1))[:80]
    return 'exit:%s' % rc
