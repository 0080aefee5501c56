"""Enumerated small file sets, shared by C09 (the ones to refuse), C10 (the ones
to accept) and C16 (all builds agree).

Where the random generators plant one violation in a big program, this
enumerates every small combination of the constructs the restrictions speak
about; the reference front end (fe.py) says which side of the line each is on."""
import itertools, os, random, shutil
from . import acc, common, fe

PRE = ('interface IA { method za(); };\nstruct B2 { uint8[2] a; };\nstruct H4 { uint16[2] a; };\nstruct Q16 { uint64 a; uint64 b; };\n'
       'struct B24 { uint64[3] a; };\nstruct O16 { IA a; };\nstruct O24 { uint64 a; interface b; };\n')
ELEMS = [(t, c) for t in ('uint8', 'uint16', 'uint32', 'uint64') for c in (1, 2, 3, 4)] + [(t, c) for t in ('B2', 'H4', 'Q16', 'O24') for c in (1, 2, 3)] + [('interface', 1), ('IA', 1), ('interface', 2)]
ALT = {'uint8': ['uint8', 'int8'], 'uint16': ['uint16', 'int16'], 'uint32': ['uint32', 'int32', 'float32'], 'uint64': ['uint64', 'int64', 'float64']}
KINDS = [('uint8', ''), ('uint64', ''), ('float32', ''), ('H4', ''), ('Q16', ''), ('B24', ''), ('buffer', ''), ('uint8', '[]'), ('uint32', '[]'), ('B2', '[]'), ('B24', '[]'),
         ('interface', ''), ('IA', ''), ('interface', '[1]'), ('IA', '[2]'), ('IA', '[3]'), ('interface', '[15]'), ('interface', '[16]'), ('O16', ''), ('O24', ''),
         ('uint8', '[2]'), ('B24', '[3]'), ('H4', '[1]'), ('interface', '[]'), ('IA', '[]'), ('O16', '[]'), ('O24', '[]'), ('O24', '[2]'), ('buffer', '[2]'), ('buffer', '[]'), ('Nope', ''), ('Nope', '[]'), ('Nope', '[3]')]


def one(text, name='x.idl'):
    return {name: text}


def structs(n, rng, alt):
    for i, seq in enumerate(itertools.product(ELEMS, repeat=n)):
        yield 'struct%d' % n, seq, alt


def struct_text(seq, rng, use):
    fs = ''.join(' %s%s f%d;' % (rng.choice(ALT.get(t, [t])), '' if c == 1 else '[%d]' % c, i) for i, (t, c) in enumerate(seq))
    s = 'struct T {%s };\n' % fs
    if use == 1:
        s += 'interface IT { method m(in T a); };\n'
    elif use == 2:
        s += 'struct TT { T a; T b; };\ninterface IT { method m(out TT a, out uint8 b); };\n'
    elif use == 3:
        s = 'struct TT { uint64 x; T a; };\n' + s
    parts = PRE.splitlines(True) + s.splitlines(True)
    if rng.random() < .4:
        rng.shuffle(parts)
    return ''.join(parts)


def nested(rng):
    """a misfit two and three levels down, next to structs that hide or repeat it"""
    inner = [[('uint8', 1)], [('uint8', 3)], [('uint16', 1)], [('uint32', 1)], [('uint64', 1)], [('interface', 1)], [('uint8', 4), ('uint32', 1)], [('uint16', 2), ('uint8', 2)], [('uint8', 8), ('O16', 1)]]
    for a in inner:
        for pre in (None, 'uint8', 'uint16', 'uint32', 'uint64'):
            for cnt in (1, 2, 3, 4, 8):
                for post in (None, 'uint8', 'uint32', 'uint64'):
                    t = 'struct In {%s };\n' % ''.join(' %s%s g%d;' % (t, '' if c == 1 else '[%d]' % c, i) for i, (t, c) in enumerate(a))
                    t += 'struct Mid { In x; };\n'
                    t += 'struct T {%s Mid%s m;%s };\n' % (' %s p;' % pre if pre else '', '' if cnt == 1 else '[%d]' % cnt, ' %s q;' % post if post else '')
                    yield 'nested', PRE + t


def params():
    for d in ('in', 'out'):
        for t, a in KINDS:
            yield 'param1', [(d, t, a)]
    pk = [(d, t, a) for d in ('in', 'out') for t, a in KINDS]
    for x in itertools.product(pk, repeat=2):
        yield 'param2', list(x)


def params3(rng, n):
    pk = [(d, t, a) for d in ('in', 'out') for t, a in KINDS[:20]]
    for _ in range(n):
        yield 'param3', [rng.choice(pk) for _ in range(3)]


def param_text(ps, names=None, pre='', post=''):
    names = names or ['a%d' % i for i in range(len(ps))]
    return PRE + 'interface IM { %smethod m(%s);%s };\n' % (pre, ', '.join('%s %s%s %s' % (d, t, a, n) for (d, t, a), n in zip(ps, names)), post)


def names():
    """every pair of same-named things, at every distance"""
    mem = {'method': 'method %s(in uint8 a);', 'opt': '#[optional] method %s();', 'error': 'error %s;', 'const': 'const uint32 %s = 1;', 'constf': 'const float64 %s = 1.5;'}
    for a in mem:
        for b in mem:
            for dist in (0, 1, 2, 3, 5, 9):
                for other in (False, True):
                    for files in (1, 2):
                        if dist == 0:
                            if files == 2:
                                continue
                            t = {'x.idl': 'interface I0 { %s method k(); %s };\n' % (mem[a] % 'Dup', mem[b] % 'Dup')}
                        else:
                            hi = 'interface I0 { method k0(); %s };\n' % (mem[a] % 'Dup')
                            lo = ''.join('interface I%d : I%d { %s };\n' % (i, i - 1, ('method k%d();' % i) if i % 2 else '') for i in range(1, dist))
                            lo += 'interface I%d : I%d { %s error LAST; };\n' % (dist, dist - 1, mem[b] % 'Dup')
                            if other:
                                lo += 'interface J1 : I%d { };\ninterface J0 : I0 { error JE; };\n' % dist
                            t = {'x.idl': hi + lo} if files == 1 else {'x.idl': 'include "y.idl"\n' + lo, 'y.idl': hi}
                        yield 'member-%s-%s' % (a, b), t
            # siblings: no conflict
            yield 'sibling-%s-%s' % (a, b), {'x.idl': 'interface I0 { method k0(); };\ninterface I1 : I0 { %s };\ninterface I2 : I0 { %s };\n' % (mem[a] % 'Dup', mem[b] % 'Dup')}
    top = {'struct': 'struct %s { uint8 a; };\n', 'interface': 'interface %s { method q(); };\n', 'const': 'const uint8 %s = 3;\n'}
    for a in top:
        for b in top:
            for name in ('Dup', 'Other'):
                A, B = top[a] % 'Dup', top[b] % name
                yield 'top-%s-%s' % (a, b), {'x.idl': A + B}
                yield 'top-%s-%s' % (a, b), {'x.idl': A + 'struct M { uint8 a; };\ninterface IM { method z(); };\n' + B}
                yield 'top-%s-%s' % (a, b), {'x.idl': 'include "y.idl"\n' + A, 'y.idl': B}
                yield 'top-%s-%s' % (a, b), {'x.idl': 'include "y.idl"\n', 'y.idl': A + B}
                yield 'top-%s-%s' % (a, b), {'x.idl': 'include "y.idl"\ninclude "z.idl"\n', 'y.idl': A, 'z.idl': B}
                yield 'top-%s-%s' % (a, b), {'x.idl': 'include "y.idl"\n' + A, 'y.idl': 'include "z.idl"\nstruct Y { uint8 a; };\n', 'z.idl': B}
                yield 'top-%s-%s' % (a, b), {'x.idl': 'include "y.idl"\ninclude "z.idl"\nstruct Y { uint8 a; };\n', 'y.idl': 'include "z.idl"\n' + A, 'z.idl': B}
    fs = ['uint8', 'uint32', 'uint64', 'Q16', 'interface']
    for n in range(2, 7):
        for i, j in itertools.combinations(range(n), 2):
            for t in fs:
                for clash in (True, False):
                    nm = ['f%d' % k for k in range(n)]
                    if clash:
                        nm[j] = nm[i]
                    yield 'field', {'x.idl': PRE + 'struct T {%s };\n' % ''.join(' %s[%d] %s;' % (t if k in (i, j) else 'uint64', 8, nm[k]) for k in range(n))}
                    for da, db in itertools.product(('in', 'out'), repeat=2):
                        ps = [('in' if k % 2 else 'out', 'uint16', '') for k in range(n)]
                        ps[i] = (da,) + KINDS[(i * 7 + j) % 11]
                        ps[j] = (db,) + KINDS[(i + n) % 11]
                        if t in ('uint8', 'interface'):
                            yield 'params', {'x.idl': param_text(ps, nm)}


def limits():
    """argument counts around 15, in every composition"""
    big = [('buffer', ''), ('uint16', '[]'), ('B24', ''), ('B24', '[]')]
    for d in ('in', 'out'):
        for n in (1, 14, 15, 16, 17, 30, 31, 32, 33, 255, 256, 257, 271, 272, 512):
            for t, a in big:
                for small in (0, 1, 2, 5):
                    for o in (False, True):
                        ps = [(d, t, a)] * n + [(d, 'uint32', '')] * small
                        if o:
                            ps = [('out' if d == 'in' else 'in', 'uint8', '')] + ps[::-1]
                        yield 'buffers', {'x.idl': param_text(ps)}
        for n in (1, 14, 15, 16, 17, 32, 255, 256, 257, 271, 272, 512):
            yield 'objects', {'x.idl': param_text([(d, 'interface', '')] * n)}
            yield 'objects', {'x.idl': param_text([(d, 'IA', '')] * n)}
            yield 'objects', {'x.idl': param_text([(d, 'O16', '')] * n)}
            for t in ('interface', 'IA'):
                yield 'objects', {'x.idl': param_text([(d, t, '[%d]' % n)])}
                yield 'objects', {'x.idl': param_text([(d, t, '[%d]' % n)] + [('out' if d == 'in' else 'in', 'IA', '')] * 3)}
            for k in (1, 2, 13, 14, 15):
                if n <= 16:
                    yield 'objects', {'x.idl': param_text([(d, 'O16', '')] * k + [(d, 'interface', '')] * (n - k if n > k else 1))}
            yield 'objects', {'x.idl': PRE + 'struct T { interface[%d] a; };\ninterface IM { method m(%s T a); };\n' % (n, d)}
            yield 'objects', {'x.idl': PRE + 'struct U { IA a; };\nstruct T { U[%d] a; };\ninterface IM { method m(%s T a); };\n' % (n, d)}
        for n in (65535, 32768, 4096, 65536, 65537, 65540, 131073, 2 ** 32 + 1, 2 ** 64 + 1):
            yield 'objects', {'x.idl': param_text([(d, 'interface', '[%d]' % n)])}
            yield 'objects', {'x.idl': param_text([(d, 'IA', '[%d]' % n)])}


def cycles():
    for n in (1, 2, 3, 4, 7, 20, 64, 70):
        for lead in (0, 1, 2, 5):
            for cut in (False, True):
                for use in (0, 1, 2):
                    for cnt in ('', '[2]'):
                        ds = ['struct L%d { uint64 a; %s b; };\n' % (i, 'L%d' % (i + 1) if i + 1 < lead else 'C0') for i in range(lead)]
                        ds += ['struct C%d { %s };\n' % (i, 'C%d%s b;' % ((i + 1) % n, cnt) if not (cut and i == n - 1) else 'uint64 b;') for i in range(n)]
                        if use == 1:
                            ds.append('interface IC { method m(in C%d a); };\n' % (n - 1))
                        elif use == 2:
                            ds.reverse()
                        if cnt and n > 7 and cut:
                            continue
                        yield 'structcycle', {'x.idl': ''.join(ds)}
                    ds = ['interface L%d : %s { method l%d(); };\n' % (i, 'L%d' % (i + 1) if i + 1 < lead else 'C0', i) for i in range(lead)]
                    ds += ['interface C%d%s { %s };\n' % (i, '' if cut and i == n - 1 else ' : C%d' % ((i + 1) % n), 'method c%d();' % i if use != 1 else '') for i in range(n)]
                    if use == 2:
                        ds.reverse()
                    yield 'ifacecycle', {'x.idl': ''.join(ds)}


def bigstruct():
    """totals and offsets around 2^8, 2^12, 2^15, 2^16 and 2^17 bytes, next to what they misalign"""
    w = {'uint8': 1, 'int16': 2, 'float32': 4, 'uint64': 8, 'H4': 4, 'Q16': 16}
    for n in (255, 256, 257, 4095, 4096, 8191, 8192, 8193, 16384, 16385, 32767, 32768, 32769, 65534, 65535):
        for t in w:
            c = n // w[t] if n < 8000 else n
            if not c:
                continue
            for post in (None, 'uint8', 'uint16', 'uint32', 'uint64', 'B2', 'interface'):
                yield 'bigstruct', {'x.idl': PRE + 'struct T { %s[%d] a;%s };\n' % (t, c, ' %s b;' % post if post else '')}
                if post and t in ('uint8', 'uint64', 'Q16'):
                    yield 'bigstruct', {'x.idl': PRE + 'struct T { uint64[%d] p; %s[%d] a; %s[%d] b; };\ninterface IM { method m(in T x, out T y); };\n' % (8192, t, c, post, 8 if post != 'interface' else 1)}
                    yield 'bigstruct', {'x.idl': PRE + 'struct L { %s[%d] a; };\nstruct T { L x; %s y; };\n' % (t, c, post)}


def far(n):
    """duplicates (and near misses) among many declarations"""
    ends = [(0, n - 1), (n - 2, n - 1), (n // 2, n - 1), (0, n // 2), (1, 2), (0, 1), (n // 3, n // 2), None]
    for e in ends:
        def nm(pre, names=None):
            l = ['%s%d' % (pre, k) for k in range(n)]
            if e:
                l[e[1]] = l[e[0]]
            return l
        for pre in ('f', 'a_rather_long_name_that_is_shared_by_all_of_its_siblings_up_to_the_last_few_letters_and_goes_on_beyond_a_hundred_and_thirty_bytes_'):
            yield 'far', {'x.idl': 'struct T {%s };\n' % ''.join(' uint32 %s;' % x for x in nm(pre) + (['tail'] if n % 2 else []))}
            yield 'far', {'x.idl': 'interface IT { method m(%s); };\n' % ', '.join('%s uint8 %s' % ('out' if k % 3 else 'in', x) for k, x in enumerate(nm(pre)))}
            yield 'far', {'x.idl': 'interface IT {%s };\n' % ''.join(' method %s();' % x for x in nm(pre))}
            yield 'far', {'x.idl': 'interface IT {%s };\n' % ''.join(' error %s;' % x for x in nm(pre))}
            yield 'far', {'x.idl': 'interface IT {%s };\n' % ''.join(' const uint16 %s = 7;' % x for x in nm(pre))}
            yield 'far', {'x.idl': 'interface IB {%s };\ninterface IT : IB {%s };\n' % (''.join(' method %s();' % x for x in nm(pre)[:n // 2]), ''.join(' error %s;' % x for x in nm(pre)[n // 2:]))}
            yield 'far', {'x.idl': 'interface IT {%s };\n' % ''.join((' method %s(in uint8 a);', ' error %s;', ' const int32 %s = -7;')[k % 3] % x for k, x in enumerate(nm(pre)))}
            yield 'far', {'x.idl': ''.join(('struct %s { uint8 a; };\n', 'interface %s { method q(); };\n', 'const uint8 %s = 3;\n')[k % 3] % x for k, x in enumerate(nm(pre)))}
            l = nm(pre)
            yield 'far', {'x.idl': ''.join('include "i%d.idl"\n' % k for k in range(n)), **{'i%d.idl' % k: 'struct %s { uint8 a; };\n' % x for k, x in enumerate(l)}}
        # unknown types, unmet restrictions and values out of range behind many good ones
        for k in {0, n // 2, n - 1} if e is None else ():
            for bad in (False, True):
                good = ['uint32 f%d;' % i for i in range(n)]
                for t in ('Nope', 'uint64', 'uint8'):
                    g = list(good)
                    g[k] = '%s f%d;' % (t if bad else 'float32', k)
                    yield 'far', {'x.idl': 'struct T { %s };\n' % ' '.join(g)}
                ps = ['%s uint16 p%d' % ('in' if i % 2 else 'out', i) for i in range(n)]
                for t in ('Nope', 'Nope[]', 'O16[]', 'interface[]', 'uint8[2]', 'interface[16]'):
                    q = list(ps)
                    q[k] = 'in %s p%d' % (t if bad else 'interface[15]', k)
                    yield 'far', {'x.idl': PRE + 'interface IT { method m(%s); };\n' % ', '.join(q)}
                cs = ['const uint8 c%d = 255;\n' % i for i in range(n)]
                cs[k] = 'const uint8 c%d = %d;\n' % (k, 256 if bad else 254)
                yield 'far', {'x.idl': ''.join(cs)}
                yield 'far', {'x.idl': 'interface IT { %s };\n' % ''.join(cs)}
                it = ['interface I%d { method m(); };\n' % i for i in range(n)]
                it[k] = 'interface I%d : %s { method q(); };\n' % (k, 'Nope' if bad else 'I%d' % ((k + 1) % n))
                yield 'far', {'x.idl': ''.join(it)}
                it[k] = 'interface I%d { method m(in %s a); };\n' % (k, 'Nope' if bad else 'I%d' % ((k + 1) % n))
                yield 'far', {'x.idl': ''.join(it)}


def far_some(rng, thorough):
    for n in (33, 65, 66, 130, 257, 300) if thorough else (rng.choice([33, 65, 66]), rng.choice([130, 257, 300])):
        yield from far(n)
    for n in (0x3fff, 0x4000, 0x4001):
        for split in (0, 1, n - 1, n // 2):
            ms = ['method m%d();' % i for i in range(n)]
            yield 'oplimit', {'x.idl': ('interface IA { %s };\n' % ' '.join(ms[:split]) if split else '') + 'interface IB%s { error E; %s const uint8 K = 1; };\ninterface IC : IB { error F; };\n' % (' : IA' if split else '', '\n'.join(ms[split:]))}
    for n in (40, 49, 63, 64, 65, 97, 130, 200):
        for cut in (False, True):
            for lead in (0, 1, 60):
                ds = ['struct L%d { uint64 a; %s b; };\n' % (i, 'L%d' % (i + 1) if i + 1 < lead else 'C0') for i in range(lead)]
                ds += ['struct C%d { %s b; };\n' % (i, 'uint64' if cut and i == n - 1 else 'C%d' % ((i + 1) % n)) for i in range(n)]
                iff = ['interface L%d : %s { method l%d(); };\n' % (i, 'L%d' % (i + 1) if i + 1 < lead else 'C0', i) for i in range(lead)]
                iff += ['interface C%d%s { method c%d(); };\n' % (i, '' if cut and i == n - 1 else ' : C%d' % ((i + 1) % n), i) for i in range(n)]
                for l in (ds, iff):
                    yield 'farcycle', {'x.idl': ''.join(l if n % 2 else l[::-1])}
                if not lead:
                    yield 'farcycle', {('f%d.idl' % i if i else 'x.idl'): ('include "%s.idl"\n' % ('x' if i == n - 1 else 'f%d' % (i + 1)) if not (cut and i == n - 1) else '') + 'struct S%d { uint8 a; };\n' % i for i in range(n)}


def consts():
    for t, (lo, hi) in fe.INT_LIMITS.items():
        for v in (lo, lo - 1, hi, hi + 1, 0, 1, -1, hi // 2 + 1, hi * 2 + 1, hi * 2 + 2, lo * 2 - 1, 2 ** 63, 2 ** 64, 2 ** 64 - 1, -2 ** 63, -2 ** 63 - 1, 2 ** 65 + 1):
            for f in ('%d', '0x%x', '0x%X', '00%d'):
                a = (f % abs(v)) if v >= 0 else '-' + f % -v
                for where in ('%s', 'interface IK { %s };', 'interface IK { method m(); error E; %s };\ninterface IL : IK { };'):
                    yield 'const', {'x.idl': where % ('const %s K = %s;' % (t, a)) + '\n'}
    for t in ('float32', 'float64', 'uint8', 'int64'):
        for d in list(range(1, 20)) + [25, 40, 60, 150, 300]:
            for a in ('0.' + '3' * d, '1.' + '0' * (d - 1) + '1', '-' + '7' * d + '.5', '9' * d, '0' * d + '1.25', '2.' + '0' * d, '9' * d + '.' + '9' * d, '-0.' + '0' * d + '5'):
                yield 'const', {'x.idl': 'const %s K = %s;\n' % (t, a)}
    for t in fe.INT_LIMITS:
        for a in ('1.0', '-0.5', '1.', '.5', '1e3', '1_0', '+1', '--1', '0b1', '0x', '-', '0xg', '- 1', '0X1', '1u', "'a'", '""', 'K', ''):
            yield 'const', {'x.idl': 'const %s K = %s;\n' % (t, a)}


def misc():
    A = '#[optional] '
    for n in range(0, 5):
        for sep in (' ', '\n', '/* c */ '):
            for ps in ('', 'in uint8 a'):
                yield 'attr', {'x.idl': 'interface I0 { method k(); %smethod m(%s); };\n' % (''.join('#[optional]' + sep for _ in range(n)), ps)}
    for bad in ('#[mandatory] ', '#[Optional] ', '#[optional, optional] ', '#optional ', '[optional] ', '#[optional', '#[] ', '#![optional] '):
        yield 'attr', {'x.idl': 'interface I0 { %smethod m(); };\n' % bad}
    for what in ('struct S { uint8 a; };', 'error E;', 'const uint8 K = 1;'):
        yield 'attr', {'x.idl': 'interface I0 { %s%s method m(); };\n' % (A, what)}
        yield 'attr', {'x.idl': A + what + '\n'}
    # undefined things, in every position, next to near misses
    decl = 'struct Sa { uint8 a; };\ninterface Ia { method q(); };\nconst uint8 Ka = 1;\n'
    for n in ('Sa', 'Ia', 'Ka', 'sa', 'SA', 'Sb', 'uint8', 'Uint8', 'buffer', 'interface', 'q', 'a', 'uint128', 'x', 'I0', 'T0'):
        yield 'undef', {'x.idl': decl + 'interface I0 : %s { method m(); };\n' % n}
        for arr in ('', '[]', '[2]'):
            for d in ('in', 'out'):
                yield 'undef', {'x.idl': decl + 'interface I0 { method m(%s %s%s z); };\n' % (d, n, arr)}
            yield 'undef', {'x.idl': decl + 'struct T0 { %s%s z; };\n' % (n, arr)}
        yield 'undef', {'x.idl': decl + 'const %s KK = 1;\n' % n}
        # visible only in a file that is not included / included by the includer
        yield 'undef', {'x.idl': 'interface I0 { method m(in %s z); };\n' % n, 'y.idl': decl}
        yield 'undef', {'x.idl': 'include "y.idl"\n' + decl, 'y.idl': 'interface I0 { method m(in %s z); };\n' % n}
        yield 'undef', {'x.idl': 'include "y.idl"\ninclude "z.idl"\n', 'y.idl': 'interface I0 { method m(in %s z); };\n' % n, 'z.idl': decl}
        yield 'undef', {'x.idl': 'include "y.idl"\n interface I0 : %s { method m(); };\n' % n, 'y.idl': 'include "z.idl"\n', 'z.idl': decl}


ODD = ['a b', ' a', 'a ', 'a+b', 'a-b', '1a', '1', 'a.b', '.a', 'a..b', 'h\u00e9', '\u65e5\u672c', "a'b", 'a$b', 'a%s', 'a%', 'a{}', 'a{b}', 'a(b', 'a)', 'a,b', 'a#b', 'a;b', 'a=b', 'a@b', 'a[0]', 'a&b', 'a~', 'a!', 'a^', 'a`', 'a*',
       'a?', 'a<b>', 'a|b', 'A', 'A' * 120, '_', '_a', '-', '--c', 'idl', 'a.IDL', 'a.idlx', 'include', 'interface', 'struct', 'a\tb', 'a/b', 'a b/c', 'a+/b', 'h\u00e9/b', '1/b', '../q/b', './b', './a b', '.a/b', 'a.b/c', 'a;b/c', 'x.d/b', 'a/./b', 'a/../b', "a'b/c", 'a#/b', 'a%/b', 'a//b', 'a/b c']


def includes():
    """names and paths of included files: anything goes that the file system takes"""
    for n in ODD:
        f = n + '.idl'
        stem = f.rsplit('/', 1)[-1][:-4]
        fam = 'inc-dir' if stem.isascii() and stem.isidentifier() and '..' not in n and '_' not in stem and stem == 'b' or stem == 'c' else 'inc-odd'
        if '../' in f:
            target = f.replace('a/../', '')
            target = target.replace('../q/', 'q/')
        else:
            target = f
        pre = 'w/' if '../q/' in f else ''
        for k in range(4):
            # used, unused, twice, through another file
            body = ['interface J { method m(in T t); };', 'interface J { method m(); };', 'include "%s"\ninterface J { method m(in T t); };' % f, 'interface J { method m(out T t); };'][k]
            fs = {target: 'struct T { uint32 a; };\n'}
            if k == 3:
                fs['x.idl'] = 'include "./%sy.idl"\n' % pre + body
                fs[pre + 'y.idl'] = 'include "./%s"\n' % f
            else:
                fs['x.idl'] = 'include "%s%s"\n' % ('w/' if pre else '', f) + body
                if pre:
                    fs['w/keep.idl'] = ''
            if 'a/../' in f:
                fs['a/keep.idl'] = ''
            yield fam, fs
            # a near miss: another name exists, not this one
            if k == 0:
                yield fam, {'x.idl': fs['x.idl'], 'zz' + os.path.basename(target): fs[target]}


GRAM = ['include', '"y.idl"', 'const', 'uint8', 'K', '=', '0x1f', ';', 'const', 'float32', 'KF', '=', '-1.5', ';',
        'struct', 'S', '{', 'uint8', '[', '6', ']', 'a', ';', 'H', '[', '1', ']', 'b', ';', 'interface', 'c', ';', '};',
        'interface', 'I', ':', 'J', '{', 'const', 'int8', 'KI', '=', '-1', ';', 'error', 'EA', ';', '/**\n d\n*/', 'method', 'ma', '(', ');',
        '#[optional]', 'method', 'mb', '(', 'in', 'uint8', 'a', ',', 'out', 'S', 'b', ',', 'in', 'buffer', 'c', ');',
        '#[optional]', 'method', 'mc', '(', 'out', 'uint8', '[', ']', 'a', ',', 'in', 'interface', '[', '2', ']', 'b', ',', 'out', 'I', 'c', ',', 'in', 'H', '[', ']', 'd', ');', '};']
GRAMY = 'struct H { uint16 g; };\ninterface J { method mz(); };\n'
CORE = 16
SEPS = ['', '\t', '\r', '\r\n', '/**/', '//\n', '//\r', '// \f x\r\n', '\f', '\v', '\u00a0', '\u2028', ' /* */ ', '/**\n*/', '/***/', '/*/ */', '///\n']
DECS = ['struct S {%s };', 'interface I {%s };', '%s', 'interface I { method m(%s); };', 'interface I { #[optional]%smethod m(); };', 'struct S { uint8%s a; };', 'interface I %s { };', 'const uint8 K %s;', 'const uint8 K = %s;', 'error %s;',
        'interface I { error %s; };', 'interface I { method %s(); };', 'interface I { method m(in uint8 a%s); };', 'interface I { method m(in H%s a); };\nstruct H { uint8 a; };', 'include %s', 'interface I { method m(); %s method n(); };', 'struct S { uint8 a; %s uint8 b; };']
INS = [',', ';', ':', '{', '(', ')', '[', ']', '#', '1', 'x', '-', ', x', ': x', '= 1', '. x', '};', ');', '}', '[]', '[2]', '#[optional]', '=', '0x1', '1.5', 'in', 'out', 'x', 'method', 'const', 'struct', 'interface', 'error', 'include', 'buffer', 'uint8', 'optional', '"', '"y.idl"',
       '<', '/*', '*/', '//', '/**/', '/** */', '/**\n*/', '///', '\f', '\v', '\0', '\u00a0', '\u2003', '\ufeff', '\u2028', '\u0085', '_', '@', '.', '+', '\\', "'", '?', '&', '*', '!', '\r', '\x1a', 'H', 'J', 'K', 'I', 'method q();', 'error E', 'const', 'in uint8 q', ', in uint8 q', 'in uint8 q,', 'uint8 q;', 'uint8 q', '| x', '[1] [1]', '()', '{ }', '{ };', '< x >', '<x>', '-> x', '-> uint8', '= x', 'as x', 'x, x', 'x : x', 'x = 1', '* x', '& x', '... x', '1 + 1', '1 << 1', '1u', '1L', '"a"', "'a'", 'true', 'throws x', 'extends J', '@x', '@x()', '::x', 'J, J', ', J', 'x.x']


def grammar(part=0):
    """a program that uses the whole grammar, with one token more, less, twice or exchanged, and every separator removed"""
    toks = GRAM
    seps = ['\n' if t in (';', '};', '"y.idl"', ');') or t[:1] in '#/' else ' ' for t in toks[:-1]]

    def mk(ts, ss):
        return {'x.idl': ''.join(a + b for a, b in zip(ts, ss + [''])) + '\n', 'y.idl': GRAMY}
    n = len(toks)
    yield 'gram', mk(toks, seps)
    for i in range(n):
        if part == 0:
            yield 'gram', mk(toks[:i] + toks[i + 1:], seps[:i] + seps[i + 1:] + [''])
            yield 'gram', mk(toks[:i + 1] + toks[i:], seps[:i] + [' '] + seps[i:])
            if i + 1 < n:
                yield 'gram', mk(toks[:i] + [toks[i + 1], toks[i]] + toks[i + 2:], seps)
                for sp in SEPS:
                    yield 'gram', mk(toks, seps[:i] + [sp] + seps[i + 1:])
        for t in INS[:CORE] if part == 0 else INS[CORE:]:
            yield 'gram', mk(toks[:i] + [t] + toks[i:], seps[:i] + [' '] + seps[i:])
            yield 'gram', mk(toks[:i] + [t] + toks[i + 1:], seps)
            # glued to the token
            if part:
                yield 'gram', mk(toks[:i] + [toks[i] + t] + toks[i + 1:], seps)
    # the same, in a declaration that says little else
    for dec in DECS:
        two = part and ('(' in dec or 'S {%' in dec or 'I {%' in dec)
        for a in [''] + INS:
            for b in [''] + INS if two else ['']:
                yield 'gram', {'x.idl': dec % (' %s %s ' % (a, b)) + '\n', 'y.idl': GRAMY}


def letters():
    """every token of that program with one character more, less or of the other case"""
    seps = ['\n' if t in (';', '};', '"y.idl"', ');') or t[:1] in '#/' else ' ' for t in GRAM[:-1]] + ['\n']
    done = set()
    for i, t in enumerate(GRAM):
        alts = set()
        for c in 'abcdefghijklmnopqrstuvwxyzABXZ0123456789_$.-+':
            alts |= {c + t, t + c}
            alts |= {t[:k] + c + t[k:] for k in range(1, len(t))} if c in 'asxX0169_' else set()
        for k in range(len(t)):
            alts |= {t[:k] + t[k + 1:], t[:k] + t[k].swapcase() + t[k + 1:], t[:k] + ' ' + t[k:], t[:k] + '\n' + t[k:], t[:k] + '/**/' + t[k:]}
        alts |= {t.upper(), t.lower(), t.title()}
        for a in sorted(alts - {t}):
            if (t, a, GRAM[i - 1]) not in done:
                done.add((t, a, GRAM[i - 1]))
                yield 'gram', {'x.idl': ''.join(x + y for x, y in zip(GRAM[:i] + [a] + GRAM[i + 1:], seps)), 'y.idl': GRAMY}


def grammar1():
    return grammar(1)


def catalogue(rng, thorough):
    """(family, files)"""
    for n in (1, 2):
        for i, seq in enumerate(itertools.product(ELEMS, repeat=n)):
            yield 'struct%d' % n, one(struct_text(seq, rng, i % 4))
    all3 = list(itertools.product(ELEMS, repeat=3))
    for i, seq in enumerate(all3 if thorough else rng.sample(all3, 1500)):
        yield 'struct3', one(struct_text(seq, rng, i % 4))
    l = list(nested(rng))
    for f, t in (l if thorough else rng.sample(l, 350)):
        yield f, one(t)
    l = list(params())
    l = l if thorough else [x for x in l if x[0] == 'param1'] + rng.sample([x for x in l if x[0] != 'param1'], 1200)
    for f, ps in itertools.chain(l, params3(rng, 9000 if thorough else 500)):
        k = rng.randrange(4)
        yield f, one(param_text(ps, None, ['', 'method k(); ', '#[optional] ', 'error E; '][k], ['', ' error Z;', ' method z(in uint8 a);', ''][k]))
    for g, q in ((names, 900), (limits, 500), (cycles, 300), (consts, 700), (misc, 400), (includes, 400), (grammar, 9999), (grammar1, 900), (letters, 1300), (bigstruct, 250),
                 (lambda: far_some(rng, thorough), 9999)):
        l = list(g())
        for f, fs in (l if thorough else rng.sample(l, min(q, len(l)))):
            yield f, fs


def run(ctx, want, bins, judge, share=1, source=None):
    """compile every enumerated file set the reference front end puts on side
    `want` ('accept' / 'reject' / None for both); judge(...) turns the runs into a problem or None"""
    rng = random.Random(ctx.rng.getrandbits(48))
    todo = []
    for i, (fam, fs) in enumerate(source() if source else catalogue(rng, ctx.thorough)):
        if ctx.thorough or share == 1 or rng.random() < share:
            todo.append((i, fam, fs))
    chunks = [todo[k:k + 60] for k in range(0, len(todo), 60)]

    def work(ch):
        out = []
        if ctx.left() < 30:
            return None
        root = ctx.mkdir('sweep%d' % ch[0][0])
        for i, fam, fs in ch:
            d = os.path.join(root, str(i))
            os.makedirs(d)
            for k, v in fs.items():
                os.makedirs(os.path.dirname(os.path.join(d, k)), exist_ok=True)
                with open(os.path.join(d, k), 'w', newline='') as fh:
                    fh.write(v)
            main = os.path.join(d, 'x.idl')
            v, why, info = fe.verdict(main)
            if v == 'unknown' or (want and v != want):
                out.append((fam, v, why, fs, None))
            else:
                cfgs = [c[0] for c in acc.CFGS]
                if v == 'accept' and info['structobj']:
                    cfgs.remove('java')
                if fam == 'oplimit':
                    cfgs = [c for c in cfgs if c != 'rust']
                if fam == 'inc-odd':
                    # the Rust output names modules after files
                    cfgs = [c for c in cfgs if c != 'rust']
                ks = sorted(bins)
                res = []
                for k in range(len(ks) if want is None else 2):
                    cfg = cfgs[(i + 3 * k + i // 6 if want else i) % len(cfgs)]
                    b = ks[(i + k) % len(ks)]
                    fl = ['--no-typed-objects'] if i % 5 == 0 else []
                    r, got = acc.compile_one(bins[b], main, cfg, os.path.join(d, 'o%d' % k, 'out'), extra=fl)
                    res.append((b, cfg, r, got))
                differ = want is None and (len({r.returncode == 0 for _, _, r, _ in res}) > 1 or (res[0][2].returncode == 0 and any(g != res[0][3] for _, _, _, g in res)))
                out.append((fam, v, why, fs, [(b, cfg, r.returncode, judge(r, got, v, why, cfg), differ and sorted(got)) for b, cfg, r, got in res]))
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(root, ignore_errors=True)
        return out
    for w in common.procmap(work, chunks):
        if w is None:
            ctx.count('sweep_chunks_skipped_for_time')
            continue
        for fam, v, why, fs, res in w:
            if res is None:
                ctx.count('sweep_other_side' if v != 'unknown' else 'sweep_unjudged')
                continue
            files = {'idl/' + k: t for k, t in fs.items()}
            ctx.count('sweep_%s_%s' % (v, fam.split('-')[0]))
            for b, cfg, rc, bad, got in res:
                ctx.case(('sweep', fam, v, cfg, b, tuple(sorted(fs.items()))))
                ctx.count('sweep_runs')
                if bad:
                    ctx.violation('sweep:%s:%s:%s:%s' % (bad[0], fam, cfg, b), '%s, %s build, %s: %s' % (fam, b, cfg, bad[1]), files)
            if want is None:
                if res[0][4] is not False:
                    ctx.violation('sweep:builds:%s:%s' % (fam, res[0][1]), '%s %s: builds disagree: %s' % (fam, res[0][1], [(b, rc, g) for b, _, rc, _, g in res]), files)
