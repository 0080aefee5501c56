"""Independent reference front end: a recogniser of the published grammar
(PEG, as documented in idl_grammar.pest) and the documented restrictions.

verdict(files, main, flags) -> ('accept'|'reject'|'unknown', reason)
Unknown = the documents do not settle it; such inputs are not judged.
"""
import os, re
from .idl import PRIMS, OBJ

WS = ' \t\n\r'
DIGITS = set('0123456789')
ALPHA = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
ID_RE = re.compile(r'[A-Za-z][A-Za-z0-9_]*')
PRIM_RE = re.compile(r'u?int(?:8|16|32|64)|float(?:32|64)')
VAL_RE = re.compile(r'-?0x[0-9A-Fa-f]+|-?[0-9]+(?:\.[0-9]+)?')
NUM_RE = re.compile(r'[0-9]+')
SKIP_RE = re.compile(r'(?:[ \t\n\r]|/\*(?:(?!\*/).)*\*/|//[^\n\r]*)*', re.S)
# a comment that starts `/**` + newline is documentation; inside it only `*/` ends it
INT_LIMITS = {}
for _t, _s in PRIMS.items():
    if not _t.startswith('f'):
        INT_LIMITS[_t] = (0, 2 ** (8 * _s) - 1) if _t[0] == 'u' else (-2 ** (8 * _s - 1), 2 ** (8 * _s - 1) - 1)

RESERVED = set('''auto break case char const continue default do double else enum extern float for goto if inline int long register
restrict return short signed sizeof static struct switch typedef union unsigned void volatile while alignas alignof asm bool
catch class concept consteval constexpr constinit const_cast co_await co_return co_yield decltype delete dynamic_cast explicit
export false friend mutable namespace new noexcept nullptr operator private protected public reinterpret_cast requires
static_assert static_cast template this thread_local throw true try typeid typename using virtual wchar_t
abstract package synchronized boolean implements import throws instanceof transient extends final interface finally strictfp
native super byte assert
as crate dyn fn impl in let loop match mod move mut pub ref self Self static trait type unsafe use where async await box become
macro priv unsized yield try gen union abstract override typeof final do virtual
xor and or not bitand bitor compl and_eq or_eq xor_eq not_eq null char8_t char16_t char32_t record var sealed permits
buffer error include method out optional uint8 uint16 uint32 uint64 int8 int16 int32 int64 float32 float64'''.split())


class No(Exception):
    pass


class P:
    def __init__(self, s):
        self.s, self.i, self.far = s, 0, 0

    def skip(self):
        self.i = SKIP_RE.match(self.s, self.i).end()

    def lit(self, t):
        if not self.s.startswith(t, self.i):
            raise No(self.i)
        self.i += len(t)

    def rx(self, r):
        m = r.match(self.s, self.i)
        if not m:
            raise No(self.i)
        self.i = m.end()
        return m.group()

    def opt(self, f):
        """f or nothing"""
        j = self.i
        try:
            return f()
        except No:
            self.i = j
            return None

    def star(self, f, first=None):
        """pest `f*` with implicit skipping between the repetitions"""
        out = []
        while True:
            j = self.i
            try:
                if out:
                    self.skip()
                out.append(f())
            except No:
                self.i = j
                return out

    def alt(self, *fs):
        j = self.i
        for f in fs:
            try:
                return f()
            except No:
                self.i = j
        raise No(j)

    def ws(self):
        if self.i < len(self.s) and self.s[self.i] in WS:
            if self.s.startswith('\r\n', self.i):
                self.i += 2
            else:
                self.i += 1
            return
        raise No(self.i)

    def wstar(self):
        while self.i < len(self.s) and self.s[self.i] in WS:
            self.i += 1

    # ---- rules
    def include(self):
        self.lit('include')
        self.ws()
        self.wstar()
        self.lit('"')
        j = self.s.find('.idl', self.i)
        if j <= self.i:
            raise No(self.i)
        p = self.s[self.i:j + 4]
        self.i = j + 4
        self.lit('"')
        return ('include', p)

    def ident(self):
        return self.rx(ID_RE)

    def prim(self):
        return self.rx(PRIM_RE)

    def kw(self, k):
        self.lit(k)
        self.ws()

    def bounded(self):
        self.lit('[')
        self.skip()
        n = self.rx(NUM_RE)
        self.skip()
        self.lit(']')
        return n

    def unbounded(self):
        self.lit('[')
        self.skip()
        self.lit(']')
        return ''

    def field(self):
        t = self.alt(self.prim, self.ident)
        self.skip()
        n = self.opt(self.bounded)
        if n is not None:
            self.skip()
        # `x?` followed by `~`: the skip is idempotent
        name = self.ident()
        self.skip()
        self.lit(';')
        return (t, n, name)

    def notiface(self):
        if self.s.startswith('interface', self.i):
            raise No(self.i)
        self.skip()
        return self.ident()

    def struct(self):
        self.kw('struct')
        self.skip()
        n = self.notiface()
        self.skip()
        self.lit('{')
        self.skip()
        f = [self.field()] + self._more(self.field)
        self.skip()
        self.lit('};')
        return ('struct', n, f)

    def _more(self, f):
        out = []
        while True:
            j = self.i
            try:
                self.skip()
                out.append(f())
            except No:
                self.i = j
                return out

    def const(self):
        self.kw('const')
        self.skip()
        t = self.prim()
        self.skip()
        n = self.ident()
        self.skip()
        self.lit('=')
        self.skip()
        v = self.rx(VAL_RE)
        self.skip()
        self.lit(';')
        return ('const', t, n, v)

    def ptype(self):
        def a1():
            t = self.alt(self.ident, lambda: self.lit('interface') or 'interface')
            self.skip()
            return (t, self.bounded())

        def a2():
            t = self.alt(self.prim, self.notiface)
            self.skip()
            return (t, self.unbounded())
        return self.alt(a1, a2, lambda: (self.prim(), None), lambda: (self.ident(), None))

    def param(self):
        d = self.alt(lambda: self.lit('in') or 'in', lambda: self.lit('out') or 'out')
        self.skip()
        t, n = self.ptype()
        self.skip()
        return (d, t, n, self.ident())

    def function(self):
        attrs = 0
        while True:
            j = self.i
            try:
                self.wstar()
                self.lit('#[optional]')
                self.ws()
                attrs += 1
            except No:
                self.i = j
                break
        self.wstar()
        self.lit('method')
        self.ws()
        self.skip()
        name = self.ident()
        self.skip()
        self.lit('(')
        self.skip()
        ps = []
        p = self.opt(self.param)
        if p:
            ps.append(p)

        def more():
            self.lit(',')
            self.skip()
            return self.param()
        j = self.i
        self.skip()
        r = self.star(more)
        if not r:
            self.i = j
        ps += r
        self.skip()
        self.lit(');')
        return ('method', name, ps, attrs)

    def error(self):
        self.kw('error')
        self.skip()
        n = self.ident()
        self.skip()
        self.lit(';')
        return ('error', n)

    def interface(self):
        self.kw('interface')
        self.skip()
        n = self.ident()
        base = None
        j = self.i
        try:
            self.skip()
            self.lit(':')
            self.skip()
            base = self.ident()
        except No:
            self.i = j
        self.skip()
        self.lit('{')
        self.skip()
        m = self.star(lambda: self.alt(self.function, self.const, self.error))
        self.skip()
        self.lit('};')
        return ('interface', n, base, m)

    def idl(self):
        self.skip()
        inc = self.star(self.include)
        self.skip()
        d = self.star(lambda: self.alt(self.const, self.struct, self.interface))
        self.skip()
        if self.i != len(self.s):
            raise No(self.i)
        return [p for _, p in inc], d


def parse(text):
    """(includes, decls) or None"""
    try:
        return P(text).idl()
    except No:
        return None


class Reject(Exception):
    pass


class Unknown(Exception):
    pass


def const_check(t, v, ub):
    if t.startswith('f'):
        if v.startswith('-0x') or v.startswith('0x') or len(v) > 30:
            raise Unknown('float literal')
        return
    if ub:
        return
    if '.' in v:
        raise Reject('fractional integer constant')
    neg = v.startswith('-')
    b = v[1:] if neg else v
    x = int(b[2:], 16) if b.startswith('0x') else int(b)
    if neg and x == 0 and t[0] == 'u':
        raise Reject('signed literal for an unsigned type')
    x = -x if neg else x
    lo, hi = INT_LIMITS[t]
    if not lo <= x <= hi:
        raise Reject('constant out of range')


class Prog:
    pass


def _count(n):
    n = int(n)
    if not 1 <= n <= 65535:
        raise Unknown('array size %d' % n)
    return n


def check(asts, ub=False):
    """asts: list of (includes, decls) of the reachable files. Raises Reject or
    Unknown; the reject reasons are the documented restrictions."""
    unknown = []
    top, structs, ifaces = {}, {}, {}
    names = set()
    for _, decls in asts:
        for d in decls:
            n = d[2] if d[0] == 'const' else d[1]
            names.add(n)
            if n in top:
                raise Reject('duplicate top-level name ' + n)
            top[n] = d
            if n in PRIMS or n in ('buffer', 'interface'):
                unknown.append('declaration named ' + n)
            if d[0] == 'struct':
                structs[n] = d
            elif d[0] == 'interface':
                ifaces[n] = d
            else:
                try:
                    const_check(d[1], d[3], ub)
                except Unknown as e:
                    unknown.append(str(e))
    # ---- structs
    state, lay = {}, {}

    def struct(n):
        """(size, align, objects)"""
        if n in lay:
            return lay[n]
        if n in ifaces or n == 'interface':
            return OBJ, 8, 1
        if n not in structs:
            raise Reject('undefined type ' + n)
        if state.get(n):
            raise Reject('struct containment cycle at ' + n)
        state[n] = 1
        off, al, ob, seen = 0, 1, 0, set()
        for t, c, f in structs[n][2]:
            names.add(f)
            if f in seen:
                raise Reject('duplicate field ' + f)
            seen.add(f)
            k = 1
            if c is not None:
                k = int(c)
                if not 1 <= k <= 65535:
                    unknown.append('array size')
                    k = 1
            s, a, o = (PRIMS[t], PRIMS[t], 0) if t in PRIMS else struct(t)
            if off % a:
                raise Reject('misaligned member %s.%s' % (n, f))
            off += s * k
            al = max(al, a)
            ob += o * k
        if off % al:
            raise Reject('size of struct %s is not a multiple of its alignment' % n)
        if off > 2 ** 30:
            unknown.append('huge struct')
        lay[n] = (off, al, ob)
        return lay[n]
    for n in structs:
        struct(n)
    # ---- interfaces
    for n, d in ifaces.items():
        seen, chain = set(), []
        x = n
        while x is not None:
            if x in seen:
                raise Reject('inheritance cycle at ' + x)
            seen.add(x)
            if x not in ifaces:
                raise Reject('undefined base ' + x)
            chain.append(ifaces[x])
            x = ifaces[x][2]
        meth, con = set(), set()
        for it in chain:
            for m in it[3]:
                if m[0] == 'method':
                    if m[1] in meth:
                        raise Reject('duplicate method %s in %s' % (m[1], n))
                    meth.add(m[1])
                else:
                    c = m[1] if m[0] == 'error' else m[2]
                    if c in con:
                        raise Reject('duplicate constant or error %s in %s' % (c, n))
                    con.add(c)
        if len(meth) > 0x4000:
            unknown.append('too many methods')
        for m in d[3]:
            names.add(m[2] if m[0] == 'const' else m[1])
            if m[0] == 'const':
                try:
                    const_check(m[1], m[3], ub)
                except Unknown as e:
                    unknown.append(str(e))
            if m[0] != 'method':
                continue
            if m[3] > 1:
                raise Reject('repeated attribute')
            seen = set()
            arr, val, sobj = {'in': 0, 'out': 0}, {'in': 0, 'out': 0}, {'in': 0, 'out': 0}
            small, bufs, objs = {'in': 0, 'out': 0}, {'in': 0, 'out': 0}, {'in': 0, 'out': 0}
            for dr, t, c, pn in m[2]:
                names.add(pn)
                if pn in seen:
                    raise Reject('duplicate parameter ' + pn)
                seen.add(pn)
                if t == 'buffer':
                    if c is not None:
                        if c:
                            raise Reject('bounded array of data')
                    bufs[dr] += 1
                    continue
                isobj = t == 'interface' or t in ifaces
                if not isobj and t not in PRIMS and t not in structs:
                    raise Reject('undefined type ' + t)
                if isobj:
                    if c is None:
                        val[dr] += 1
                        objs[dr] += 1
                    elif c == '':
                        raise Reject('unbounded object array')
                    else:
                        k = int(c)
                        if not k:
                            unknown.append('array size')
                            k = 1
                        if arr[dr]:
                            raise Reject('two object arrays in one direction')
                        arr[dr] = 1
                        objs[dr] += k
                    continue
                s, _, o = (PRIMS[t], 1, 0) if t in PRIMS else struct(t)
                if c is not None:
                    if c:
                        raise Reject('bounded array of data')
                    if o:
                        raise Reject('array of a struct with objects')
                    bufs[dr] += 1
                else:
                    objs[dr] += o
                    sobj[dr] += o
                    if s <= 16:
                        small[dr] += 1
                    else:
                        bufs[dr] += 1
            for dr in ('in', 'out'):
                if arr[dr] and val[dr]:
                    raise Reject('object array and single object in one direction')
                if arr[dr] and sobj[dr]:
                    unknown.append('object array next to objects in structs')
                if bufs[dr] + min(small[dr], 1) > 15:
                    raise Reject('more than 15 buffers')
                if objs[dr] > 15:
                    raise Reject('more than 15 objects')
    if names & RESERVED:
        unknown.append('reserved words ' + ','.join(sorted(names & RESERVED)))
    if unknown:
        raise Unknown('; '.join(unknown[:3]))
    return {'structobj': any(v[2] for v in lay.values()), 'names': names, 'ifaces': list(ifaces), 'structs': list(structs),
            'consts': [n for n, d in top.items() if d[0] == 'const']}


def resolve(root, includes_dirs, cur, path):
    """first-match include resolution on disk; None if unresolved"""
    if os.path.dirname(path):
        p = os.path.join(os.path.dirname(cur), path)
        return os.path.realpath(p) if os.path.exists(p) else None
    for d in includes_dirs:
        p = os.path.join(d, path)
        if os.path.isfile(p):
            return os.path.realpath(p)
    return None


def load(main, incs=(), ub=False):
    """walk the include graph. Returns {canonical path: (includes, decls)}."""
    main = os.path.realpath(main)
    dirs = list(incs) + [os.path.dirname(main)]
    seen, stack = {}, set()

    def go(p):
        if p in stack:
            raise Reject('include cycle through ' + p)
        if p in seen:
            return
        try:
            txt = open(p, 'rb').read().decode('utf-8')
        except UnicodeDecodeError:
            raise Reject('not UTF-8')
        except IsADirectoryError:
            raise Reject('a directory')
        a = parse(txt)
        if a is None:
            raise Reject('grammar: ' + os.path.basename(p))
        seen[p] = a
        stack.add(p)
        for inc in a[0]:
            q = resolve(None, dirs, p, inc)
            if q is None:
                raise Reject('unresolved include ' + inc)
            go(q)
        stack.discard(p)
    go(main)
    return seen


def verdict(main, incs=(), ub=False):
    try:
        asts = load(main, incs, ub)
        info = check(list(asts.values()), ub)
        return 'accept', 'ok', info
    except Reject as e:
        return 'reject', str(e), None
    except Unknown as e:
        return 'unknown', str(e), None
    except RecursionError:
        return 'unknown', 'deep', None
