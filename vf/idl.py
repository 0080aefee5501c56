"""IDL model, renderer and the independent reference semantics.

Written from the property statements / README, not from the compiler sources:
struct layout, marshalling plan, numbering, literal values.
"""
PRIMS = {'uint8': 1, 'int8': 1, 'uint16': 2, 'int16': 2, 'uint32': 4, 'int32': 4,
         'uint64': 8, 'int64': 8, 'float32': 4, 'float64': 8}
PRIM_NAMES = list(PRIMS)
OBJ = 16  # object slot in a struct


class Struct:
    kind = 'struct'

    def __init__(self, name, fields):
        self.name = name
        self.fields = fields  # (type, count, name); type = prim | struct name | iface name | 'interface'


class Const:
    kind = 'const'

    def __init__(self, ty, name, lit):
        self.ty, self.name, self.lit = ty, name, lit


class Error:
    kind = 'error'

    def __init__(self, name):
        self.name = name


class Param:
    """pk: prim | buffer | primarr | struct | structarr | obj | objarr"""

    def __init__(self, dir, pk, ty, name, cnt=None):
        self.dir, self.pk, self.ty, self.name, self.cnt = dir, pk, ty, name, cnt

    def text(self):
        if self.pk == 'buffer':
            t = 'buffer'
        elif self.pk in ('primarr', 'structarr'):
            t = self.ty + '[]'
        elif self.pk == 'objarr':
            t = '%s[%s]' % (self.ty or 'interface', self.cnt)
        elif self.pk == 'obj':
            t = self.ty or 'interface'
        else:
            t = self.ty
        return '%s %s %s' % (self.dir, t, self.name)


class Method:
    kind = 'method'

    def __init__(self, name, params, optional=False, doc=None):
        self.name, self.params, self.optional, self.doc = name, params, optional, doc

    def text(self):
        s = ''
        if self.doc is not None:
            s += '/**\n' + self.doc + '*/\n  '
        if self.optional:
            s += '#[optional]\n  '
        return s + 'method %s(%s);' % (self.name, ', '.join(p.text() for p in self.params))


class Interface:
    kind = 'interface'

    def __init__(self, name, base, members):
        self.name, self.base, self.members = name, base, members

    @property
    def methods(self):
        return [m for m in self.members if m.kind == 'method']

    @property
    def errors(self):
        return [m for m in self.members if m.kind == 'error']

    @property
    def consts(self):
        return [m for m in self.members if m.kind == 'const']


class Raw:
    """verbatim text at file scope (used by negative generators)"""
    kind = 'raw'

    def __init__(self, text):
        self.text_ = text
        self.name = None


def const_text(c):
    return 'const %s %s = %s;' % (c.ty, c.name, c.lit)


def decl_text(d):
    if d.kind == 'raw':
        return d.text_
    if d.kind == 'const':
        return const_text(d)
    if d.kind == 'struct':
        b = ''.join('  %s%s %s;\n' % (t, '[%d]' % c if c != 1 else '', n) for t, c, n in d.fields)
        return 'struct %s {\n%s};' % (d.name, b)
    b = ''
    for m in d.members:
        if m.kind == 'raw':
            b += '  ' + m.text_ + '\n'
        elif m.kind == 'const':
            b += '  ' + const_text(m) + '\n'
        elif m.kind == 'error':
            b += '  error %s;\n' % m.name
        else:
            b += '  ' + m.text() + '\n'
    return 'interface %s%s {\n%s};' % (d.name, ' : ' + d.base if d.base else '', b)


class File:
    def __init__(self, path, includes, decls):
        self.path, self.includes, self.decls = path, includes, decls

    def text(self):
        return ''.join('include "%s"\n' % i for i in self.includes) + \
            '\n'.join(decl_text(d) for d in self.decls) + '\n'


class Program:
    """files[0] is the main file. All files are reachable."""

    def __init__(self, files):
        self.files = files
        self.reindex()

    def reindex(self):
        self.structs, self.ifaces, self.consts, self.where = {}, {}, {}, {}
        for f in self.files:
            for d in f.decls:
                if d.kind == 'struct':
                    self.structs[d.name] = d
                elif d.kind == 'interface':
                    self.ifaces[d.name] = d
                elif d.kind == 'const':
                    self.consts[d.name] = d
                self.where[d.name] = f

    def write(self, root):
        import os
        for f in self.files:
            p = os.path.join(root, f.path)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as fh:
                fh.write(f.text())
        return os.path.join(root, self.files[0].path)

    def text(self):
        return '\n'.join('// ---- %s\n%s' % (f.path, f.text()) for f in self.files)

    # -- reference semantics -------------------------------------------------
    def is_struct(self, t):
        return t in self.structs

    def tsize(self, t):
        if t in PRIMS:
            return PRIMS[t]
        if t in self.structs:
            return self.layout(t)[0]
        return OBJ

    def talign(self, t):
        if t in PRIMS:
            return PRIMS[t]
        if t in self.structs:
            return max(self.talign(f[0]) for f in self.structs[t].fields)
        return 8

    def layout(self, name):
        """(size, [(field name, offset)]) packed layout."""
        off, out = 0, []
        for t, c, n in self.structs[name].fields:
            out.append((n, off))
            off += self.tsize(t) * c
        return off, out

    def layout_ok(self, name):
        off, al = 0, 1
        for t, c, n in self.structs[name].fields:
            a = self.talign(t)
            if t in self.structs and not self.layout_ok(t):
                return False
            if off % a:
                return False
            al = max(al, a)
            off += self.tsize(t) * c
        return off % al == 0 and off > 0

    def objects(self, name):
        """Object leaves of a struct: [(path, iface or None)] path = list of
        (field, index or None), in declaration (depth-first) order."""
        out = []
        for t, c, n in self.structs[name].fields:
            idxs = [None] if c == 1 else range(c)
            for i in idxs:
                if t in PRIMS:
                    continue
                if t in self.structs:
                    for p, ty in self.objects(t):
                        out.append(([(n, i)] + p, ty))
                else:
                    out.append(([(n, i)], None if t == 'interface' else t))
        return out

    def chain(self, iname):
        c = []
        while iname:
            c.append(self.ifaces[iname])
            iname = self.ifaces[iname].base
        return c[::-1]

    def methods(self, iname):
        """[(op, owner iface, method)] root first."""
        out = []
        for i in self.chain(iname):
            for m in i.methods:
                out.append((len(out), i.name, m))
        return out

    def errors(self, iname):
        out = []
        for i in self.chain(iname):
            for e in i.errors:
                out.append((10 + len(out), i.name, e.name))
        return out

    def is_fixed(self, p):
        return p.pk in ('prim', 'struct')

    def psize(self, p):
        return self.tsize(p.ty)

    def wire(self, m):
        """Reference marshalling plan.

        BI/BO: list of ('bundle', [params]) / ('one', p) / ('buf', p, elem size)
        OI/OO: list of (param, path or None, idx or None)"""
        w = {}
        for d, B, O in (('in', 'BI', 'OI'), ('out', 'BO', 'OO')):
            ps = [p for p in m.params if p.dir == d]
            small = [p for p in ps if self.is_fixed(p) and self.psize(p) <= 16]
            bufs = []
            if len(small) >= 2:
                bufs.append(('bundle', sorted(small, key=lambda p: -self.psize(p))))
            else:
                small = []
            for p in ps:
                if p in small:
                    continue
                if self.is_fixed(p):
                    bufs.append(('one', p))
                elif p.pk == 'buffer':
                    bufs.append(('buf', p, 1))
                elif p.pk in ('primarr', 'structarr'):
                    bufs.append(('buf', p, self.tsize(p.ty)))
            objs = []
            for p in ps:
                if p.pk == 'obj':
                    objs.append((p, None, None))
                elif p.pk == 'objarr':
                    objs += [(p, None, i) for i in range(p.cnt)]
                elif p.pk == 'struct':
                    objs += [(p, path, None) for path, _ in self.objects(p.ty)]
            w[B], w[O] = bufs, objs
        return w

    def counts(self, m):
        w = self.wire(m)
        return tuple(len(w[k]) for k in ('BI', 'BO', 'OI', 'OO'))


def pack_counts(c):
    return c[0] | c[1] << 4 | c[2] << 8 | c[3] << 12
