"""Generates per-program harness glue for the C, C++ and Rust backends."""
from .idl import *

CT = {'uint8': 'uint8_t', 'int8': 'int8_t', 'uint16': 'uint16_t', 'int16': 'int16_t', 'uint32': 'uint32_t',
      'int32': 'int32_t', 'uint64': 'uint64_t', 'int64': 'int64_t', 'float32': 'float', 'float64': 'double'}
RT = {'uint8': 'u8', 'int8': 'i8', 'uint16': 'u16', 'int16': 'i16', 'uint32': 'u32', 'int32': 'i32',
      'uint64': 'u64', 'int64': 'i64', 'float32': 'f32', 'float64': 'f64'}


def stem(path):
    return path.rsplit('/', 1)[-1][:-4]


def used_structs(prog):
    """structs in dependency order"""
    out, seen = [], set()

    def go(n):
        if n in seen:
            return
        seen.add(n)
        for t, _, _ in prog.structs[n].fields:
            if t in prog.structs:
                go(t)
        out.append(n)
    for n in prog.structs:
        go(n)
    return out


# ------------------------------------------------------------------ C / C++
def c_struct_helpers(prog):
    o = ''
    for n in used_structs(prog):
        rd = wr = dr = fl = fo = ''
        for t, c, f in prog.structs[n].fields:
            for i in ([None] if c == 1 else [0]):
                ref = 'v->%s' % f + ('[k]' if c != 1 else '')
                loop = 'for (size_t k = 0; k < %d; k++) ' % c if c != 1 else ''
                if t in PRIMS:
                    rd += '  %sin(&%s, sizeof %s);\n' % (loop, ref, ref)
                    wr += '  %sout(&%s, sizeof %s);\n' % (loop, ref, ref)
                elif t in prog.structs:
                    rd += '  %srd_%s(&%s, in, ret);\n' % (loop, t, ref)
                    wr += '  %swr_%s(&%s, out);\n' % (loop, t, ref)
                    dr += '  %sdr_%s(&%s);\n' % (loop, t, ref)
                    fl += '  %sfl_%s(&%s);\n' % (loop, t, ref)
                    fo += '  %sfo_%s(&%s);\n' % (loop, t, ref)
                else:
                    rd += '  %s{ uint32_t id; in(&id, 4); %s = ret ? rt_obj_ret(id) : rt_obj(id); }\n' % (loop, ref)
                    wr += '  %s{ uint32_t id = rt_obj_id(%s); out(&id, 4); }\n' % (loop, ref)
                    dr += '  %srt_drop(%s);\n' % (loop, ref)
                    fl += '  %s%s = rt_obj(60);\n' % (loop, ref)
                    fo += '  %srt_note("failobj", rt_obj_id(%s));\n' % (loop, ref)
        # fl: left over from an earlier use of the variable; fo: objects a failed call may not hand out
        o += 'static inline void fl_%s(%s *v) { (void)v;\n%s}\n' % (n, n, fl)
        o += 'static inline void fo_%s(%s *v) { (void)v;\n%s}\n' % (n, n, fo)
        o += 'static inline void rd_%s(%s *v, void (*in)(void *, size_t), int ret) { (void)v; (void)in; (void)ret;\n%s}\n' % (n, n, rd)
        o += 'static inline void wr_%s(const %s *v, void (*out)(const void *, size_t)) { (void)v; (void)out;\n%s}\n' % (n, n, wr)
        o += 'static inline void dr_%s(%s *v) { (void)v;\n%s}\n' % (n, n, dr)
    return o


C_UTIL = r'''
static inline uint32_t rdlen(void (*in)(void *, size_t)) { uint32_t n; in(&n, 4); return n; }
static inline void wrlen(void (*out)(const void *, size_t), size_t n) { uint32_t v = (uint32_t)n; out(&v, 4); }
static inline void wrid(void (*out)(const void *, size_t), Object o) { uint32_t v = rt_obj_id(o); out(&v, 4); }
'''


def elem_ct(p):
    if p.pk == 'buffer':
        return 'uint8_t'
    return CT.get(p.ty, p.ty)


def rd_elems(prog, p, arr, n, fn, ret=0):
    if p.pk == 'structarr':
        return 'for (size_t k = 0; k < %s; k++) rd_%s(&%s[k], %s, %d);' % (n, p.ty, arr, fn, ret)
    return 'if (%s) %s(%s, %s * sizeof(%s));' % (n, fn, arr, n, elem_ct(p))


def wr_elems(prog, p, arr, n, fn):
    if p.pk == 'structarr':
        return 'for (size_t k = 0; k < %s; k++) wr_%s(&%s[k], %s);' % (n, p.ty, arr, fn)
    return 'if (%s) %s(%s, %s * sizeof(%s));' % (n, fn, arr, n, elem_ct(p))


def cxx_client(prog, iface, m, be, cpp):
    pre, call, post, fail = '', [], '', ''
    for j, p in enumerate(m.params):
        v = 'p%d_' % j
        T = elem_ct(p)
        objT = (p.ty or 'ProxyBase') if cpp else 'Object'
        if p.dir == 'in':
            if p.pk == 'prim':
                pre += '  %s %s; rt_cin(&%s, sizeof %s);\n' % (T, v, v, v)
                call.append(v)
            elif p.pk == 'struct':
                pre += '  %s %s; memset((void *)&%s, 0, sizeof %s); rd_%s(&%s, rt_cin, %d);\n' % (T, v, v, v, p.ty, v, 0)
                call.append(v if cpp else '&' + v)
            elif p.pk in ('buffer', 'primarr', 'structarr'):
                pre += '  size_t n%s = rdlen(rt_cin); %s *%s = (%s *)rt_alloc(n%s * sizeof(%s)); %s\n' % (
                    v, T, v, T, v, T, rd_elems(prog, p, v, 'n' + v, 'rt_cin'))
                call += [v, 'n' + v]
            elif p.pk == 'obj':
                if cpp:
                    pre += '  %s %s(rt_obj_ret(rdlen(rt_cin)));\n' % (objT, v)
                else:
                    pre += '  Object %s = rt_obj(rdlen(rt_cin));\n' % v
                call.append(v)
            else:
                if cpp:
                    pre += '  %s %s[%d]; for (int k = 0; k < %d; k++) { Object o = rt_obj_ret(rdlen(rt_cin)); %s[k].consume(o); }\n' % (
                        objT, v, p.cnt, p.cnt, v)
                    call.append(v)
                else:
                    init = ', '.join('rt_obj(rdlen(rt_cin))' for _ in range(p.cnt))
                    pre += '  Object m%s[%d]; for (int k = 0; k < %d; k++) m%s[k] = rt_obj(rdlen(rt_cin));\n' % (v, p.cnt, p.cnt, v)
                    pre += '  %sObject %s[%d] = { %s };\n' % ('const ', v, p.cnt, ', '.join('m%s[%d]' % (v, k) for k in range(p.cnt)))
                    call.append('&' + v)
        else:
            if p.pk == 'prim':
                pre += '  %s %s; memset(&%s, 0xA5, sizeof %s);\n' % (T, v, v, v)
                post += '  rt_cout(&%s, sizeof %s);\n' % (v, v)
                call.append('&' + v)
            elif p.pk == 'struct':
                pre += '  %s %s; memset((void *)&%s, 0, sizeof %s); if (rt_stale()) { memset((void *)&%s, 0xA5, sizeof %s); fl_%s(&%s); }\n' % (T, v, v, v, v, v, p.ty, v)
                fail += '  fo_%s(&%s);\n' % (p.ty, v)
                post += '  wr_%s(&%s, rt_cout); dr_%s(&%s);\n' % (p.ty, v, p.ty, v)
                call.append(v if cpp else '&' + v)
            elif p.pk in ('buffer', 'primarr', 'structarr'):
                pre += '  size_t n%s = rdlen(rt_cin); %s *%s = (%s *)rt_alloc(n%s * sizeof(%s)); size_t l%s = 0xABABAB;\n' % (
                    v, T, v, T, v, T, v)
                post += '  wrlen(rt_cout, l%s); if (l%s <= n%s) { %s }\n' % (v, v, v, wr_elems(prog, p, v, 'l' + v, 'rt_cout'))
                call += [v, 'n' + v, '&l' + v]
            elif p.pk == 'obj':
                if cpp:
                    pre += '  %s %s; if (rt_stale()) { Object s_ = rt_obj_ret(60); %s.consume(s_); }\n' % (objT, v, v)
                    post += '  wrid(rt_cout, %s.get());\n' % v
                    fail += '  rt_note("failobj", rt_obj_id(%s.get()));\n' % v
                    call.append(v)
                else:
                    pre += '  Object %s = rt_obj(rt_stale());\n' % v
                    post += '  wrid(rt_cout, %s); rt_drop(%s);\n' % (v, v)
                    fail += '  rt_note("failobj", rt_obj_id(%s));\n' % v
                    call.append('&' + v)
            else:
                if cpp:
                    pre += '  %s %s[%d]; if (rt_stale()) for (int k = 0; k < %d; k++) { Object s_ = rt_obj_ret(60); %s[k].consume(s_); }\n' % (objT, v, p.cnt, p.cnt, v)
                    post += '  for (int k = 0; k < %d; k++) wrid(rt_cout, %s[k].get());\n' % (p.cnt, v)
                    fail += '  for (int k = 0; k < %d; k++) rt_note("failobj", rt_obj_id(%s[k].get()));\n' % (p.cnt, v)
                    call.append(v)
                else:
                    pre += '  Object %s[%d]; for (int k = 0; k < %d; k++) %s[k] = rt_obj(rt_stale());\n' % (v, p.cnt, p.cnt, v)
                    post += '  for (int k = 0; k < %d; k++) { wrid(rt_cout, %s[k]); rt_drop(%s[k]); }\n' % (p.cnt, v, v)
                    fail += '  for (int k = 0; k < %d; k++) rt_note("failobj", rt_obj_id(%s[k]));\n' % (p.cnt, v)
                    call.append('&' + v)
    if cpp:
        c = '  Object_retain(t);\n  %s stub_(t);\n  int32_t r_ = stub_.%s(%s);\n' % (iface, m.name, ', '.join(call))
    else:
        c = '  int32_t r_ = %s_%s(%s);\n' % (iface, m.name, ', '.join(['t'] + call))
    return 'static int32_t cl_%s_%s_%s(Object t) {\n%s%s  rt_client_status(r_);\n  if (r_ == 0) {\n%s  } else {\n%s  }\n  return r_;\n}\n' % (
        be, iface, m.name, pre, c, post, fail)


def cxx_impl_body(prog, iface, m, cpp, untyped=False):
    body = '  int32_t st_ = rt_enter("%s.%s", (const void *)0);\n' % (iface, m.name)
    sig, plan, failset = [], '', ''
    for j, p in enumerate(m.params):
        v = 'p%d_' % j
        T = elem_ct(p)
        objT = (p.ty or 'ProxyBase') if cpp else 'Object'
        if p.dir == 'in':
            if p.pk == 'prim':
                sig.append('%s %s' % (T, v))
                body += '  rt_iout(&%s, sizeof %s);\n' % (v, v)
            elif p.pk == 'struct':
                sig.append('const %s %s%s' % (T, '&' if cpp else '*', v))
                # the implementation may be handed a misaligned view only if the contract says so: copy bytes
                body += '  { %s c_; memcpy((void *)&c_, (const void *)%s%s, sizeof c_); wr_%s(&c_, rt_iout); }\n' % (T, '&' if cpp else '', v, p.ty)
            elif p.pk in ('buffer', 'primarr', 'structarr'):
                sig += ['const %s *%s' % ('void' if p.pk == 'buffer' else T, v), 'size_t n' + v]
                arr = '((const %s *)%s)' % (T, v)
                body += '  wrlen(rt_iout, n%s); %s\n' % (v, wr_elems(prog, p, arr, 'n' + v, 'rt_iout'))
            elif p.pk == 'obj':
                if cpp:
                    sig.append('const %s &%s' % (objT, v))
                    body += '  wrid(rt_iout, %s.get());\n' % v
                else:
                    sig.append('Object ' + v)
                    body += '  wrid(rt_iout, %s);\n' % v
            else:
                if cpp:
                    sig.append('const %s (&%s)[%d]' % (objT, v, p.cnt))
                    body += '  for (int k = 0; k < %d; k++) wrid(rt_iout, %s[k].get());\n' % (p.cnt, v)
                else:
                    sig.append('%sObject (*%s)[%d]' % ('const ', v, p.cnt))
                    body += '  for (int k = 0; k < %d; k++) wrid(rt_iout, (*%s)[k]);\n' % (p.cnt, v)
        else:
            if p.pk == 'prim':
                sig.append('%s *%s' % (T, v))
                plan += '  { %s c_; rt_iin(&c_, sizeof c_); *%s = c_; }\n' % (T, v)
            elif p.pk == 'struct':
                sig.append('%s %s%s' % (T, '&' if cpp else '*', v))
                plan += '  { %s c_; memset((void *)&c_, 0, sizeof c_); rd_%s(&c_, rt_iin, 1); memcpy((void *)%s%s, (void *)&c_, sizeof c_); }\n' % (
                    T, p.ty, '&' if cpp else '', v)
            elif p.pk in ('buffer', 'primarr', 'structarr'):
                sig += ['%s *%s' % ('void' if p.pk == 'buffer' else T, v), 'size_t n' + v, 'size_t *l' + v]
                arr = '((%s *)%s)' % (T, v)
                body += '  wrlen(rt_iout, n%s);\n' % v
                plan += '  { size_t l_ = rdlen(rt_iin); if (l_ > n%s) rt_note("plan-exceeds-capacity", (uint32_t)n%s); else { %s } *l%s = l_; }\n' % (
                    v, v, rd_elems(prog, p, arr, 'l_', 'rt_iin', 1), v)
            elif p.pk == 'obj':
                if cpp:
                    sig.append('%s &%s' % (objT, v))
                    plan += '  { Object o_ = rt_obj_ret(rdlen(rt_iin)); %s.consume(o_); }\n' % v
                    failset += '    { Object o_ = rt_obj_ret(61); %s.consume(o_); }\n' % v
                else:
                    sig.append('Object *' + v)
                    plan += '  *%s = rt_obj_ret(rdlen(rt_iin));\n' % v
                    failset += '    *%s = rt_obj(62);\n' % v
            else:
                if cpp:
                    sig.append('%s (&%s)[%d]' % (objT, v, p.cnt))
                    plan += '  for (int k = 0; k < %d; k++) { Object o_ = rt_obj_ret(rdlen(rt_iin)); %s[k].consume(o_); }\n' % (p.cnt, v)
                    failset += '    for (int k = 0; k < %d; k++) { Object o_ = rt_obj_ret(61); %s[k].consume(o_); }\n' % (p.cnt, v)
                else:
                    sig.append('Object (*%s)[%d]' % (v, p.cnt))
                    plan += '  for (int k = 0; k < %d; k++) (*%s)[k] = rt_obj_ret(rdlen(rt_iin));\n' % (p.cnt, v)
                    failset += '    for (int k = 0; k < %d; k++) (*%s)[k] = rt_obj(62);\n' % (p.cnt, v)
    body += '  rt_leave();\n  if (st_ != 0) {\n    if (rt_fail_objs()) {\n%s    }\n    return st_;\n  }\n%s  return 0;\n' % (failset, plan)
    return sig, body


def c_glue(prog, be, ifaces):
    """returns (stub TU, skel TU)"""
    inc = '#include <string.h>\n#include <stdlib.h>\n#include "rt.h"\n'
    stub = inc + ''.join('#include "%s.h"\n' % stem(f.path) for f in prog.files) + C_UTIL + c_struct_helpers(prog)
    tabs = ''
    for n in ifaces:
        names = []
        for op, own, m in prog.methods(n):
            stub += cxx_client(prog, n, m, be, False)
            names.append('cl_%s_%s_%s' % (be, n, m.name))
        tabs += 'static const rt_client_fn tab_%s[] = { %s };\n' % (n, ', '.join(names + ['0']))
    tabs += 'rt_client_fn *const rt_clients_%s[] = { %s };\n' % (be, ', '.join('(rt_client_fn *)tab_' + n for n in ifaces))
    stub += tabs
    skel = inc + ''.join('#include "%s_invoke.h"\n' % stem(f.path) for f in prog.files) + C_UTIL + c_struct_helpers(prog)
    skel += 'typedef struct { int refs; } Cx;\n'
    mk = []
    beid = {'c': 0, 'cu': 1}[be]
    for n in ifaces:
        ms = prog.methods(n)
        anyopt = any(m.optional for _, _, m in ms)
        row = []
        for var in ([0, 1] if anyopt else [0]):
            pre = 'im_%s%d_%s_' % (be, var, n)
            skel += 'int32_t %srelease(Cx *c) { if (--c->refs == 0) { rt_destroyed(%d); free(c); } return 0; }\n' % (pre, beid)
            skel += 'int32_t %sretain(Cx *c) { c->refs++; return 0; }\n' % pre
            for op, own, m in ms:
                if var == 1 and m.optional:
                    continue
                sig, body = cxx_impl_body(prog, n, m, False, be == 'cu')
                skel += 'int32_t %s%s(%s) {\n  (void)cx_;\n%s}\n' % (pre, m.name, ', '.join(['Cx *cx_'] + sig), body)
            skel += '%s_DEFINE_INVOKE(inv_%s%d_%s, %s, Cx *)\n' % (n, be, var, n, pre)
            skel += 'static Object mk_%s%d_%s(void) { Cx *c = malloc(sizeof *c); c->refs = 1; return (Object){inv_%s%d_%s, c}; }\n' % (be, var, n, be, var, n)
            row.append('mk_%s%d_%s' % (be, var, n))
        mk.append('{ %s }' % ', '.join(row + (['0'] if len(row) == 1 else [])))
    skel += 'const rt_make_fn rt_makers_%s[][2] = { %s };\n' % (be, ', '.join(mk))
    return stub, skel


def cpp_glue(prog, ifaces):
    inc = '#include <cstring>\n#include <cstdlib>\n#include <cstdint>\n#include <atomic>\n#include "rt.h"\n'
    stub = inc + ''.join('#include "%s.hpp"\n' % stem(f.path) for f in prog.files) + C_UTIL + c_struct_helpers(prog)
    tabs = ''
    for n in ifaces:
        names = []
        for op, own, m in prog.methods(n):
            stub += cxx_client(prog, n, m, 'cpp', True)
            names.append('cl_cpp_%s_%s' % (n, m.name))
        tabs += 'static rt_client_fn tab_%s[] = { %s };\n' % (n, ', '.join(names + ['0']))
    tabs += 'extern "C" { rt_client_fn *const rt_clients_cpp[] = { %s }; }\n' % ', '.join('tab_' + n for n in ifaces)
    stub += tabs
    skel = inc + ''.join('#include "%s_invoke.hpp"\n' % stem(f.path) for f in prog.files) + C_UTIL + c_struct_helpers(prog)
    mk = []
    for n in ifaces:
        ms = prog.methods(n)
        anyopt = any(m.optional for _, _, m in ms)
        row = []
        for var in ([0, 1] if anyopt else [0]):
            cls = 'Im%d_%s' % (var, n)
            body = ''
            for op, own, m in ms:
                if var == 1 and m.optional:
                    continue
                sig, b = cxx_impl_body(prog, n, m, True)
                body += '  virtual int32_t %s(%s) override {\n%s  }\n' % (m.name, ', '.join(sig), b)
            skel += 'class %s : public %sImplBase {\n public:\n  virtual ~%s() { rt_destroyed(2); }\n%s' % (cls, n, cls, body)
            skel += '  Object obj_() { int32_t (*f)(ObjectCxt, ObjectOp, ObjectArg *, ObjectCounts) = &ImplBase::invoke; return (Object){f, static_cast<ImplBase *>(this)}; }\n};\n'
            skel += 'static Object mk%d_%s(void) { return (new %s)->obj_(); }\n' % (var, n, cls)
            row.append('mk%d_%s' % (var, n))
        mk.append('{ %s }' % ', '.join(row + (['0'] if len(row) == 1 else [])))
    skel += 'extern "C" { const rt_make_fn rt_makers_cpp[][2] = { %s }; }\n' % ', '.join(mk)
    return stub, skel


# ------------------------------------------------------------------ Rust
RUST_HEAD = r'''
#![allow(warnings)]
#[path = "%(object)s"]
pub mod object;
pub mod interfaces {
%(mods)s
}
mod rt {
    use crate::object::*;
    use std::ffi::c_void;
    #[repr(C)] #[derive(Clone, Copy)]
    pub struct Raw { pub invoke: *const c_void, pub ctx: *mut c_void }
    pub type In = unsafe extern "C" fn(*mut c_void, usize);
    pub type Out = unsafe extern "C" fn(*const c_void, usize);
    extern "C" {
        pub fn rt_cin(d: *mut c_void, n: usize);
        pub fn rt_cout(d: *const c_void, n: usize);
        pub fn rt_iin(d: *mut c_void, n: usize);
        pub fn rt_iout(d: *const c_void, n: usize);
        pub fn rt_obj(id: u32) -> Raw;
        pub fn rt_obj_ret(id: u32) -> Raw;
        pub fn rt_obj_id(o: Raw) -> u32;
        pub fn rt_client_status(r: i32);
        pub fn rt_enter(name: *const u8, me: *const c_void) -> i32;
        pub fn rt_leave();
        pub fn rt_destroyed(be: i32);
        pub fn rt_note(w: *const u8, v: u32);
    }
    pub trait V: Sized { unsafe fn rd(i: In, ret: bool) -> Self; unsafe fn wr(&self, o: Out); }
    macro_rules! p { ($($t:ty),*) => { $(impl V for $t {
        unsafe fn rd(i: In, _: bool) -> Self { let mut b = [0u8; std::mem::size_of::<$t>()]; i(b.as_mut_ptr().cast(), b.len()); <$t>::from_ne_bytes(b) }
        unsafe fn wr(&self, o: Out) { let b = self.to_ne_bytes(); o(b.as_ptr().cast(), b.len()) }
    })* } }
    p!(u8, i8, u16, i16, u32, i32, u64, i64, f32, f64);
    impl<T: V, const N: usize> V for [T; N] {
        unsafe fn rd(i: In, ret: bool) -> Self { std::array::from_fn(|_| T::rd(i, ret)) }
        unsafe fn wr(&self, o: Out) { for x in self { x.wr(o) } }
    }
    pub unsafe fn obj<T>(r: Raw) -> Option<T> { assert_eq!(std::mem::size_of::<Option<T>>(), 16); std::mem::transmute_copy::<Raw, Option<T>>(&r) }
    pub unsafe fn oid<T>(o: &Option<T>) -> u32 { rt_obj_id(std::mem::transmute_copy::<Option<T>, Raw>(o)) }
    pub unsafe fn oidr<T>(o: &Option<&T>) -> u32 { match o { None => 0, Some(x) => rt_obj_id(std::mem::transmute_copy::<T, Raw>(*x)) } }
    impl V for Option<Object> {
        unsafe fn rd(i: In, ret: bool) -> Self { let id = u32::rd(i, false); obj(if ret { rt_obj_ret(id) } else { rt_obj(id) }) }
        unsafe fn wr(&self, o: Out) { oid(self).wr(o) }
    }
    pub unsafe fn vec<T: V>(i: In) -> Box<[T]> { let n = u32::rd(i, false) as usize; (0..n).map(|_| T::rd(i, false)).collect::<Vec<T>>().into_boxed_slice() }
    pub unsafe fn blank<T: V>(n: usize) -> Box<[T]> { unsafe extern "C" fn z(d: *mut c_void, n: usize) { std::ptr::write_bytes(d as *mut u8, 0xA5, n) } (0..n).map(|_| T::rd(z, false)).collect::<Vec<T>>().into_boxed_slice() }
    pub unsafe fn wrs<T: V>(o: Out, s: &[T]) { (s.len() as u32).wr(o); for x in s { x.wr(o) } }
    pub type Mk = extern "C" fn() -> Raw;
    pub type Cl = extern "C" fn(Raw) -> i32;
    #[repr(transparent)] pub struct Tab(pub *const Option<Cl>);
    unsafe impl Sync for Tab {}
}
use rt::*;
'''


class RustNames:
    def __init__(self, prog):
        self.prog = prog

    def struct(self, n):
        return 'crate::interfaces::%s::r#%s' % (stem(self.prog.where[n].path).lower(), n)

    def iface(self, n):
        return 'crate::interfaces::%s::%s' % (n.lower(), n)

    def obj(self, t):
        return self.iface(t) if t and t != 'interface' else 'crate::object::Object'

    def ty(self, t):
        if t in PRIMS:
            return RT[t]
        if t in self.prog.structs:
            return self.struct(t)
        return 'Option<%s>' % self.obj(t)

    def elem(self, p):
        return 'u8' if p.pk == 'buffer' else self.ty(p.ty)


def rust_glue(prog, ifaces, mods, object_path):
    N = RustNames(prog)
    o = RUST_HEAD % {'object': object_path, 'mods': '\n'.join(
        '    pub mod %s { include!("%s"); }' % (m, f) for m, f in mods)}
    for n in used_structs(prog):
        fs = prog.structs[n].fields
        o += 'impl V for %s {\n  unsafe fn rd(i: In, ret: bool) -> Self { Self { %s } }\n  unsafe fn wr(&self, o: Out) { %s }\n}\n' % (
            N.struct(n), ', '.join('r#%s: V::rd(i, ret)' % f for _, _, f in fs), ' '.join('self.r#%s.wr(o);' % f for _, _, f in fs))
    for n in prog.ifaces:
        o += 'impl V for Option<%s> {\n  unsafe fn rd(i: In, ret: bool) -> Self { let id = u32::rd(i, false); obj(if ret { rt_obj_ret(id) } else { rt_obj(id) }) }\n  unsafe fn wr(&self, o: Out) { oid(self).wr(o) }\n}\n' % N.iface(n)
    tabs = []
    for n in ifaces:
        names = []
        for op, own, m in prog.methods(n):
            pre, call, post, rets = '', [], '', []
            for j, p in enumerate(m.params):
                v = 'p%d_' % j
                T = N.elem(p)
                if p.dir == 'in':
                    if p.pk == 'prim':
                        pre += '  let %s = <%s as V>::rd(rt_cin, true);\n' % (v, T)
                        call.append(v)
                    elif p.pk == 'struct':
                        pre += '  let %s = <%s as V>::rd(rt_cin, true);\n' % (v, T)
                        call.append('&' + v)
                    elif p.pk in ('buffer', 'primarr', 'structarr'):
                        pre += '  let %s = vec::<%s>(rt_cin);\n' % (v, T)
                        call.append('&' + v)
                    elif p.pk == 'obj':
                        pre += '  let %s = <Option<%s> as V>::rd(rt_cin, true);\n' % (v, N.obj(p.ty))
                        call.append(v + '.as_ref()')
                    else:
                        pre += '  let %s = <[Option<%s>; %d] as V>::rd(rt_cin, true);\n' % (v, N.obj(p.ty), p.cnt)
                        call.append('&' + v)
                elif p.pk in ('buffer', 'primarr', 'structarr'):
                    pre += '  let mut %s = blank::<%s>(u32::rd(rt_cin, false) as usize); let mut l%s = 0xABABABusize;\n' % (v, T, v)
                    call += ['&mut ' + v, '&mut l' + v]
                    post += '    if l%s <= %s.len() { wrs(rt_cout, &%s[..l%s]); } else { (l%s as u32).wr(rt_cout); }\n' % (v, v, v, v, v)
                else:
                    rets.append(v)
                    post += '    %s.wr(rt_cout);\n' % v
            ret = '()' if not rets else rets[0] if len(rets) == 1 else '(%s)' % ', '.join(rets)
            # inherited methods live on the ancestor type, reached through Deref
            f = 'cl_%s_%s' % (n, m.name)
            o += 'extern "C" fn %s(t: Raw) -> i32 { unsafe {\n  let base: Option<%s> = obj(t); let stub = std::mem::ManuallyDrop::new(base.unwrap());\n%s  match stub.r#%s(%s) {\n   Ok(%s) => { rt_client_status(0);\n%s    0 }\n   Err(e) => { let e: i32 = i32::from(crate::object::Error::from(e)); rt_client_status(e); e }\n  } } }\n' % (
                f, N.iface(n), pre, m.name, ', '.join(call), ret, post)
            names.append(f)
        tabs.append('Tab([%s].as_ptr())' % ', '.join(['Some(%s as Cl)' % x for x in names] + ['None']))
        o += 'static TAB_%s: [Option<Cl>; %d] = [%s];\n' % (n, len(names) + 1, ', '.join(['Some(%s as Cl)' % x for x in names] + ['None']))
        tabs[-1] = 'Tab(TAB_%s.as_ptr())' % n
    o += '#[no_mangle] pub static rt_clients_rust: [Tab; %d] = [%s];\n' % (len(ifaces), ', '.join(tabs))
    rows = []
    for n in ifaces:
        ms = prog.methods(n)
        anyopt = any(m.optional for _, _, m in ms)
        row = []
        for var in ([0, 1] if anyopt else [0]):
            s = 'Im%d_%s' % (var, n)
            o += 'struct %s;\nimpl Drop for %s { fn drop(&mut self) { unsafe { rt_destroyed(3) } } }\n' % (s, s)
            for anc in prog.chain(n):
                body = ''
                for m in anc.methods:
                    if var == 1 and m.optional:
                        continue
                    body += rust_impl(prog, N, n, anc.name, m)
                o += 'impl crate::interfaces::%s::I%s for %s {\n%s}\n' % (anc.name.lower(), anc.name, s, body)
            o += 'extern "C" fn mk_%s() -> Raw { let x: %s = %s.into(); unsafe { std::mem::transmute(x) } }\n' % (s, N.iface(n), s)
            row.append('Some(mk_%s as Mk)' % s)
        rows.append('[%s]' % ', '.join(row + (['None'] if len(row) == 1 else [])))
    o += '#[no_mangle] pub static rt_makers_rust: [[Option<Mk>; 2]; %d] = [%s];\n' % (len(ifaces), ', '.join(rows))
    return o


def rust_impl(prog, N, iface, owner, m):
    sig, body, plan, rets, rtys = [], '', '', [], []
    for j, p in enumerate(m.params):
        v = 'p%d_' % j
        T = N.elem(p)
        if p.dir == 'in':
            if p.pk == 'prim':
                sig.append('%s: %s' % (v, T))
                body += '      %s.wr(rt_iout);\n' % v
            elif p.pk == 'struct':
                sig.append('%s: &%s' % (v, T))
                body += '      %s.wr(rt_iout);\n' % v
            elif p.pk in ('buffer', 'primarr', 'structarr'):
                sig.append('%s: &[%s]' % (v, T))
                body += '      wrs(rt_iout, %s);\n' % v
            elif p.pk == 'obj':
                sig.append('%s: Option<&%s>' % (v, N.obj(p.ty)))
                body += '      oidr(&%s).wr(rt_iout);\n' % v
            else:
                sig.append('%s: &[Option<%s>; %d]' % (v, N.obj(p.ty), p.cnt))
                body += '      %s.wr(rt_iout);\n' % v
        elif p.pk in ('buffer', 'primarr', 'structarr'):
            sig += ['%s: &mut [%s]' % (v, T), 'l%s: &mut usize' % v]
            body += '      (%s.len() as u32).wr(rt_iout);\n' % v
            plan += '      { let l = u32::rd(rt_iin, false) as usize; if l > %s.len() { rt_note(b"plan-exceeds-capacity\\0".as_ptr(), 0); } else { for k in 0..l { %s[k] = V::rd(rt_iin, true); } } *l%s = l; }\n' % (v, v, v)
        else:
            t = {'prim': T, 'struct': T, 'obj': 'Option<%s>' % N.obj(p.ty), 'objarr': '[Option<%s>; %s]' % (N.obj(p.ty), p.cnt)}[p.pk]
            rtys.append(t)
            rets.append(v)
            plan += '      let %s = <%s as V>::rd(rt_iin, true);\n' % (v, t)
    rt_ = '()' if not rets else rtys[0] if len(rets) == 1 else '(%s)' % ', '.join(rtys)
    rv = '()' if not rets else rets[0] if len(rets) == 1 else '(%s)' % ', '.join(rets)
    return ('  fn r#%s(&mut self%s) -> Result<%s, crate::interfaces::%s::Error> { unsafe {\n'
            '      let st = rt_enter(b"%s.%s\\0".as_ptr(), std::ptr::null());\n%s      rt_leave();\n'
            '      if st != 0 { return Err(crate::object::Error::from(st).into()); }\n%s      Ok(%s)\n  } }\n') % (
        m.name, ''.join(', ' + s for s in sig), rt_, owner.lower(), iface, m.name, body, plan, rv)
