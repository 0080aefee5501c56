"""C20: generated Rust objects serialise their implementation; references are
counted atomically.

Random interfaces are compiled to Rust; instrumented implementations are made
into objects by the generated conversion and cloned, invoked, converted,
downcast and dropped by several threads: natively with injected delays, under
ThreadSanitizer (with an instrumented standard library), and under Miri's
randomised scheduler (data races, use after free, deadlock, leaks)."""
import os, random, re, shutil
from . import common, gen, rt
from .glue import RustNames, used_structs, stem, RT
from .idl import *

MON = os.path.join(common.ROOT, 'runtime', 'c20', 'mon.rs')
OBJ_RS = os.path.join(common.REPO, 'tests', 'src', 'object', 'mod.rs')

HEAD = r'''#![allow(warnings)]
#[path = "%(object)s"]
pub mod object;
pub mod interfaces {
%(mods)s
}
#[path = "%(mon)s"]
pub mod mon;
use mon::*;
use object::Object;
use std::sync::atomic::Ordering::Relaxed;

pub trait V: Sized { fn mk() -> Self; fn touch(&self) {} }
macro_rules! p { ($($t:ty),*) => { $(impl V for $t { fn mk() -> Self { rnd() as u32 as $t } fn touch(&self) { std::hint::black_box(*self); } })* } }
p!(u8, i8, u16, i16, u32, i32, u64, i64, f32, f64);
impl<T: V, const N: usize> V for [T; N] { fn mk() -> Self { std::array::from_fn(|_| T::mk()) } fn touch(&self) { for x in self { x.touch() } } }
pub fn vec<T: V>() -> Vec<T> { (0..below(4)).map(|_| T::mk()).collect() }
pub fn touch<T: V>(s: &[T]) { for x in s { x.touch() } }
/// any typed object as the plain object it is
pub unsafe fn raw<T>(x: T) -> Object { let x = std::mem::ManuallyDrop::new(x); std::mem::transmute_copy::<T, Object>(&x) }
pub unsafe fn typed<T>(x: Object) -> T { let x = std::mem::ManuallyDrop::new(x); std::mem::transmute_copy::<Object, T>(&x) }
pub unsafe fn refd<T>(x: &Object) -> &T { &*(x as *const Object as *const T) }

/// a reference to a monitored root instance
pub struct H { pub o: Option<Object>, pub k: usize, pub rank: u32, pub mon: &'static Mon }
unsafe impl Send for H {}
unsafe impl Sync for H {}
/// the generated types themselves promise what H relies on
pub const fn shareable<T: Send + Sync + Clone>() {}
impl H { fn o(&self) -> &Object { self.o.as_ref().unwrap() } }
impl Clone for H { fn clone(&self) -> H { let o = self.o().clone(); self.mon.held.fetch_add(1, Relaxed); H { o: Some(o), k: self.k, rank: self.rank, mon: self.mon } } }
impl Drop for H { fn drop(&mut self) { self.mon.held.fetch_sub(1, Relaxed); drop(self.o.take()) } }
thread_local! { static ENV: std::cell::RefCell<Vec<H>> = std::cell::RefCell::new(Vec::new()); }
thread_local! { static CUR: std::cell::Cell<*const Object> = std::cell::Cell::new(std::ptr::null()); }
/// inside a body: references to the very object being served come and go
fn churn() {
    let c = CUR.with(|c| c.get());
    if !c.is_null() && below(4) == 0 { let a = unsafe { (*c).clone() }; let b = a.clone(); drop(a); delay(); drop(b); }
}
/// a reference to pass: a root of higher rank that has the interface, or none
fn lend(conf: &[usize]) -> Option<Object> {
    if DEPTH.with(|d| d.get()) > 1 { return None }
    let r = RANK.with(|r| r.get());
    ENV.with(|e| { let e = e.borrow(); let c: Vec<&H> = e.iter().filter(|h| h.rank > r && conf.contains(&h.k)).collect();
        if c.is_empty() { None } else { Some(c[below(c.len() as u64) as usize].o().clone()) } })
}
'''

TAIL = r'''
const N: usize = %(n)d;
fn one(h: &H) {
    RANK.with(|r| r.set(h.rank)); DEPTH.with(|d| d.set(1));
    let cur = CUR.with(|c| c.replace(h.o()));
    unsafe { CALLS[h.k](h.o(), Some(h.mon)); }
    CUR.with(|c| c.set(cur));
    RANK.with(|r| r.set(u32::MAX)); DEPTH.with(|d| d.set(0));
}
fn client(s: u64, me: u64, env: Vec<H>, shared: &[H], ops: u64) -> (Vec<&'static Mon>, u64, u64, u64) {
    seed(s, me);
    ENV.with(|e| *e.borrow_mut() = env);
    let mut own: Vec<H> = Vec::new();
    let (mut calls, mut clones, mut drops) = (0, 0, 0);
    for _ in 0..ops {
        PROGRESS.fetch_add(1, Relaxed);
        let h = ENV.with(|e| { let e = e.borrow(); if e.is_empty() { None } else { Some(e[below(e.len() as u64) as usize].clone()) } });
        let h = match h { Some(h) => h, None if !own.is_empty() => own[below(own.len() as u64) as usize].clone(), None => shared[below(shared.len() as u64) as usize].clone() };
        clones += 1;
        match below(12) {
            0..=5 => { one(&h); calls += 1; }
            6 => { one(&shared[below(shared.len() as u64) as usize]); calls += 1; }
            7 => { own.push(h.clone()); clones += 1; }
            8 => { if !own.is_empty() { let i = below(own.len() as u64) as usize; own.swap_remove(i); drops += 1; } }
            9 => { // conversions move the reference through every form of the object
                let mut h = h;
                let o = h.o.take().unwrap();
                h.o = Some(unsafe { CONVERT[h.k](o) });
            }
            10 => { unsafe { if !PEEK[h.k](h.o()) { bad("downcast", format!("the concrete value of a {} is not found", NAMES[h.k])) } } }
            _ => { // an invocation nothing answers must leave the object usable
                let r = unsafe { h.o().invoke(0x3f00 + below(16) as u32, std::ptr::null_mut(), below(4) as u32 * 0x11) };
                if r == 0 { bad("status", format!("{}: an unknown operation returned success", NAMES[h.k])) }
            }
        }
        drops += 1;
    }
    if below(2) == 0 { own.reverse(); }
    drop(own);
    // release in a random order
    let mut e = ENV.with(|e| std::mem::take(&mut *e.borrow_mut()));
    while !e.is_empty() { let i = below(e.len() as u64) as usize; e.swap_remove(i); drops += 1; delay(); }
    (take_mons(), calls, clones, drops)
}
// ---- bursts: workers released together onto one object at the edge of its life
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::{Acquire, Release, AcqRel}};
static PHASE: AtomicU64 = AtomicU64::new(0);
static READY: AtomicU64 = AtomicU64::new(0);
static GO: AtomicU64 = AtomicU64::new(0);
static FINI: AtomicU64 = AtomicU64::new(0);
static SLOT: AtomicPtr<H> = AtomicPtr::new(std::ptr::null_mut());
fn await_(x: &AtomicU64, v: u64) { let mut n = 0u32; while x.load(Acquire) < v { n += 1; if n %% 64 == 0 || cfg!(miri) { std::thread::yield_now() } else { std::hint::spin_loop() } } }
fn burst(s0: u64, rounds: u64, nt: u64) -> (u64, u64, u64) {
    let hands: Vec<std::sync::Mutex<Vec<H>>> = (0..nt).map(|_| Default::default()).collect();
    let (mut inst, mut bodies, mut refs) = (0u64, 0u64, 0u64);
    std::thread::scope(|s| {
        let hands = &hands;
        let t: Vec<_> = (0..nt).map(|i| s.spawn(move || {
            seed(s0, 1000 + i);
            for r in 1..=rounds {
                await_(&PHASE, r);
                let mut mine = std::mem::take(&mut *hands[i as usize].lock().unwrap());
                let sh = SLOT.load(Acquire);
                let k = 1 + below(3);
                READY.fetch_add(1, AcqRel);
                await_(&GO, r);
                for _ in 0..k {
                    if !sh.is_null() {
                        let h = unsafe { &*sh };
                        match below(8) { 0..=3 => mine.push(h.clone()), 4 => { mine.pop(); } 5 => { let c = h.clone(); drop(c); } 6 => { unsafe { PEEK[h.k](h.o()) }; } _ => one(h) }
                    } else if let Some(h) = mine.last() {
                        match below(8) { 0 => { let c = h.clone(); mine.push(c); } 1 => { let c = h.clone(); drop(c); } 2 => one(h), 3 => { unsafe { PEEK[h.k](h.o()) }; } _ => { mine.pop(); } }
                    }
                }
                if sh.is_null() { mine.clear(); }
                *hands[i as usize].lock().unwrap() = mine;
                FINI.fetch_add(1, AcqRel);
                PROGRESS.fetch_add(1, Relaxed);
            }
            take_mons()
        })).collect();
        seed(s0, 77);
        let mut roots: Vec<&'static Mon> = Vec::new();
        for r in 1..=rounds {
            let _ = take_mons();
            let k = below(N as u64) as usize;
            let mon = new_mon();
            mon.held.fetch_add(1, Relaxed);
            let h = H { o: Some(MAKE[k](mon)), k, rank: 0, mon };
            // either everybody borrows the only reference, or everybody owns one and nobody else does
            let mut keep = None;
            if below(2) == 0 { keep = Some(Box::new(h)); SLOT.store(&**keep.as_ref().unwrap() as *const H as *mut H, Release); }
            else { for x in hands { let mut v: Vec<H> = (0..below(3)).map(|_| h.clone()).collect(); x.lock().unwrap().append(&mut v); } drop(h); SLOT.store(std::ptr::null_mut(), Release); }
            PHASE.store(r, Release);
            await_(&READY, r * nt);
            GO.store(r, Release);
            await_(&FINI, r * nt);
            let mut left: Vec<H> = hands.iter().flat_map(|x| std::mem::take(&mut *x.lock().unwrap())).collect();
            left.extend(keep.map(|b| *b));
            refs += left.len() as u64;
            if mon.held.load(Relaxed) != left.len() as i64 { bad("monitor", format!("held {} left {}", mon.held.load(Relaxed), left.len())) }
            while !left.is_empty() { let i = below(left.len() as u64) as usize; left.swap_remove(i); if BAD.load(Relaxed) != 0 { std::process::exit(3) } }
            let (e, _) = finished(mon, Some(mon.done.load(Relaxed)));
            bodies += e; inst += 1;
            if BAD.load(Relaxed) != 0 { std::process::exit(3) }
        }
        for x in t { roots.extend(x.join().unwrap()); }
        for m in roots { finished(m, None); }
    });
    (inst, bodies, refs)
}
fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    let (s0, rounds, threads, ops, noise) = (a[0], a[1], a[2], a[3], a[4]);
    set_noise(noise as u32);
    watchdog();
    if ops == 0 {
        let (i, b, r) = burst(s0, rounds, threads);
        println!("S burst_instances {} burst_bodies {} burst_references {}", i, b, r);
        std::process::exit(if BAD.load(Relaxed) != 0 { 3 } else { 0 });
    }
    let mut orders = std::collections::HashSet::new();
    let (mut calls, mut clones, mut drops, mut inst, mut bodies, mut contended, mut peeks) = (0u64, 0, 0, 0u64, 0u64, 0u64, 0u64);
    for r in 0..rounds {
        seed(s0.wrapping_add(r), 99);
        let _ = take_mons();
        let nroots = 1 + below(3) as usize;
        let mut roots: Vec<H> = (0..nroots).map(|i| { let k = below(N as u64) as usize; let mon = new_mon(); mon.held.fetch_add(1, Relaxed); H { o: Some(MAKE[k](mon)), k, rank: i as u32, mon } }).collect();
        let mut mons: Vec<&'static Mon> = take_mons();
        let root_mons = mons.clone();
        let nt = 2 + below(threads - 1);
        let keep = below(3); // 0: main drops before the threads end, 1: after, 2: its handles are the threads' shared ones
        let envs: Vec<Vec<H>> = (0..nt).map(|_| roots.iter().filter(|_| keep == 2 || below(4) != 0).cloned().collect()).collect();
        let shared: Vec<H> = roots.clone();
        if keep == 0 { roots.clear(); }
        let res: Vec<_> = if below(2) == 0 {
            let shared = shared;
            std::thread::scope(|s| { let sh = &shared; let t: Vec<_> = envs.into_iter().enumerate().map(|(i, e)| s.spawn(move || client(s0.wrapping_add(r), i as u64, e, sh, ops))).collect(); t.into_iter().map(|t| t.join().unwrap()).collect() })
        } else {
            // every thread owns its handles, so the last release happens on any of them
            let sh: Vec<Vec<H>> = (0..nt).map(|_| shared.clone()).collect();
            drop(shared);
            let t: Vec<_> = envs.into_iter().zip(sh).enumerate().map(|(i, (e, sh))| { std::thread::spawn(move || { let r = client(s0.wrapping_add(r), i as u64, e, &sh, ops); drop(sh); (r, take_mons()) }) }).collect();
            if keep != 1 { roots.clear(); }
            t.into_iter().map(|t| { let ((mut m, a, b, c), n) = t.join().unwrap(); m.extend(n); (m, a, b, c) }).collect()
        };
        roots.clear();
        let _ = take_mons();
        for (m, c, cl, d) in res { mons.extend(m); calls += c; clones += cl; drops += d; }
        for m in &mons {
            let root = root_mons.iter().any(|x| std::ptr::eq(*x, *m));
            let (e, o) = finished(m, Some(m.done.load(Relaxed)));
            inst += 1; bodies += e; peeks += m.peeks.load(Relaxed);
            if root && e > 1 { orders.insert((e, o)); contended += 1; }
        }
        if BAD.load(Relaxed) != 0 { break; }
    }
    println!("S calls {} clones {} drops {} instances {} bodies {} contended {} orders {} peeks {}", calls, clones, drops, inst, bodies, contended, orders.len(), peeks);
    std::process::exit(if BAD.load(Relaxed) != 0 { 3 } else { 0 });
}
'''


def crate(prog, mods):
    N = RustNames(prog)
    ifs = list(prog.ifaces)
    o = HEAD % {'object': OBJ_RS, 'mon': MON, 'mods': '\n'.join('    pub mod %s { include!("%s"); }' % m for m in mods)}
    for n in used_structs(prog):
        fs = prog.structs[n].fields
        o += 'impl V for %s { fn mk() -> Self { Self { %s } } fn touch(&self) { %s } }\n' % (
            N.struct(n), ', '.join('r#%s: V::mk()' % f for _, _, f in fs), ' '.join('self.r#%s.touch();' % f for _, _, f in fs))

    def conf(n):
        return '&[%s]' % ', '.join(str(i) for i, k in enumerate(ifs) if n is None or n in [a.name for a in prog.chain(k)])
    for n in ifs:
        o += ('impl V for Option<%s> { fn mk() -> Self { unsafe { match below(4) { 0 => None, 1 | 2 => lend(%s).map(|o| typed(o)), _ => Some(%s::from(Im_%s::fresh())) } } }\n'
              '  fn touch(&self) { if let Some(x) = self { touch_obj(unsafe { refd(std::mem::transmute(x)) }, %d) } } }\n') % (N.iface(n), conf(n), N.iface(n), n, ifs.index(n))
    o += ('impl V for Option<Object> { fn mk() -> Self { match below(4) { 0 => None, 1 | 2 => lend(%s), _ => Some(unsafe { raw(%s::from(Im_%s::fresh())) }) } }\n'
          '  fn touch(&self) { if let Some(x) = self { drop(x.clone()); } } }\n') % (conf(None), N.iface(ifs[0]), ifs[0])
    # inside a body: take a reference, maybe invoke it
    o += '''fn touch_obj(x: &Object, k: usize) {
    let c = x.clone();
    let d = DEPTH.with(|d| d.get());
    if d <= 1 && below(3) == 0 {
        DEPTH.with(|x| x.set(2));
        unsafe { CALLS[k](x, None) };
        DEPTH.with(|x| x.set(d));
    }
    drop(c);
}
'''
    for n in ifs:
        o += ('pub struct Im_%s { st: St, stash: Vec<Object> }\nimpl Im_%s { fn fresh() -> Self { Im_%s { st: St::new("%s"), stash: Vec::new() } }\n'
              '  fn keep(&mut self, o: Option<Object>) { if let Some(o) = o { if below(2) == 0 { self.stash.push(o); if self.stash.len() > 3 { self.stash.remove(0); } } } } }\n'
              'impl Drop for Im_%s { fn drop(&mut self) { self.stash.clear(); } }\n') % (n, n, n, n, n)
        for anc in prog.chain(n):
            o += 'impl crate::interfaces::%s::I%s for Im_%s {\n%s}\n' % (anc.name.lower(), anc.name, n, ''.join(body(N, n, anc.name, m) for m in anc.methods))
        o += 'const _: () = shareable::<%s>();\n' % N.iface(n)
        arms = ''
        ms = prog.methods(n)
        for i, (op, own, m) in enumerate(ms):
            arms += '    %d => {\n%s    }\n' % (i, client(N, n, own, m))
        if ms:
            o += 'pub unsafe fn call_%s(h: &Object, mon: Option<&\'static Mon>) { let h: &%s = refd(h); match below(%d) {\n%s    _ => unreachable!() } }\n' % (n, N.iface(n), len(ms), arms)
        else:
            o += 'pub unsafe fn call_%s(h: &Object, mon: Option<&\'static Mon>) {}\n' % n
        o += 'pub fn make_%s(mon: &\'static Mon) -> Object { unsafe { raw(%s::from(Im_%s { st: St::with("%s", mon), stash: Vec::new() })) } }\n' % (n, N.iface(n), n, n)
        o += 'pub unsafe fn peek_%s(o: &Object) -> bool { crate::interfaces::%s::downcast_concrete::<(), Im_%s>(o, |i: &Im_%s| i.st.peek()).is_some() }\n' % (n, n.lower(), n, n)
        ch = [a.name for a in prog.chain(n)][::-1]
        up = 'let x: %s = typed(o); let y = x.clone(); drop(x); ' % N.iface(n)
        v = 'y'
        for b in ch[1:] + [None]:
            w = v + 'y'
            up += 'let %s = <%s>::from(%s); { let c = %s.clone(); drop(c); } ' % (w, N.obj(b), v, w)
            v = w
        o += 'pub unsafe fn conv_%s(o: Object) -> Object { %sraw(%s) }\n' % (n, up, v)
    T = lambda f: ', '.join('%s_%s' % (f, n) for n in ifs)
    o += "pub static CALLS: [unsafe fn(&Object, Option<&'static Mon>); %d] = [%s];\n" % (len(ifs), T('call'))
    o += "pub static MAKE: [fn(&'static Mon) -> Object; %d] = [%s];\n" % (len(ifs), T('make'))
    o += 'pub static PEEK: [unsafe fn(&Object) -> bool; %d] = [%s];\n' % (len(ifs), T('peek'))
    o += 'pub static CONVERT: [unsafe fn(Object) -> Object; %d] = [%s];\n' % (len(ifs), T('conv'))
    o += 'pub static NAMES: [&str; %d] = [%s];\n' % (len(ifs), ', '.join('"%s"' % n for n in ifs))
    return o + TAIL % {'n': len(ifs)}


def body(N, iface, owner, m):
    sig, use, rets, rtys, mk = [], '', [], [], ''
    for j, p in enumerate(m.params):
        v, T = 'p%d_' % j, N.elem(p)
        if p.dir == 'in':
            if p.pk == 'prim':
                sig.append('%s: %s' % (v, T))
                use += '    %s.touch();\n' % v
            elif p.pk == 'struct':
                sig.append('%s: &%s' % (v, T))
                use += '    %s.touch();\n' % v
            elif p.pk in ('buffer', 'primarr', 'structarr'):
                sig.append('%s: &[%s]' % (v, T))
                use += '    touch(%s);\n' % v
            elif p.pk == 'obj':
                sig.append('%s: Option<&%s>' % (v, N.obj(p.ty)))
                use += '    { let c = %s.cloned(); c.touch(); unsafe { self.keep(c.map(|x| raw(x))) } }\n' % v
            else:
                sig.append('%s: &[Option<%s>; %d]' % (v, N.obj(p.ty), p.cnt))
                use += '    %s.touch();\n    unsafe { self.keep(%s[0].clone().map(|x| raw(x))) };\n' % (v, v)
        elif p.pk in ('buffer', 'primarr', 'structarr'):
            sig += ['%s: &mut [%s]' % (v, T), 'l%s: &mut usize' % v]
            mk += '    { let n = below(%s.len() as u64 + 1) as usize; for x in %s.iter_mut() { *x = V::mk(); } *l%s = n; }\n' % (v, v, v)
        else:
            t = {'prim': T, 'struct': T, 'obj': 'Option<%s>' % N.obj(p.ty), 'objarr': '[Option<%s>; %s]' % (N.obj(p.ty), p.cnt)}[p.pk]
            rtys.append(t)
            rets.append(v)
            mk += '    let %s = <%s as V>::mk();\n' % (v, t)
    rt_ = '()' if not rets else rtys[0] if len(rets) == 1 else '(%s)' % ', '.join(rtys)
    rv = '()' if not rets else rets[0] if len(rets) == 1 else '(%s)' % ', '.join(rets)
    return ('  fn r#%s(&mut self%s) -> Result<%s, crate::interfaces::%s::Error> {\n    let st = want();\n    self.st.begin("%s");\n    churn();\n%s'
            '    if st != 0 { self.st.end("%s"); return Err(crate::object::Error::from(st).into()); }\n%s    self.st.end("%s");\n    Ok(%s)\n  }\n') % (
        m.name, ''.join(', ' + s for s in sig), rt_, owner.lower(), m.name, use, m.name, mk, m.name, rv)


def client(N, iface, owner, m):
    pre, args, post, rets = '', [], '', []
    for j, p in enumerate(m.params):
        v, T = 'p%d_' % j, N.elem(p)
        if p.dir == 'in':
            if p.pk in ('prim', 'struct'):
                pre += '      let %s = <%s as V>::mk();\n' % (v, T)
                args.append(v if p.pk == 'prim' else '&' + v)
            elif p.pk in ('buffer', 'primarr', 'structarr'):
                pre += '      let %s = vec::<%s>();\n' % (v, T)
                args.append('&' + v)
            elif p.pk == 'obj':
                pre += '      let %s = <Option<%s> as V>::mk();\n' % (v, N.obj(p.ty))
                args.append(v + '.as_ref()')
            else:
                pre += '      let %s = <[Option<%s>; %d] as V>::mk();\n' % (v, N.obj(p.ty), p.cnt)
                args.append('&' + v)
        elif p.pk in ('buffer', 'primarr', 'structarr'):
            pre += '      let mut %s = vec::<%s>(); let mut l%s = 0usize;\n' % (v, T, v)
            args += ['&mut ' + v, '&mut l' + v]
            post += '          if l%s > %s.len() { bad("value", "%s.%s: output length beyond the capacity".into()) }\n' % (v, v, iface, m.name)
        else:
            rets.append(v)
    ret = '()' if not rets else rets[0] if len(rets) == 1 else '(%s)' % ', '.join(rets)
    return ('%s      call(mon, "%s.%s", || match h.r#%s(%s) {\n        Ok(%s) => {\n%s          Ok(()) }\n'
            '        Err(e) => Err(i32::from(crate::object::Error::from(e))) });\n') % (pre, iface, m.name, m.name, ', '.join(args), ret, post)


CARGO = """[package]
name = "c20"
version = "0.1.0"
edition = "2021"
[workspace]
[features]
default = ["std"]
std = []
[profile.release]
debug = 1
opt-level = 2
debug-assertions = true
"""
T3 = 'x86_64-unknown-linux-gnu'


def programs(ctx, idlc, n, root):
    """n crates with one binary each; returns {name: program}"""
    src = os.path.join(root, 'src', 'bin')
    shutil.rmtree(os.path.join(root, 'src'), ignore_errors=True)
    shutil.rmtree(os.path.join(root, 'gen'), ignore_errors=True)
    os.makedirs(src)
    common_ = {}
    for i in range(n):
        rng = random.Random(ctx.rng.getrandbits(48))
        while True:
            p = gen.gen_program(rng, {'n_files': rng.choice([1, 1, 2]), 'n_ifaces': rng.choice([2, 3, 5]), 'n_structs': 3, 'n_methods': rng.choice([(1, 2), (1, 4), (3, 7)]), 'max_depth': 3,
                                      'p_obj_struct': .4, 'consts': False, 'float_consts': False})
            if sum(len(p.methods(k)) for k in p.ifaces) >= 3:
                break
        g = os.path.join(root, 'gen', 'p%d' % i)
        os.makedirs(g)
        p.write(g)
        for f in p.files:
            r = idlc(['--rust', '-o', g, os.path.join(g, f.path)], cwd=g)
            if not common.accepted(r):
                raise common.InternalError('rejected: ' + common.diag(r))
        mods = sorted((x[:-3], os.path.join(g, x)) for x in os.listdir(g) if x.endswith('.rs'))
        open(os.path.join(src, 'p%d.rs' % i), 'w').write(crate(p, mods))
        common_['p%d' % i] = p
    open(os.path.join(root, 'Cargo.toml'), 'w').write(CARGO)
    return common_


def cargo(root, target, args, flags='', timeout=600):
    return common.run(['cargo'] + args, cwd=root, timeout=timeout, env={'CARGO_TARGET_DIR': target, 'RUSTFLAGS': flags})


def outcome(r, mode):
    """[(signature, text)] of one run"""
    out = r.stdout.decode(errors='replace')
    err = r.stderr.decode(errors='replace')
    v = [(l.split()[1], l[2:]) for l in out.splitlines() if l.startswith('V ')]
    if v:
        return v
    if r.timed_out:
        return None
    if 'ThreadSanitizer: data race' in err:
        return [('race', err[err.index('WARNING: ThreadSanitizer'):][:3000])]
    if 'ThreadSanitizer' in err:
        return [('tsan', err[err.index('ThreadSanitizer'):][:3000])]
    m = re.search(r'error: (.*(?:\n.*){0,25})', err)
    if mode == 'miri' and r.returncode != 0 and m:
        k = 'miri-' + re.sub(r'[^a-z]+', '-', m.group(1).splitlines()[0].lower())[:60]
        return [(k, m.group(0)[:2500])]
    if r.returncode != 0:
        return [('died', 'exit %d: %s' % (r.returncode, err[-1500:]))]
    return []


def check(ctx):
    idlc = common.Idlc(common.build_idlc())
    root = os.path.join(common.BUILD, 'c20')
    os.makedirs(root, exist_ok=True)
    n = 16 if ctx.thorough else 6
    progs = programs(ctx, idlc, n, root)
    ctx.rule = ('a case is one process running rounds of concurrent clone/invoke/convert/downcast/drop on objects of one random program under one schedule source; '
                'distinct by (program, mode, seed); distinct entry orders are counted separately')
    ctx.assumptions += ['the Rust runtime in /repo/tests/src/object is used as it is; implementations do not invoke themselves and take locks in one order',
                        'the observed schedules are those of the kernel with injected delays and those of Miri\'s random scheduler, not all of them']
    import threading
    logs = {}

    def build(mode):
        if mode == 'native':
            logs[mode] = cargo(root, os.path.join(common.BUILD, 'target-c20'), ['build', '--offline', '--release', '--bins'])
        elif mode == 'tsan':
            logs[mode] = cargo(root, os.path.join(common.BUILD, 'target-c20-tsan'), ['+nightly', 'build', '--offline', '--release', '--bins', '-Zbuild-std', '--target', T3], '-Zsanitizer=thread')
        else:
            logs[mode] = cargo(root, os.path.join(common.BUILD, 'target-c20-miri'), ['+nightly', 'miri', 'run', '--offline', '--bin', 'p0', '--', '1', '0', '2', '1', '0'])
    ts = [threading.Thread(target=build, args=(m,)) for m in ('native', 'tsan', 'miri')]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for m, r in logs.items():
        if r.returncode != 0 and (m != 'miri' or b'could not compile' in r.stderr):
            err = r.stderr.decode(errors='replace')
            e = re.search(r'^error(\[E\d+\]): .*(?:\n.+){0,30}', err, re.M)
            if e and m == 'native':
                ctx.violation('build:' + e.group(1), 'the generated code and conforming implementations do not compile: ' + e.group(0)[:2500], {k + '.rs': open(os.path.join(root, 'src', 'bin', k + '.rs')).read() for k in progs})
                return
            raise common.InternalError('building for %s: %s' % (m, err[-3000:]))
    dirs = {'native': os.path.join(common.BUILD, 'target-c20', 'release'), 'tsan': os.path.join(common.BUILD, 'target-c20-tsan', T3, 'release')}
    jobs = []
    for i, name in enumerate(progs):
        for s in range(12 if ctx.thorough else 3):
            jobs.append(('native', name, ['%d' % (1 + s * 100000), '400', '6', '20', '%d' % [0, 1, 20][s % 3]], {}))
        for s in range(6 if ctx.thorough else 2):
            jobs.append(('tsan', name, ['%d' % (7 + s * 100000), '120', '5', '16', '%d' % [1, 20][s % 2]], {}))
        for s in range(40 if ctx.thorough else 4):
            jobs.append(('miri', name, ['%d' % (3 + s * 1000), '3', '3', '4', '1'], {'MIRIFLAGS': '-Zmiri-seed=%d -Zmiri-preemption-rate=%s -Zmiri-disable-stacked-borrows' % (s * 31 + i, ['0.01', '0.1', '0.3'][s % 3])}))
        # bursts on one object at the edge of its life: no noise, every thread released at once
        for s in range(8 if ctx.thorough else 2):
            jobs.append(('native', name, ['%d' % (11 + s * 100000), '6000', '%d' % (2 + s % 3), '0', '%d' % [0, 1][s % 2]], {}))
        jobs.append(('tsan', name, ['13', '1500', '3', '0', '0'], {}))
        for s in range(30 if ctx.thorough else 3):
            jobs.append(('miri', name, ['%d' % (5 + s * 1000), '8', '2', '0', '0'], {'MIRIFLAGS': '-Zmiri-seed=%d -Zmiri-preemption-rate=%s -Zmiri-disable-stacked-borrows' % (s * 17 + i, ['0.1', '0.3', '0.05'][s % 3])}))
    # native processes use several cores; run the three kinds side by side
    jobs.sort(key=lambda j: j[0] != 'miri')

    stuck = [0]

    def work(j):
        mode, name, args, env = j
        if ctx.left() < 30 or stuck[0] >= 2:
            return j, None
        if mode == 'miri':
            e = {'CARGO_TARGET_DIR': os.path.join(common.BUILD, 'target-c20-miri')}
            e.update(env)
            return j, common.run(['cargo', '+nightly', 'miri', 'run', '--offline', '-q', '--bin', name, '--'] + args, cwd=root, timeout=150, env=e)
        e = {'TSAN_OPTIONS': 'halt_on_error=1 exitcode=66'} if mode == 'tsan' else {}
        r = common.run([os.path.join(dirs[mode], name)] + args, cwd=root, timeout=120, env=e)
        stuck[0] += b'V deadlock' in r.stdout
        return j, r
    for (mode, name, args, env), r in common.parmap(work, jobs):
        if r is None:
            ctx.count('skipped_for_time')
            continue
        ctx.case((progs[name].text(), mode, tuple(args), tuple(env.items())))
        ctx.count('runs_' + mode)
        m = re.search(rb'^S (.*)$', r.stdout, re.M)
        if m:
            w = m.group(1).decode().split()
            for k, v in zip(w[::2], w[1::2]):
                ctx.count('%s_%s' % (mode, k), int(v))
            ctx.sample('%s %s %s: %s' % (mode, name, args, m.group(1).decode()))
        out = outcome(r, mode)
        if out is None:
            ctx.count('unfinished_' + mode)
            continue
        for sig, what in out:
            ctx.violation('%s:%s' % (mode, sig), '%s %s\n%s' % (name, args, what), dict(common.program_files(progs[name]), **{'main.rs': open(os.path.join(root, 'src', 'bin', name + '.rs')).read()}))
    for k in ('native_burst_bodies', 'native_burst_references', 'native_bodies', 'native_contended', 'tsan_bodies', 'miri_bodies'):
        if not ctx.violations and ctx.counters.get(k, 0) == 0:
            ctx.inconclusive.append('nothing observed: ' + k)
