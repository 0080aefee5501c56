//! Monitors for concurrent use of generated Rust objects.
//!
//! Everything shared between threads here is a Relaxed atomic or thread-local,
//! so that the monitors add no ordering that could hide a race from
//! ThreadSanitizer or Miri.
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, Ordering::Relaxed};

pub struct Mon {
    pub id: u32,
    pub active: AtomicU32,
    pub held: AtomicI64,
    pub done: AtomicU64,
    pub entered: AtomicU64,
    pub drops: AtomicU32,
    pub last: AtomicU64,
    pub order: AtomicU64,
    pub peeks: AtomicU64,
}

pub static BAD: AtomicU32 = AtomicU32::new(0);
pub fn bad(kind: &str, what: String) {
    if BAD.fetch_add(1, Relaxed) < 20 {
        println!("V {} {}", kind, what);
    }
}

thread_local! {
    static RNG: Cell<u64> = Cell::new(0x9E3779B97F4A7C15);
    static ME: Cell<u64> = Cell::new(0);
    /// least number of completed invocations the next body must have seen
    static EXPECT: Cell<(u32, u64)> = Cell::new((0, 0));
    /// error the next body must return (0: none) and whether a body ran
    static WANT: Cell<i32> = Cell::new(0);
    static RAN: Cell<u32> = Cell::new(0);
    pub static DEPTH: Cell<u32> = Cell::new(0);
    pub static RANK: Cell<u32> = Cell::new(u32::MAX);
    static MINE: RefCell<Vec<&'static Mon>> = RefCell::new(Vec::new());
}
static SPIN: AtomicU32 = AtomicU32::new(0);
pub fn set_noise(n: u32) { SPIN.store(n, Relaxed) }

pub fn seed(s: u64, me: u64) { RNG.with(|r| r.set(s.wrapping_mul(0xD1342543DE82EF95) ^ me.wrapping_mul(0x2545F4914F6CDD1D) | 1)); ME.with(|m| m.set(me)); for _ in 0..4 { rnd(); } }
pub fn rnd() -> u64 { RNG.with(|r| { let mut x = r.get(); x ^= x << 13; x ^= x >> 7; x ^= x << 17; r.set(x); x.wrapping_mul(0x2545F4914F6CDD1D) }) }
pub fn below(n: u64) -> u64 { (rnd() >> 33) % n }

pub fn delay() {
    match SPIN.load(Relaxed) {
        0 => {}
        1 => if below(2) == 0 { std::thread::yield_now() },
        n => match below(8) {
            0 => std::thread::yield_now(),
            1 => for _ in 0..below(n as u64 * 50) { std::hint::spin_loop() },
            2 => if below(16) == 0 { std::thread::sleep(std::time::Duration::from_micros(below(60))) },
            _ => {}
        },
    }
}

pub fn new_mon() -> &'static Mon {
    let m: &'static Mon = Box::leak(Box::new(Mon {
        id: 0, active: AtomicU32::new(0), held: AtomicI64::new(0), done: AtomicU64::new(0), entered: AtomicU64::new(0),
        drops: AtomicU32::new(0), last: AtomicU64::new(0), order: AtomicU64::new(0), peeks: AtomicU64::new(0) }));
    MINE.with(|v| v.borrow_mut().push(m));
    m
}
pub fn take_mons() -> Vec<&'static Mon> { MINE.with(|v| std::mem::take(&mut *v.borrow_mut())) }

/// Implementation state. Plain memory: only the skeleton's lock protects it.
pub struct St {
    pub mon: &'static Mon,
    pub who: &'static str,
    a: u64,
    b: u64,
    ring: [u64; 8],
    hash: u64,
}
impl St {
    pub fn new(who: &'static str) -> St { St::with(who, new_mon()) }
    pub fn with(who: &'static str, mon: &'static Mon) -> St { St { mon, who, a: 0, b: !0, ring: [0; 8], hash: 0 } }
    fn check(&self, at: &str) {
        if self.a != !self.b || self.ring[(self.a % 8) as usize] > self.a { bad("torn", format!("{} {}: state torn by another body", self.who, at)); }
        if self.mon.drops.load(Relaxed) != 0 { bad("dead", format!("{} {}: method body runs after the implementation was dropped", self.who, at)); }
    }
    pub fn begin(&mut self, name: &str) {
        if self.mon.active.fetch_add(1, Relaxed) != 0 { bad("overlap", format!("{}.{} entered while another body of the same instance runs", self.who, name)); }
        self.mon.entered.fetch_add(1, Relaxed);
        RAN.with(|r| r.set(r.get() + 1));
        self.check(name);
        let (who, least) = EXPECT.with(|e| e.replace((0, 0)));
        if who == self.mon as *const Mon as usize as u32 && self.a < least {
            bad("stale", format!("{}.{} saw {} completed invocations, {} had completed before it started", self.who, name, self.a, least));
        }
        let v = self.a;
        delay();
        self.a = v + 1;
        delay();
        self.b = !(v + 1);
        self.ring[((v + 1) % 8) as usize] = v + 1;
        self.hash = self.hash.wrapping_mul(0x100000001B3) ^ (ME.with(|m| m.get()) + 1);
    }
    /// the error this body must return, 0 for none
    pub fn end(&mut self, name: &str) {
        delay();
        self.check(name);
        let n = self.mon.active.fetch_sub(1, Relaxed);
        if n != 1 { bad("overlap", format!("{}.{} left while {} bodies of the same instance run", self.who, name, n)); }
    }
    pub fn peek(&self) {
        self.mon.peeks.fetch_add(1, Relaxed);
        if self.mon.active.load(Relaxed) != 0 { bad("overlap", format!("{}: concrete value lent out while a body runs", self.who)); }
        self.check("peek");
    }
}
impl Drop for St {
    fn drop(&mut self) {
        delay();
        self.check("drop");
        let m = self.mon;
        if m.active.load(Relaxed) != 0 { bad("drop-running", format!("{} dropped while a method body runs", self.who)); }
        let h = m.held.load(Relaxed);
        if h > 0 { bad("drop-early", format!("{} dropped while {} references are held", self.who, h)); }
        m.last.store(self.a, Relaxed);
        m.order.store(self.hash, Relaxed);
        if m.drops.fetch_add(1, Relaxed) != 0 { bad("drop-twice", format!("{} dropped twice", self.who)); }
    }
}

/// advances as long as some thread gets on with its work
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
/// reports threads that wait for each other for ever (Miri finds that by itself)
pub fn watchdog() {
    if cfg!(miri) { return }
    std::thread::spawn(|| {
        let (mut last, mut idle) = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(250));
            let p = PROGRESS.load(Relaxed);
            if p == last { idle += 1 } else { idle = 0; last = p }
            if idle >= 100 {
                bad("deadlock", format!("no invocation, clone or release completed for 25 s after {} of them", p));
                std::process::exit(3);
            }
        }
    });
}

pub fn want() -> i32 { WANT.with(|w| w.replace(0)) }

/// Runs one invocation on an instance and checks what its caller sees.
pub fn call(mon: Option<&'static Mon>, who: &str, f: impl FnOnce() -> Result<(), i32>) {
    let err = if below(6) == 0 { 10 + below(3) as i32 } else { 0 };
    let (w0, e0, r0) = (WANT.with(|w| w.replace(err)), EXPECT.with(|e| e.get()), RAN.with(|r| r.replace(0)));
    if let Some(m) = mon { EXPECT.with(|e| e.set((m as *const Mon as usize as u32, m.done.load(Relaxed)))); }
    else { EXPECT.with(|e| e.set((0, 0))); }
    let r = f();
    PROGRESS.fetch_add(1, Relaxed);
    let ran = RAN.with(|r| r.replace(r0));
    WANT.with(|w| w.set(w0));
    EXPECT.with(|e| e.set(e0));
    if let Some(m) = mon { m.done.fetch_add(1, Relaxed); }
    if ran != 1 { bad("bodies", format!("{}: {} method bodies ran for one invocation", who, ran)); }
    match r {
        Ok(()) => if err != 0 { bad("status", format!("{}: returned success, the body returned {}", who, err)) },
        Err(e) => if e != err { bad("status", format!("{}: returned {}, the body returned {}", who, e, err)) },
    }
}

/// checks one finished instance; all threads that could hold it have ended
pub fn finished(m: &'static Mon, calls: Option<u64>) -> (u64, u64) {
    let d = m.drops.load(Relaxed);
    if d != 1 { bad("drop-count", format!("implementation dropped {} times after its last reference was released", d)); }
    if m.active.load(Relaxed) != 0 { bad("active", "bodies still running after all threads ended".into()); }
    let (e, l) = (m.entered.load(Relaxed), m.last.load(Relaxed));
    if d > 0 && e != l { bad("lost", format!("{} bodies ran but the implementation counted {}", e, l)); }
    if let Some(c) = calls { if c > e { bad("lost", format!("{} invocations completed, {} bodies ran", c, e)); } }
    (e, m.order.load(Relaxed))
}
