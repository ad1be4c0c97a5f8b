//! Simulation runtime: who is running (library or harness), fault points, violations, the outcome of
//! one library call, and the registry of tracked values.

use crate::heap::heap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- PRNG

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(s)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
}

pub fn hash2(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0xff51afd7ed558ccd));
    r.next()
}

// ---------------------------------------------------------------- state

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TState {
    Live,
    Dead,
    /// lost with an excuse, or leaked on purpose
    Leaked,
}

#[derive(Clone, Copy)]
pub struct Rec {
    pub payload: u32,
    pub state: TState,
    /// operation that created it
    pub op: u32,
    /// stamp at which it was handed to the library for good (an `initialize` that owns it was entered, or a
    /// callback returned it)
    pub consumed: u32,
    /// its container is being destroyed in this operation
    pub doomed: u32,
    pub seen: u32,
    pub pos: u32,
}

pub struct Rt {
    pub in_lib: bool,
    pub viol: Option<(String, String)>,
    pub toks: Vec<Rec>,
    pub live: Vec<u32>,
    pub live_tz: i64,
    pub excused_tz: i64,
    pub op: u32,
    /// current unit of construction: one per operation, and one per item of a bulk insertion
    pub stamp: u32,
    // faults
    pub armed: bool,
    pub cb_at: i64,
    pub drop_at: i64,
    pub fired_cb: u32,
    pub fired_drop: u32,
    pub n_cb: u32,
    pub n_drop: u32,
    pub forbid_cb: bool,
    pub last_panic: String,
    pub seen_epoch: u32,
    pub tot_cb: u64,
    pub tot_drop: u64,
    pub created: u32,
    /// layouts of hand-written types that exist
    pub layouts: i64,
    /// what closures and iterators in the library's hands own
    pub guests: i64,
    /// the callback (or destructor) that uses the library itself
    pub again_at: i64,
    pub again_seed: u64,
    pub tot_again: u64,
    pub next_mark: u32,
}

static mut RT: *mut Rt = std::ptr::null_mut();
static mut VIOL_SINK: *mut u8 = std::ptr::null_mut();

#[inline]
pub fn rt() -> &'static mut Rt {
    unsafe { &mut *RT }
}
#[inline]
pub fn in_lib() -> bool {
    unsafe { !RT.is_null() && (*RT).in_lib }
}

/// Shared progress file: [0..8) run seed in progress, [8..16) current op, [16..] violation text.
pub fn set_sink(p: *mut u8) {
    unsafe { VIOL_SINK = p }
}
pub fn sink_u64(slot: usize, v: u64) {
    unsafe {
        if !VIOL_SINK.is_null() {
            (VIOL_SINK as *mut u64).add(slot).write_volatile(v)
        }
    }
}
fn sink_text(s: &str) {
    unsafe {
        if !VIOL_SINK.is_null() {
            let n = s.len().min(900);
            std::ptr::copy_nonoverlapping(s.as_ptr(), VIOL_SINK.add(64), n);
            VIOL_SINK.add(64 + n).write_volatile(0);
        }
    }
}

/// Leave library context for the duration of harness code.
pub struct Harness(bool);
impl Harness {
    #[inline]
    pub fn enter() -> Harness {
        let r = rt();
        let o = r.in_lib;
        r.in_lib = false;
        Harness(o)
    }
}
impl Drop for Harness {
    #[inline]
    fn drop(&mut self) {
        // While unwinding the panic hook or `resume` already left library context; only restore what was.
        rt().in_lib = self.0;
    }
}

/// Record a violation (the first one of a run counts).
pub fn viol(class: &str, msg: &str) {
    let r = rt();
    let o = r.in_lib;
    r.in_lib = false;
    if r.viol.is_none() {
        sink_text(&format!("{}\t{}", class, msg));
        r.viol = Some((class.to_string(), msg.to_string()));
        r.armed = false;
        if std::env::var_os("SIM_BT").is_some() {
            eprintln!("VIOL {}: {}\n{}", class, msg, std::backtrace::Backtrace::force_capture());
        }
    }
    r.in_lib = o;
}
pub fn bad() -> bool {
    rt().viol.is_some()
}

pub const SPENT: &str = "spent";

pub struct SimPanic(pub u64);
pub struct AllocErr;
/// The harness gave up on this run (only after a violation was recorded).
pub struct Abort;

fn resume(b: Box<dyn std::any::Any + Send>) -> ! {
    rt().in_lib = false;
    resume_unwind(b)
}

pub fn abort_run() -> ! {
    rt().in_lib = false;
    resume_unwind(Box::new(Abort))
}

pub fn init() {
    unsafe {
        RT = Box::into_raw(Box::new(Rt {
            in_lib: false,
            viol: None,
            toks: Vec::with_capacity(1 << 16),
            live: Vec::new(),
            live_tz: 0,
            excused_tz: 0,
            op: 0,
            stamp: 1,
            armed: false,
            cb_at: -1,
            drop_at: -1,
            fired_cb: 0,
            fired_drop: 0,
            n_cb: 0,
            n_drop: 0,
            forbid_cb: false,
            last_panic: String::new(),
            seen_epoch: 0,
            tot_cb: 0,
            tot_drop: 0,
            created: 0,
            layouts: 0,
            guests: 0,
            again_at: -1,
            again_seed: 0,
            tot_again: 0,
            next_mark: 0,
        }));
    }
    std::panic::set_hook(Box::new(|info| {
        let r = rt();
        r.in_lib = false;
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("?")
        };
        if std::env::var_os("SIM_PANICS").is_some() {
            eprintln!("panic: {} at {:?}", m, info.location());
        }
        r.last_panic = m;
    }));
    std::alloc::set_alloc_error_hook(|_| {
        resume(Box::new(AllocErr));
    });
}

pub fn reset() {
    let r = rt();
    r.in_lib = false;
    r.viol = None;
    r.toks.clear();
    r.toks.push(Rec { payload: 0, state: TState::Dead, op: 0, consumed: 0, doomed: 0, seen: 0, pos: 0 });
    r.live.clear();
    r.live_tz = 0;
    r.excused_tz = 0;
    r.op = 0;
    r.stamp = 1;
    r.layouts = 0;
    r.guests = 0;
    r.next_mark = 0;
    disarm();
    r.seen_epoch = 0;
    sink_text("");
}

/// Owned by a closure or an iterator that is handed to the library.
pub struct Guest(u32);
const GUEST: u32 = 0x6E57_6E57;
impl Guest {
    pub fn new() -> Guest {
        rt().guests += 1;
        Guest(GUEST)
    }
    /// To be called whenever the closure or iterator is.
    #[inline]
    pub fn here(&self) {
        if unsafe { std::ptr::read_volatile(&self.0) } != GUEST {
            viol("use-dead", "a closure or iterator is called after its destruction");
            abort_run();
        }
    }
}
impl Drop for Guest {
    fn drop(&mut self) {
        self.here();
        unsafe { std::ptr::write_volatile(&mut self.0, 0) };
        rt().guests -= 1;
    }
}

pub fn disarm() {
    let r = rt();
    r.armed = false;
    r.cb_at = -1;
    r.drop_at = -1;
    r.forbid_cb = false;
    r.again_at = -1;
}

/// Some callbacks use the library themselves, on containers of their own.
#[inline]
fn again() {
    let r = rt();
    if r.again_at >= 0 {
        if r.again_at == 0 {
            r.again_at = (r.again_seed % 7) as i64 - 1;
            r.again_seed = hash2(r.again_seed, 5);
            let armed = std::mem::replace(&mut r.armed, false);
            r.tot_again += 1;
            crate::again::simulate(r.again_seed);
            rt().armed = armed;
        } else {
            r.again_at -= 1;
        }
    }
}

// ---------------------------------------------------------------- faults

/// A point inside user code called by the library.  May panic.
pub fn cb_point() {
    let r = rt();
    if !r.armed {
        return;
    }
    r.n_cb += 1;
    r.tot_cb += 1;
    if r.forbid_cb && r.viol.is_none() {
        viol("forbidden-callback", "user code that fills the value ran although the value cannot exist");
        abort_run();
    }
    again();
    let r = rt();
    if r.cb_at >= 0 {
        if r.cb_at == 0 {
            r.cb_at = -1;
            if !std::thread::panicking() {
                r.fired_cb += 1;
                let n = ((r.op as u64) << 8) | 1;
                resume(Box::new(SimPanic(n)));
            }
        } else {
            r.cb_at -= 1;
        }
    }
}

pub fn drop_point() {
    let r = rt();
    if !r.armed {
        return;
    }
    r.n_drop += 1;
    r.tot_drop += 1;
    again();
    let r = rt();
    if r.drop_at >= 0 {
        if r.drop_at == 0 {
            // A destructor that panics while another panic unwinds would end the process by design.
            if !std::thread::panicking() {
                r.drop_at = -1;
                r.fired_drop += 1;
                let n = ((r.op as u64) << 8) | 2;
                resume(Box::new(SimPanic(n)));
            }
        } else {
            r.drop_at -= 1;
        }
    }
}

// ---------------------------------------------------------------- library calls

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Fail {
    /// the injected panic reached the caller
    Injected,
    AllocErr,
    /// the library itself panicked
    Lib(String),
    Abort,
}

pub type R<T> = Result<T, Fail>;

fn lib0<T>(f: impl FnOnce() -> T) -> R<T> {
    let out = catch_unwind(AssertUnwindSafe(f));
    let r = rt();
    r.in_lib = false;
    match out {
        Ok(v) => Ok(v),
        Err(p) => Err(if p.is::<SimPanic>() {
            let SimPanic(n) = *p.downcast::<SimPanic>().unwrap();
            if n >> 8 != r.op as u64 {
                viol("swallowed-panic", "a panic of an earlier operation surfaced");
            }
            Fail::Injected
        } else if p.is::<AllocErr>() {
            Fail::AllocErr
        } else if p.is::<Abort>() {
            Fail::Abort
        } else {
            Fail::Lib(std::mem::take(&mut r.last_panic))
        }),
    }
}

/// Run library code: simulated allocator on, faults (if armed) live.
#[inline]
pub fn lib<T>(f: impl FnOnce() -> T) -> R<T> {
    let r = rt();
    let old = r.in_lib;
    r.in_lib = true;
    let res = lib0(f);
    rt().in_lib = old;
    res
}

// ---------------------------------------------------------------- registry

pub const MAX_TOKS: usize = 48_000;

pub fn new_tok(payload: u32) -> u32 {
    let r = rt();
    let id = r.toks.len() as u32;
    if r.toks.len() >= 65_000 {
        // no verdict from this run
        viol(SPENT, "out of tracked values");
        return 0;
    }
    r.toks.push(Rec {
        payload,
        state: TState::Live,
        op: r.op,
        consumed: 0,
        doomed: 0,
        seen: 0,
        pos: r.live.len() as u32,
    });
    r.live.push(id);
    r.created += 1;
    id
}

fn unlive(id: u32) {
    let r = rt();
    let pos = r.toks[id as usize].pos as usize;
    r.live.swap_remove(pos);
    if pos < r.live.len() {
        let m = r.live[pos];
        r.toks[m as usize].pos = pos as u32;
    }
}

pub fn leak_tok(id: u32) {
    unlive(id);
    rt().toks[id as usize].state = TState::Leaked;
}

pub fn is_live(id: u32) -> bool {
    rt().toks.get(id as usize).map_or(false, |t| t.state == TState::Live)
}

thread_local! {
    static DEBUG_TOK: Option<u32> = std::env::var("SIM_TOK").ok().and_then(|s| s.parse().ok());
}

/// Destructor of a tracked value.
pub fn tok_drop(id: Option<u32>, what: &str) {
    let _g = Harness::enter();
    let r = rt();
    if r.viol.is_some() {
        return;
    }
    let Some(id) = id else {
        viol("garbage-drop", &format!("a destructor of {} ran on bytes that were never a value", what));
        return;
    };
    match r.toks.get(id as usize).map(|t| t.state) {
        None => {
            viol("garbage-drop", &format!("a destructor of {} ran on bytes that were never a value", what));
            return;
        }
        Some(TState::Dead) => {
            viol("double-drop", &format!("value #{} ({}) was destroyed twice", id, what));
            return;
        }
        Some(TState::Leaked) => {
            viol("double-drop", &format!("value #{} ({}) was destroyed although it was given up", id, what));
            return;
        }
        Some(TState::Live) => {}
    }
    if DEBUG_TOK.with(|d| *d) == Some(id) {
        eprintln!("value #{} destroyed\n{}", id, std::backtrace::Backtrace::force_capture());
    }
    r.toks[id as usize].state = TState::Dead;
    unlive(id);
    drop_point();
}

pub fn tok_clone(id: Option<u32>, what: &str) -> u32 {
    let _g = Harness::enter();
    let live = id.map_or(false, is_live);
    if !live {
        viol("use-dead", &format!("clone of a {} that is not alive", what));
        abort_run();
    }
    cb_point();
    let p = rt().toks[id.unwrap() as usize].payload;
    let n = new_tok(p);
    rt().toks[n as usize].consumed = rt().stamp;
    n
}

pub fn tz_new() {
    rt().live_tz += 1;
    rt().created += 1;
}
pub fn tz_drop() {
    let _g = Harness::enter();
    let r = rt();
    if r.viol.is_some() {
        return;
    }
    r.live_tz -= 1;
    if r.live_tz < 0 {
        viol("double-drop", "more zero-sized values were destroyed than were created");
        return;
    }
    drop_point();
}

pub fn consume(ids: &[u32]) {
    let r = rt();
    let stamp = r.stamp;
    for &i in ids {
        if let Some(t) = r.toks.get_mut(i as usize) {
            t.consumed = stamp;
        }
    }
}

pub fn heap_in_use(addr: usize, n: usize) -> bool {
    heap().containing(addr, n).is_some()
}

/// The library asks a user-defined initializer for its size.  May panic; allowed even for impossible sizes.
pub fn layout_point() {
    let r = rt();
    if !r.armed || r.forbid_cb {
        return;
    }
    cb_point();
}

/// Run library code that cannot allocate, with harness bookkeeping inside.
pub fn calm<T>(f: impl FnOnce() -> T) -> R<T> {
    let r = rt();
    let old = r.in_lib;
    r.in_lib = false;
    let out = lib0(f);
    rt().in_lib = old;
    out
}
