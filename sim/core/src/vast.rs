//! Sequences and boxes of many megabytes to several gigabytes.  Their storage lies in a sparse region of its
//! own: only the pages that are really touched exist, and a moving reallocation moves pages, not bytes.
//! The element types hold uninitialised bytes, of which a few marks are written, so that a value of two
//! gigabytes costs three pages.

use crate::elem::round_up;
use crate::leaf::LenB;
use crate::heap::{heap, RED};
use crate::rt::*;
use std::alloc::Layout;
use std::mem::MaybeUninit;
use std::pin::Pin;
use varlen::array_init::*;
use varlen::define_varlen;
use varlen::owned::Owned;
use varlen::prelude::*;
use varlen::seq::{CheckedIndexing, Indexing, UncheckedIndexing};
use varlen::Layout as _;

const VBASE: usize = 0x100_0000_0000;
const VREGION: usize = 192 << 30;
const PAGE: usize = 4096;
/// Smaller requests go to the ordinary simulated heap.
const VMIN: usize = 256 << 10;
const GARB: usize = 16 << 10;

struct VBlock {
    start: usize,
    size: usize,
    align: usize,
    /// page ranges that can be moved as one
    segs: Vec<(usize, usize)>,
    live: bool,
}

pub struct Vast {
    on: bool,
    mapped: u8,
    cur: usize,
    blocks: Vec<VBlock>,
    env: u64,
    pub moved: u32,
    pub n_req: u32,
}

static mut VAST: Vast = Vast { on: false, mapped: 0, cur: 0, blocks: Vec::new(), env: 0, moved: 0, n_req: 0 };

pub fn vast() -> &'static mut Vast {
    unsafe { &mut VAST }
}

#[inline]
pub fn is_vast(p: usize) -> bool {
    p.wrapping_sub(VBASE) < VREGION
}

unsafe fn map(a: usize, n: usize, prot: i32, fixed: i32) -> bool {
    let p = libc::mmap(
        a as *mut libc::c_void,
        n,
        prot,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | fixed,
        -1,
        0,
    );
    if p as usize != a && p != libc::MAP_FAILED {
        libc::munmap(p, n);
    }
    p as usize == a
}

unsafe fn pat(lo: usize, hi: usize, seed: u64) {
    for a in lo..hi {
        *(a as *mut u8) = (hash2(seed, a as u64) >> 13) as u8;
    }
}
const RSEED: u64 = 0x5EED_4A57;

impl Vast {
    pub fn begin(&mut self, env: u64) -> bool {
        unsafe {
            if self.mapped == 0 {
                self.mapped = 1 + map(VBASE, VREGION, libc::PROT_NONE, libc::MAP_FIXED_NOREPLACE) as u8;
            }
        }
        self.on = self.mapped == 2;
        self.cur = VBASE;
        self.blocks.clear();
        self.env = env;
        self.moved = 0;
        self.n_req = 0;
        self.on
    }
    /// The size of a block that was never returned.
    pub fn lost(&self) -> Option<usize> {
        self.blocks.iter().find(|b| b.live).map(|b| b.size)
    }
    pub fn end(&mut self) {
        self.on = false;
        unsafe {
            map(VBASE, self.cur - VBASE + PAGE, libc::PROT_NONE, libc::MAP_FIXED);
        }
    }
    fn rnd(&mut self) -> u64 {
        self.env = hash2(self.env, 7);
        self.env
    }
    pub fn wants(&self, size: usize) -> bool {
        self.on && size >= VMIN
    }

    fn red(&self, i: usize) -> bool {
        let b = &self.blocks[i];
        for (lo, hi, what) in [(b.start - RED, b.start, "before"), (b.start + b.size, b.start + b.size + RED, "after")] {
            for a in lo..hi {
                if unsafe { *(a as *const u8) } != (hash2(RSEED, a as u64) >> 13) as u8 {
                    viol("alloc-overrun", &format!("byte {} the block of size {} align {} was written (offset {} from its start)", what, b.size, b.align, a as isize - b.start as isize));
                    return false;
                }
            }
        }
        true
    }
    fn check(&self) -> bool {
        (0..self.blocks.len()).all(|i| !self.blocks[i].live || self.red(i))
    }

    unsafe fn dress(&mut self, i: usize, from: usize) {
        let (s, n) = (self.blocks[i].start, self.blocks[i].size);
        pat(s - RED, s, RSEED);
        pat(s + n, s + n + RED, RSEED);
        // fresh memory is not zero, where somebody may look
        let e = self.rnd();
        if from < n {
            pat(s + from, s + n.min(from + GARB), e);
            pat((s + n).saturating_sub(GARB).max(s + from), s + n, e);
            let m = s + from + (n - from) / 2;
            pat(m, (s + n).min(m + 64), e);
        }
    }

    /// Undo `dress` for a block just obtained: the rest of its pages are zero.
    pub unsafe fn clear(&mut self, p: usize) {
        if let Some(b) = self.blocks.iter().rfind(|b| b.start == p && b.live) {
            let (s, n) = (b.start, b.size);
            for (lo, hi) in [(s, s + n.min(GARB)), ((s + n).saturating_sub(GARB).max(s), s + n), (s + n / 2, (s + n).min(s + n / 2 + 64))] {
                std::ptr::write_bytes(lo as *mut u8, 0, hi - lo);
            }
        }
    }

    /// A slot for `size` bytes whose start has the page offset `off`.
    unsafe fn slot(&mut self, size: usize, align: usize, off: Option<usize>) -> usize {
        let r = self.rnd() as usize;
        let off = off.unwrap_or_else(|| {
            let o = round_up(RED + r % 1024, align);
            // as little aligned as the request allows
            if o & (2 * align - 1) == 0 { o + align } else { o }
        });
        let lo = round_up(self.cur, PAGE.max(align));
        let start = lo + off;
        let hi = round_up(start + size + RED, PAGE);
        if hi + (1 << 20) > VBASE + VREGION {
            heap().exhausted = true;
            return 0;
        }
        if !map(lo, hi - lo, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_FIXED) {
            heap().exhausted = true;
            return 0;
        }
        self.cur = hi + PAGE;
        start
    }

    pub unsafe fn alloc(&mut self, l: Layout) -> *mut u8 {
        self.n_req += 1;
        let s = self.slot(l.size(), l.align(), None);
        if s == 0 {
            return std::ptr::null_mut();
        }
        let lo = s & !(PAGE - 1);
        self.blocks.push(VBlock { start: s, size: l.size(), align: l.align(), segs: vec![(lo, round_up(s + l.size() + RED, PAGE) - lo)], live: true });
        self.dress(self.blocks.len() - 1, 0);
        s as *mut u8
    }

    fn find(&self, p: usize, l: Layout, what: &str) -> Option<usize> {
        let Some(i) = self.blocks.iter().rposition(|b| b.start == p) else {
            viol("alloc-unknown-free", &format!("{} of an address that was never handed out", what));
            return None;
        };
        let b = &self.blocks[i];
        if !b.live {
            viol("alloc-double-free", &format!("{} of a block already returned", what));
            return None;
        }
        if b.size != l.size() || b.align != l.align() {
            viol("alloc-mismatch", &format!("{} with size {} align {}, requested with size {} align {}", what, l.size(), l.align(), b.size, b.align));
            return None;
        }
        Some(i)
    }

    unsafe fn gone(&mut self, i: usize) {
        self.blocks[i].live = false;
        for &(a, n) in &self.blocks[i].segs {
            // any further use is a crash
            map(a, n, libc::PROT_NONE, libc::MAP_FIXED);
        }
    }

    pub unsafe fn free(&mut self, p: usize, l: Layout) {
        if let Some(i) = self.find(p, l, "deallocation") {
            if self.red(i) {
                self.gone(i);
            }
        }
    }

    pub unsafe fn realloc(&mut self, p: usize, l: Layout, new: usize, refuse: impl FnOnce() -> bool) -> *mut u8 {
        let Some(i) = self.find(p, l, "reallocation") else { return std::ptr::null_mut() };
        if refuse() || !self.red(i) {
            return std::ptr::null_mut();
        }
        self.n_req += 1;
        let (start, size) = (self.blocks[i].start, self.blocks[i].size);
        let end = round_up(start + size + RED, PAGE);
        let last = end + PAGE == self.cur;
        if new <= size || (last && self.rnd() & 3 == 0) {
            let e2 = round_up(start + new + RED, PAGE);
            if e2 > end {
                if e2 + (1 << 20) > VBASE + VREGION || !map(end, e2 - end, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_FIXED) {
                    heap().exhausted = true;
                    return std::ptr::null_mut();
                }
                self.blocks[i].segs.push((end, e2 - end));
                self.cur = e2 + PAGE;
            }
            self.blocks[i].size = new;
            self.dress(i, size);
            return p as *mut u8;
        }
        let q = self.slot(new, l.align(), Some(start & (PAGE - 1)));
        if q == 0 {
            return std::ptr::null_mut();
        }
        self.moved += 1;
        let d = (q & !(PAGE - 1)) - (start & !(PAGE - 1));
        let mut segs = Vec::new();
        let mut moved_end = 0;
        for (a, n) in std::mem::take(&mut self.blocks[i].segs) {
            let r = libc::mremap(a as *mut libc::c_void, n, n, libc::MREMAP_MAYMOVE | libc::MREMAP_FIXED, (a + d) as *mut libc::c_void);
            if r as usize != a + d {
                // a machine that cannot: no verdict from this run
                heap().exhausted = true;
                return std::ptr::null_mut();
            }
            // nothing else may land where the pages were
            map(a, n, libc::PROT_NONE, libc::MAP_FIXED);
            segs.push((a + d, n));
            moved_end = a + d + n;
        }
        let qend = round_up(q + new + RED, PAGE);
        if qend > moved_end {
            segs.push((moved_end, qend - moved_end));
        }
        self.blocks[i].live = false;
        self.blocks.push(VBlock { start: q, size: new, align: l.align(), segs, live: true });
        self.dress(self.blocks.len() - 1, size);
        q as *mut u8
    }

    fn containing(&self, p: usize, n: usize) -> Option<&VBlock> {
        self.blocks.iter().find(|b| b.live && p >= b.start && p + n <= b.start + b.size)
    }
}

// ---------------------------------------------------------------- element types

type MU8 = MaybeUninit<u8>;
type MU64 = MaybeUninit<u64>;

/// Marks some of the bytes and leaves everything else as it is.
pub struct Stamp(u64);

/// Marks: eight bytes each at the start, in the middle, at the end and in places of the stamp's choice.
const MARKS: usize = 8;
fn spot(stamp: u64, n: usize, k: usize) -> usize {
    match k {
        0 => 0,
        1 => n / 2,
        2 => n.saturating_sub(8),
        _ => hash2(stamp, k as u64) as usize % n.max(1),
    }
}
/// The bytes of the marks.
fn marks(stamp: u64, n: usize) -> impl Iterator<Item = (usize, u8)> {
    (0..MARKS).flat_map(move |k| {
        let a = spot(stamp, n, k);
        (a..n.min(a + 8)).map(move |a| (a, (hash2(stamp, a as u64) >> 9) as u8 | 1))
    })
}
unsafe impl<T> ArrayInitializer<MaybeUninit<T>> for Stamp {
    fn initialize(self, dst: &mut [MaybeUninit<MaybeUninit<T>>]) {
        let _g = Harness::enter();
        let n = std::mem::size_of_val(dst);
        let p = dst.as_mut_ptr() as *mut u8;
        for (a, v) in marks(self.0, n) {
            unsafe { *p.add(a) = v };
        }
    }
}
fn slice_ok<T>(x: &[MaybeUninit<T>], n: usize, stamp: u64, what: &str) -> bool {
    if x.len() != n {
        viol("content", &format!("an array of a vast {} has {} elements, expected {}", what, x.len(), n));
        return false;
    }
    let b = std::mem::size_of_val(x);
    let p = x.as_ptr() as usize;
    if vast().containing(p, b).is_none() && !crate::heap::heap().containing(p, b).is_some() && b > VMIN {
        viol("layout", &format!("an array of {} bytes of a vast {} lies outside the storage", b, what));
        return false;
    }
    for (a, v) in marks(stamp, b) {
        let g = unsafe { *((p + a) as *const u8) };
        if g != v {
            viol("content", &format!("byte {} of {} of an array in a vast {} reads {}, expected {}", a, b, what, g, v));
            return false;
        }
    }
    true
}
fn slice_set<T>(x: &mut [MaybeUninit<T>], stamp: u64) {
    let b = std::mem::size_of_val(x);
    let p = x.as_mut_ptr() as *mut u8;
    for (a, v) in marks(stamp, b) {
        unsafe { *p.add(a) = v };
    }
}

trait Big: VarLen + Sized + 'static {
    const NAME: &'static str;
    /// largest count
    const MAX: u64;
    fn init(n: usize, stamp: u64) -> impl Initializer<Self>;
    fn size(n: usize) -> u128;
    fn ok(&self, n: usize, stamp: u64) -> bool;
    fn set(self: Pin<&mut Self>, stamp: u64);
}

fn up(x: u128, a: u128) -> u128 {
    (x + a - 1) / a * a
}

macro_rules! big_arr {
    ($x:ty, $l:ty, $name:literal) => {
        impl Big for Array<MaybeUninit<$x>, $l> {
            const NAME: &'static str = $name;
            const MAX: u64 = <$l>::MAX as u64;
            fn init(n: usize, stamp: u64) -> impl Initializer<Self> {
                varlen::array::SizedInit(n as $l, Stamp(stamp))
            }
            fn size(n: usize) -> u128 {
                up(std::mem::size_of::<$l>() as u128, std::mem::align_of::<$x>() as u128) + n as u128 * std::mem::size_of::<$x>() as u128
            }
            fn ok(&self, n: usize, stamp: u64) -> bool {
                self.len_short() as usize == n && slice_ok(&self[..], n, stamp, $name)
            }
            fn set(self: Pin<&mut Self>, stamp: u64) {
                slice_set(self.mut_slice(), stamp)
            }
        }
    };
}
big_arr!(u8, usize, "Array<u8>");
big_arr!(u8, u32, "Array<u8, u32>");
big_arr!(u64, u32, "Array<u64, u32>");
big_arr!(u16, u64, "Array<u16, u64>");

const TAIL: &str = "the tail of it";

#[define_varlen]
pub struct Broad {
    pub k: u16,
    #[controls_layout]
    pub n: u32,
    #[varlen_array]
    pub a: [MU8; *n as usize],
    #[varlen_array]
    pub b: [MU64; *n as usize / 2],
    #[varlen]
    pub s: Str<u8>,
}
impl Big for Broad {
    const NAME: &'static str = "struct of two arrays and a string";
    const MAX: u64 = u32::MAX as u64;
    fn init(n: usize, stamp: u64) -> impl Initializer<Self> {
        broad::Init { k: stamp as u16, n: n as u32, a: Stamp(stamp), b: Stamp(stamp ^ 1), s: Str::<u8>::try_copy(TAIL).unwrap() }
    }
    fn size(n: usize) -> u128 {
        up(std::mem::size_of::<Self>() as u128 + n as u128, 8) + (n / 2) as u128 * 8 + 1 + TAIL.len() as u128
    }
    fn ok(&self, n: usize, stamp: u64) -> bool {
        let r = self.refs();
        slice_ok(r.a, n, stamp, Self::NAME) && slice_ok(r.b, n / 2, stamp ^ 1, Self::NAME) && {
            let t = &r.s[..] == TAIL && *r.n as usize == n;
            if !t {
                viol("content", "the string at the end of a vast struct changed");
            }
            t
        }
    }
    fn set(self: Pin<&mut Self>, stamp: u64) {
        let m = self.muts();
        slice_set(m.a, stamp);
        slice_set(m.b, stamp ^ 1);
    }
}

#[define_varlen]
pub struct Byte1 {
    #[controls_layout]
    pub n: LenB,
    #[varlen_array]
    pub a: [MU8; n.get()],
}
impl Big for Byte1 {
    const NAME: &'static str = "struct of alignment one";
    const MAX: u64 = u64::MAX;
    fn init(n: usize, stamp: u64) -> impl Initializer<Self> {
        byte_1::Init { n: LenB((n as u64).to_le_bytes()), a: Stamp(stamp) }
    }
    fn size(n: usize) -> u128 {
        8 + n as u128
    }
    fn ok(&self, n: usize, stamp: u64) -> bool {
        let r = self.refs();
        r.n.get() == n && slice_ok(r.a, n, stamp, Self::NAME)
    }
    fn set(self: Pin<&mut Self>, stamp: u64) {
        slice_set(self.muts().a, stamp)
    }
}

type Pair = Tup2<Array<MU8, usize>, Str<u16>>;
impl Big for Pair {
    const NAME: &'static str = "pair of an array and a string";
    const MAX: u64 = u64::MAX;
    fn init(n: usize, stamp: u64) -> impl Initializer<Self> {
        varlen::tuple::tup2::Init(<Array<MU8, usize> as Big>::init(n, stamp), Str::<u16>::try_copy(TAIL).unwrap())
    }
    fn size(n: usize) -> u128 {
        up(8 + n as u128, 2) + 2 + TAIL.len() as u128
    }
    fn ok(&self, n: usize, stamp: u64) -> bool {
        let r = self.refs();
        Big::ok(r.0, n, stamp) && {
            if &r.1[..] != TAIL {
                viol("content", "the string of a vast pair changed");
            }
            &r.1[..] == TAIL
        }
    }
    fn set(self: Pin<&mut Self>, stamp: u64) {
        Big::set(self.muts().0, stamp)
    }
}

pub trait Ix<T: VarLen> {
    const CHECKED: bool;
    fn valid(&self, o: usize) -> bool;
    fn at(&self, o: usize) -> R<*const T>;
    fn at_mut(&mut self, o: usize) -> R<*mut T>;
}
impl<T: VarLen> Ix<T> for Seq<T, UncheckedIndexing> {
    const CHECKED: bool = false;
    fn valid(&self, _: usize) -> bool {
        false
    }
    fn at(&self, o: usize) -> R<*const T> {
        calm(|| unsafe { self.from_offset_unchecked(o) as *const T })
    }
    fn at_mut(&mut self, o: usize) -> R<*mut T> {
        calm(|| unsafe { self.from_offset_unchecked_mut(o).get_unchecked_mut() as *mut T })
    }
}
impl<T: VarLen> Ix<T> for Seq<T, CheckedIndexing> {
    const CHECKED: bool = true;
    fn valid(&self, o: usize) -> bool {
        self.is_offset_valid(o)
    }
    fn at(&self, o: usize) -> R<*const T> {
        calm(|| self.from_offset(o) as *const T)
    }
    fn at_mut(&mut self, o: usize) -> R<*mut T> {
        calm(|| unsafe { self.from_offset_mut(o).get_unchecked_mut() as *mut T })
    }
}

// ---------------------------------------------------------------- the simulation

struct El {
    n: usize,
    stamp: u64,
    off: usize,
}

struct Sim<T: Big, I: Indexing> {
    s: Option<Seq<T, I>>,
    e: Vec<El>,
    occ: usize,
    cap: usize,
    nreq: u32,
    rng: Rng,
    giant: bool,
    /// only ever grows
    grow: bool,
    /// the capacities reached so far
    caps: Vec<usize>,
}

fn fails(what: &str, f: &Fail) {
    viol("unexpected-panic", &format!("{} a vast value failed although nothing was wrong: {:?}", what, f));
}

pub struct Fault {
    /// refuse the n-th request of that many operations in
    pub alloc: bool,
    pub overflow: bool,
    pub fired: u32,
    pub judged: u32,
}

/// A value that was moved somewhere else.
fn landed<T: Big>(b: VBox<T>, e: &El) -> bool {
    let ok = {
        let _g = Harness::enter();
        b.ok(e.n, e.stamp) && b.calculate_layout().size() as u128 == T::size(e.n)
    };
    if !ok {
        viol("content", &format!("a vast {} moved to a box is not what it was", T::NAME));
        std::mem::forget(b);
    }
    ok
}
fn landed_seq<T: Big, I: Indexing>(s: Seq<T, I>, e: &El) -> bool {
    let ok = {
        let _g = Harness::enter();
        s.len() == 1 && s.iter().next().map_or(false, |t| t.ok(e.n, e.stamp))
    };
    if !ok {
        viol("content", &format!("a vast {} moved to another sequence is not what it was", T::NAME));
        std::mem::forget(s);
    }
    ok
}

impl<T: Big, I: Indexing> Sim<T, I>
where
    Seq<T, I>: Ix<T>,
{
    fn pick(&mut self, left: u128) -> usize {
        let r = &mut self.rng;
        let per = (T::size(1 << 20) >> 20).max(1);
        let lim = (left / per).min(T::MAX as u128) as u64;
        let n = match (self.giant, r.below(if self.giant { 8 } else { 11 })) {
            // sizes around round numbers
            (false, 8..) => {
                let s = ((1 + r.below(8) as u128) << (12 + r.below(9))).min(left);
                let (mut lo, mut hi) = (0u64, (s as u64 / per as u64).saturating_add(64));
                while lo < hi {
                    let m = (lo + hi + 1) / 2;
                    if T::size(m as usize) <= s { lo = m } else { hi = m - 1 }
                }
                (lo + r.below(8).saturating_sub(5)).saturating_sub(r.below(8).saturating_sub(5))
            }
            (false, 0) => r.below(40),
            (true, 0) if self.nreq > 0 => r.below(40),
            (false, 1) => (1 << 12) - 8 + r.below(16),
            (false, 2) => r.below(3 << 20),
            (false, _) => (1 << 16) + r.below(1 << 20),
            // most of it at once: every growth may have to copy everything
            (true, _) if self.e.is_empty() => 5 * (1 << 29) / per as u64 + r.below(1 << 30) / per as u64,
            (true, 2) => (1 << 31) / per as u64 - 40 + r.below(48),
            (true, 3) => (1 << 32) / per as u64 - 64 + r.below(64),
            (true, 4) => (1 << 24) + r.below(1 << 28),
            (true, _) => (1 << 27) + r.below(1 << 30),
        };
        n.min(lim) as usize
    }

    fn offs(n: usize) -> usize {
        (up(T::size(n), T::ALIGN as u128) / T::ALIGN as u128) as usize
    }

    fn push(&mut self, n: usize, f: &mut Fault, refuse: bool, impossible: bool) -> bool {
        let stamp = self.rng.next();
        let h = heap();
        h.n_req = 0;
        h.n_big = 0;
        h.n_ok = 0;
        h.fired = 0;
        h.min_req = usize::MAX;
        h.fail_at = if refuse { 0 } else { -1 };
        let need = self.occ as u128 + up(T::size(n), T::ALIGN as u128) / T::ALIGN as u128;
        let fits = need <= self.cap as u128;
        let s = self.s.as_mut().unwrap();
        let r = lib(|| s.push(T::init(n, stamp)));
        h.fail_at = -1;
        if bad() {
            return false;
        }
        f.fired += h.fired;
        let cap = s.capacity_in_offsets();
        if fits && h.n_req > 0 {
            viol("growth", &format!("memory was requested although {} offsets fit the capacity of {}", need, self.cap));
            return false;
        }
        if impossible {
            f.judged += 1;
            if h.n_req > 0 && (h.min_req as u128) < need * T::ALIGN as u128 {
                viol("overflow", &format!("a request for {} bytes was made for {} offsets of {} bytes", h.min_req, need, T::ALIGN));
                return false;
            }
        }
        match r {
            Ok(()) => {
                if impossible {
                    viol("overflow", "a value of impossible size was appended");
                    return false;
                }
                if h.fired > 0 {
                    viol("missing-panic", "an append succeeded although memory was refused");
                    return false;
                }
                self.e.push(El { n, stamp, off: self.occ });
                self.occ = need as usize;
                self.nreq += h.n_ok;
            }
            Err(Fail::Abort) => return false,
            Err(x) => {
                f.judged += 1;
                // with a growth margin or a bit mask on top a huge value may just not be possible either
                let huge = need * T::ALIGN as u128 > (isize::MAX / 4) as u128;
                if !huge && h.fired == 0 && h.n_big == 0 {
                    if !h.exhausted {
                        fails("appending", &x);
                    }
                    return false;
                }
            }
        }
        if cap < self.cap || (cap != self.cap && h.n_ok == 0) {
            viol("growth", &format!("the capacity went from {} to {} with {} requests", self.cap, cap, h.n_ok));
            return false;
        }
        let al = T::ALIGN;
        if cap != self.cap && cap > 3 * self.cap.max(need.min(usize::MAX as u128 / 4) as usize) + 128 / al + 8 {
            viol("growth", &format!("the capacity grew from {} to {} for {} offsets", self.cap, cap, need));
            return false;
        }
        if cap != self.cap {
            self.caps.push(cap);
        }
        self.cap = cap;
        // a constant factor over a constant number of steps
        let c = &self.caps;
        if c.len() > 5 && cap * al > 1 << 12 && cap / 4 < c[c.len() - 6] / 3 {
            viol("growth", &format!("the capacity grew in small steps, at last from {} to {} offsets in five", c[c.len() - 6], cap));
            return false;
        }
        let mut log = 0;
        let mut x = 32usize;
        while x < cap * al {
            x += x / 4;
            log += 1;
        }
        if self.nreq > 8 + log {
            viol("growth", &format!("{} storage requests for a capacity of {} bytes", self.nreq, cap * al));
            return false;
        }
        true
    }

    /// Everything the sequence says about itself and its elements.
    fn verify(&mut self) -> bool {
        let s = self.s.as_ref().unwrap();
        let r = calm(|| {
            if s.len() != self.e.len() {
                viol("len", &format!("a vast sequence of {} elements says it has {}", self.e.len(), s.len()));
                return;
            }
            if s.offset() != self.occ {
                viol("offset", &format!("the next offset of a vast sequence is {}, expected {}", s.offset(), self.occ));
                return;
            }
            if s.capacity_in_offsets() < self.occ || s.capacity_in_offsets() != self.cap {
                viol("growth", "the capacity of a vast sequence is off");
                return;
            }
            let mut it = s.iter();
            let mut base = 0;
            for (k, e) in self.e.iter().enumerate() {
                if it.len() != self.e.len() - k {
                    viol("iter", "an iterator of a vast sequence announces the wrong count");
                    return;
                }
                let Some(t) = it.next() else {
                    viol("iter", "iteration of a vast sequence ended early");
                    return;
                };
                let a = t as *const T as usize;
                if k == 0 {
                    base = a;
                }
                if a != base + e.off * T::ALIGN {
                    viol("iter", &format!("element {} of a vast sequence lies {} bytes after the first, expected {}", k, a as isize - base as isize, e.off * T::ALIGN));
                    return;
                }
                let n = t.calculate_layout().size();
                if n as u128 != T::size(e.n) {
                    viol("layout", &format!("a vast {} of {} elements reports {} bytes, expected {}", T::NAME, e.n, n, T::size(e.n)));
                    return;
                }
                if !t.ok(e.n, e.stamp) {
                    viol("content", &format!("element {} of a vast sequence ({}) changed", k, T::NAME));
                    return;
                }
                if s.offset_of(t) != e.off {
                    viol("offset", &format!("an element of a vast sequence is said to be at offset {}, expected {}", s.offset_of(t), e.off));
                    return;
                }
            }
            if it.next().is_some() {
                viol("iter", "iteration of a vast sequence yields too much");
            }
        });
        if let Err(x) = r {
            fails("reading", &x);
        }
        if bad() {
            return false;
        }
        for (k, e) in self.e.iter().enumerate() {
            match s.at(e.off) {
                Ok(p) => {
                    if !unsafe { &*p }.ok(e.n, e.stamp) {
                        viol("offset", &format!("offset {} does not give element {} of a vast sequence", e.off, k));
                        return false;
                    }
                }
                Err(x) => {
                    viol("offset", &format!("looking up offset {} of a vast sequence failed: {:?}", e.off, x));
                    return false;
                }
            }
        }
        let s = self.s.as_mut().unwrap();
        for (k, e) in self.e.iter().enumerate() {
            let p = s.at(e.off).map(|p| p as usize);
            let q = s.at_mut(e.off).map(|p| p as usize);
            if p != q || q.is_err() {
                viol("offset", &format!("offset {} of a vast sequence gives element {} at {:x?} and {:x?}", e.off, k, p, q));
                return false;
            }
        }
        if !<Seq<T, I> as Ix<T>>::CHECKED {
            return true;
        }
        let s = self.s.as_ref().unwrap();
        let rng = &mut self.rng;
        let mut probe: Vec<usize> = vec![self.occ, self.occ + 1, self.cap, self.cap + 1, usize::MAX, usize::MAX / 2, 1 << 32, (1 << 32) + 8];
        for e in &self.e {
            probe.extend([e.off, e.off + 1, e.off.wrapping_sub(1), e.off + Self::offs(e.n) / 2, e.off ^ 8, e.off & 0xffff_ffff, e.off + (1 << 32)]);
        }
        for _ in 0..20 {
            probe.push(rng.below(self.cap as u64 + 1) as usize);
        }
        for o in probe {
            let want = self.e.iter().any(|e| e.off == o);
            let got = calm(|| s.valid(o));
            if got != Ok(want) {
                viol("offset", &format!("offset {} of a vast sequence is reported {:?}, expected {}", o, got, want));
                return false;
            }
        }
        true
    }

    fn drain(&mut self) -> bool {
        let k = self.rng.below(self.e.len() as u64 + 2) as usize;
        let s = self.s.as_mut().unwrap();
        let forget = self.rng.chance(1, 6);
        let mut all = std::mem::take(&mut self.e).into_iter();
        self.occ = 0;
        let h = heap();
        h.n_req = 0;
        h.n_big = 0;
        let mut moved = false;
        let r = lib(|| {
            let mut d = s.take_elems();
            for i in 0..k {
                let o = d.next();
                let _g = Harness::enter();
                match (o, all.next()) {
                    (Some(v), Some(e)) => {
                        if !v.ok(e.n, e.stamp) {
                            viol("content", &format!("element {} drained from a vast sequence changed", i));
                            std::mem::forget(v);
                            std::mem::forget(d);
                            return;
                        }
                        // a move touches every byte
                        let w = if self.giant { 5 } else { self.rng.below(6) };
                        rt().in_lib = true;
                        let ok = match w {
                            0 => landed(VBox::new(v), &e),
                            1 => {
                                let mut t = Seq::<T, I>::new();
                                t.push(v);
                                landed_seq(t, &e)
                            }
                            _ => {
                                drop(v);
                                true
                            }
                        };
                        moved |= w < 2;
                        if !ok {
                            std::mem::forget(d);
                            return;
                        }
                    }
                    (None, None) => {}
                    (a, b) => {
                        viol("iter", &format!("draining a vast sequence gave {}, expected {}", a.is_some(), b.is_some()));
                        std::mem::forget(a);
                        std::mem::forget(d);
                        return;
                    }
                }
                if d.len() != all.len() {
                    viol("iter", "a drain of a vast sequence announces the wrong rest");
                    std::mem::forget(d);
                    return;
                }
            }
            if forget {
                std::mem::forget(d);
            }
        });
        if bad() {
            return false;
        }
        if let Err(x) = r {
            // no room for what was moved out: the element is gone, as are the others
            if moved && (h.n_big > 0 || h.exhausted) {
                return true;
            }
            fails("draining", &x);
            return false;
        }
        if !moved && h.n_req > 0 {
            viol("growth", "draining requested memory");
            return false;
        }
        true
    }

    fn boxes(&mut self, n: usize) -> bool {
        let stamp = self.rng.next();
        let how = self.rng.below(4);
        let to = if self.giant { 3 } else { self.rng.below(5) };
        heap().n_big = 0;
        let r = lib(|| {
            let mut b = VBox::<T>::new(T::init(n, stamp));
            if how & 1 == 1 {
                b = unsafe { VBox::<T>::from_raw(b.into_raw()) };
            }
            {
                let _g = Harness::enter();
                if !b.ok(n, stamp) {
                    viol("content", &format!("a vast {} in a box is not what was put there", T::NAME));
                    std::mem::forget(b);
                    return;
                }
                b.as_mut().set(stamp ^ 5);
                if !b.ok(n, stamp ^ 5) {
                    viol("content", &format!("a vast {} in a box does not keep what is written", T::NAME));
                    std::mem::forget(b);
                    return;
                }
                if b.calculate_layout().size() as u128 != T::size(n) {
                    viol("layout", &format!("a vast {} in a box reports {} bytes, expected {}", T::NAME, b.calculate_layout().size(), T::size(n)));
                    std::mem::forget(b);
                    return;
                }
            }
            let el = El { n, stamp: stamp ^ 5, off: 0 };
            match to {
                0 => {
                    landed(VBox::new(b), &el);
                }
                1 => {
                    let mut t = Seq::<T, I>::new();
                    t.push(b);
                    landed_seq(t, &el);
                }
                _ => drop(b),
            }
        });
        if bad() {
            return false;
        }
        match r {
            Ok(()) => true,
            Err(_) if heap().n_big > 0 || heap().exhausted => true,
            Err(x) => {
                fails("boxing", &x);
                false
            }
        }
    }

    fn arena(&mut self, n: usize) -> bool {
        let stamp = self.rng.next();
        let m = self.rng.below(30) as usize;
        heap().n_big = 0;
        let r = lib(|| {
            let bump = bumpalo::Bump::new();
            let a = Owned::<T>::new_in(T::init(m, stamp ^ 2), &bump);
            let mut o = Owned::<T>::new_in(T::init(n, stamp), &bump);
            let _g = Harness::enter();
            let fine = a.ok(m, stamp ^ 2) && o.ok(n, stamp) && {
                o.as_mut().set(stamp ^ 9);
                o.ok(n, stamp ^ 9) && a.ok(m, stamp ^ 2)
            };
            if !fine {
                viol("content", &format!("a vast {} in an arena is not what was put there", T::NAME));
                std::mem::forget((a, o));
                std::mem::forget(bump);
                return;
            }
            let el = El { n, stamp: stamp ^ 9, off: 0 };
            let w = self.rng.below(4);
            rt().in_lib = true;
            let ok = match w {
                0 => landed(VBox::new(o), &el),
                1 => {
                    let mut t = Seq::<T, I>::new();
                    t.push(o);
                    landed_seq(t, &el)
                }
                2 => {
                    let o2 = Owned::new_in(o, &bump);
                    let ok = {
                        let _g = Harness::enter();
                        o2.ok(n, stamp ^ 9)
                    };
                    if !ok {
                        viol("content", &format!("a vast {} moved within an arena is not what it was", T::NAME));
                        std::mem::forget(o2);
                    }
                    ok
                }
                _ => {
                    drop(o);
                    true
                }
            };
            if !ok {
                std::mem::forget(a);
                std::mem::forget(bump);
                return;
            }
            drop(a);
            drop(bump);
        });
        if bad() {
            return false;
        }
        match r {
            Ok(()) => true,
            Err(_) if heap().n_big > 0 || heap().exhausted => true,
            Err(x) => {
                fails("arena-allocating", &x);
                false
            }
        }
    }

    fn step(&mut self, total: u128, f: &mut Fault) -> bool {
        let what = self.rng.below(24);
        match if self.grow && what < 4 { 23 } else { what } {
            0 | 1 => {
                if !self.drain() {
                    return false;
                }
            }
            2 => {
                let n = self.pick(total / 2);
                return self.boxes(n);
            }
            3 if !self.giant => {
                let n = self.pick(total / 4);
                return self.arena(n);
            }
            4 | 5 if !self.e.is_empty() => {
                let k = self.rng.below(self.e.len() as u64) as usize;
                let st = self.rng.next();
                let off = self.e[k].off;
                let by_iter = self.rng.chance(1, 2);
                let s = self.s.as_mut().unwrap();
                let r = if by_iter {
                    calm(|| s.iter_mut().nth(k).map(|p| p.set(st)).is_some())
                } else {
                    s.at_mut(off).map(|p| {
                        unsafe { Pin::new_unchecked(&mut *p) }.set(st);
                        true
                    })
                };
                if r != Ok(true) {
                    viol("iter", &format!("element {} of a vast sequence cannot be changed: {:?}", k, r));
                    return false;
                }
                self.e[k].stamp = st;
            }
            6 | 7 if f.overflow && T::MAX == u64::MAX => {
                // sizes that cannot exist
                let k = self.rng.below(64) as usize;
                let n = match self.rng.below(4) {
                    0 => usize::MAX - k,
                    1 => isize::MAX as usize - k / 4,
                    2 => isize::MAX as usize - self.occ.saturating_mul(T::ALIGN) + k,
                    _ => usize::MAX - self.occ.saturating_mul(T::ALIGN) - k,
                };
                let tot = T::size(n) + (self.occ * T::ALIGN) as u128;
                // just below the limit it is the allocator that refuses
                let imp = tot > isize::MAX as u128;
                rt().forbid_cb = imp;
                let ok = self.push(n, f, false, imp);
                rt().forbid_cb = false;
                if !ok {
                    return false;
                }
            }
            x => {
                let left = total.saturating_sub(self.occ as u128 * T::ALIGN as u128);
                let n = self.pick(left);
                if !self.push(n, f, f.alloc && x < 11, false) {
                    return false;
                }
            }
        }
        heap().exhausted || (vast().check() && self.verify())
    }

    fn run(seed: u64, giant: bool, f: &mut Fault) -> u32
    where
        Seq<T, I>: Ix<T>,
    {
        let mut rng = Rng::new(seed);
        let steps = if giant { 4 + rng.below(10) } else { 12 + rng.below(if rng.0 & 3 == 0 { 500 } else { 60 }) };
        let grow = rng.chance(1, 2);
        let mut total: u128 = if giant { if rng.chance(1, 2) && T::ALIGN > 1 { 4500 << 20 } else { 7500 << 20 } } else { (8u128 << 20) << rng.below(6) };
        // and now and then sequences are filled to the brim
        let steps = if grow && !giant && rng.chance(1, 3) { 700 } else { steps };
        if T::ALIGN == 1 && (<Seq<T, I> as Ix<T>>::CHECKED || rng.chance(1, 2)) {
            // the bit mask of so many offsets is really written
            total = total.min(1 << 30);
        }
        let mut sim = Sim::<T, I> { s: None, e: vec![], occ: 0, cap: 0, nreq: 0, rng, giant, grow, caps: vec![] };
        match lib(|| Seq::<T, I>::new()) {
            Ok(s) => sim.s = Some(s),
            Err(x) => {
                fails("making a sequence for", &x);
                return 0;
            }
        }
        for k in 0..steps {
            let ok = sim.step(total, f);
            if !ok || bad() || heap().exhausted {
                std::mem::forget(sim);
                return 40;
            }
            // full: what fits is dust
            if giant && sim.nreq >= 4 {
                break;
            }
            if sim.grow && total < sim.occ as u128 * T::ALIGN as u128 + (1 << 16) {
                break;
            }
            // the region only ever moves forward
            if vast().cur - VBASE > VREGION / 2 {
                let _ = k;
                break;
            }
        }
        // and then it creeps upward
        if vast().cur - VBASE <= VREGION / 2 && sim.cap > 0 && sim.rng.chance(1, 2) {
            let per = (T::size(1 << 20) >> 20).max(1);
            for _ in 0..12 {
                let n = ((sim.cap * T::ALIGN / 100) as u128 / per + 1).min(T::MAX as u128) as usize;
                if T::size(n) * 2 < (sim.cap * T::ALIGN / 100) as u128 {
                    break;
                }
                if !sim.push(n, f, false, false) || bad() || heap().exhausted || !(vast().check() && sim.verify()) {
                    std::mem::forget(sim);
                    return 40;
                }
            }
        }
        let s = sim.s.take().unwrap();
        if let Err(x) = lib(move || drop(s)) {
            fails("destroying", &x);
        }
        if !bad() {
            if let Some(b) = vast().blocks.iter().find(|b| b.live) {
                viol("leak-block", &format!("a vast block of {} bytes was never returned", b.size));
            }
        }
        41 + vast().moved.min(3)
    }
}

// ---------------------------------------------------------------- very many small values

trait Small: VarLen + Sized + 'static {
    const NAME: &'static str;
    fn init(k: u64) -> impl Initializer<Self>;
    /// in offsets
    fn offs(k: u64) -> usize;
    fn ok(&self, k: u64) -> bool;
    fn put(self: Pin<&mut Self>, k: u64);
}
impl Small for FixedLen<u8> {
    const NAME: &'static str = "FixedLen<u8>";
    fn init(k: u64) -> impl Initializer<Self> {
        FixedLen(hash2(k, 1) as u8)
    }
    fn offs(_: u64) -> usize {
        1
    }
    fn ok(&self, k: u64) -> bool {
        self.0 == hash2(k, 1) as u8
    }
    fn put(mut self: Pin<&mut Self>, k: u64) {
        self.0 = hash2(k, 1) as u8
    }
}
impl Small for FixedLen<()> {
    const NAME: &'static str = "FixedLen<()>";
    fn init(_: u64) -> impl Initializer<Self> {
        FixedLen(())
    }
    fn offs(_: u64) -> usize {
        0
    }
    fn ok(&self, _: u64) -> bool {
        true
    }
    fn put(self: Pin<&mut Self>, _: u64) {}
}
impl Small for Array<u16, u16> {
    const NAME: &'static str = "Array<u16, u16>";
    fn init(k: u64) -> impl Initializer<Self> {
        varlen::array::SizedInit((k % 4) as u16, FillSequentially(move |j| hash2(k, j as u64) as u16))
    }
    fn offs(k: u64) -> usize {
        1 + (k % 4) as usize
    }
    fn ok(&self, k: u64) -> bool {
        self.len() == (k % 4) as usize && self.iter().enumerate().all(|(j, x)| *x == hash2(k, j as u64) as u16)
    }
    fn put(self: Pin<&mut Self>, k: u64) {
        for (j, x) in self.mut_slice().iter_mut().enumerate() {
            *x = hash2(k, j as u64) as u16;
        }
    }
}

/// Sequences of more elements than sixteen bits can count.
fn many<T: Small, I: Indexing>(seed: u64) -> u32
where
    Seq<T, I>: Ix<T>,
{
    let mut r = Rng::new(seed);
    let n = (match r.below(16) {
        // a million, and sometimes sixteen
        0 if r.chance(1, 4) => (1 << 24) - 8 + r.below(16),
        0 | 1 => ((1 << 19) << r.below(3)) - 8 + r.below(16),
        2..=4 => 65_528 + r.below(16),
        5..=8 => 131_064 + r.below(16),
        _ => 65_536 + r.below(40_000),
    }) as usize;
    let (bulk, k0) = (r.chance(1, 2), r.next());
    let key = |i: usize| k0.wrapping_add(i as u64);
    let mut off = Vec::with_capacity(n + 1);
    let mut o = 0;
    for i in 0..n {
        off.push(o);
        o += T::offs(key(i));
    }
    off.push(o);
    let h = heap();
    h.n_ok = 0;
    let s = lib(|| {
        let mut s = Seq::<T, I>::new();
        if bulk {
            s.extend((0..n).map(|i| T::init(key(i))));
        } else {
            for i in 0..n {
                s.push(T::init(key(i)));
            }
        }
        s
    });
    let mut s = match s {
        Ok(s) => s,
        Err(x) => {
            if !bad() && !h.exhausted {
                fails("appending many of", &x);
            }
            return 45;
        }
    };
    if h.n_ok > 64 {
        viol("growth", &format!("{} elements ({}) took {} storage requests", n, T::NAME, h.n_ok));
    }
    let mut cur: Vec<u64> = (0..n).map(key).collect();
    let look = |s: &Seq<T, I>, cur: &[u64], r: &mut Rng| {
        let x = calm(|| {
            let t = |c: &str, m: &str| viol(c, &format!("{} (a sequence of {} {})", m, n, T::NAME));
            if s.len() != n || s.iter().len() != n || s.iter().count() != n || s.iter().size_hint() != (n, Some(n)) {
                return t("len", "the number of elements is wrong");
            }
            if s.offset() != off[n] || s.capacity_in_offsets() < off[n] {
                return t("offset", "the next offset or the capacity is wrong");
            }
            let mut i = 0;
            for e in s.iter() {
                if i >= n || !e.ok(cur[i]) {
                    return t("content", "an element changed");
                }
                i += 1;
            }
            if i != n {
                return t("iter", "iteration ended early");
            }
            let m = r.below(n as u64 + 1) as usize;
            if s.iter().limited_to(m).count() != m || s.iter().limited_to(m).len() != m {
                return t("iter", "a limited iterator yields another number");
            }
            let mut it = s.iter();
            for _ in 0..20 {
                let d = r.below(n as u64 / 8) as usize;
                let left = it.len();
                let at = n - left + d;
                match it.nth(d) {
                    Some(e) if at < n => {
                        if !e.ok(cur[at]) || (T::offs(cur[at]) > 0 && s.offset_of(e) != off[at]) || it.len() != n - at - 1 {
                            return t("iter", "an iterator skipped to the wrong element");
                        }
                    }
                    None if at >= n => break,
                    _ => return t("iter", "an iterator ends in the wrong place"),
                }
            }
        });
        if let Err(x) = x {
            fails("reading many of", &x);
        }
        for _ in 0..40 {
            let i = r.below(n as u64) as usize;
            if bad() || T::offs(cur[i]) == 0 {
                break;
            }
            match s.at(off[i]) {
                Ok(p) if unsafe { &*p }.ok(cur[i]) => {}
                _ => viol("offset", &format!("offset {} does not give element {} of {} ({})", off[i], i, n, T::NAME)),
            }
            if <Seq<T, I> as Ix<T>>::CHECKED {
                for o in [off[i], off[i] + 1, off[i].wrapping_sub(1), off[i] ^ 0x10000, off[i] & 0xffff, off[i] + 0x10000] {
                    let want = o < off[n] && off.binary_search(&o).is_ok();
                    if calm(|| s.valid(o)) != Ok(want) {
                        viol("offset", &format!("offset {} of many {} is not reported as {}", o, T::NAME, want));
                    }
                }
            }
        }
        !bad()
    };
    if !look(&s, &cur, &mut r) {
        std::mem::forget(s);
        return 45;
    }
    // change some, through a long iterator
    let step = 1 + r.below(3000) as usize;
    let ch = calm(|| {
        let mut it = s.iter_mut();
        let mut i = 0;
        while let Some(e) = it.nth(step - 1) {
            i += step;
            if i > n {
                break;
            }
            // the same length, other contents
            cur[i - 1] = cur[i - 1].wrapping_add(4 << 20);
            e.put(cur[i - 1]);
        }
        i
    });
    match ch {
        Ok(i) if i <= n && i + step > n => {}
        Ok(_) => viol("iter", &format!("a mutable iterator over {} {} ended in the wrong place", n, T::NAME)),
        Err(x) => fails("changing many of", &x),
    }
    if bad() || !look(&s, &cur, &mut r) {
        std::mem::forget(s);
        return 45;
    }
    // and drain them
    let stop = match r.below(4) {
        0 => n,
        1 => n - 1 - r.below(5) as usize,
        _ => r.below(n as u64) as usize,
    };
    let cap = s.capacity_in_offsets();
    let x = lib(|| {
        let mut d = s.take_elems();
        for i in 0..stop {
            let v = d.next();
            let _g = Harness::enter();
            if !v.as_ref().map_or(false, |v| v.ok(cur[i])) || d.len() != n - i - 1 {
                viol("iter", &format!("draining {} {} gave something else at {}", n, T::NAME, i));
                std::mem::forget(v);
                break;
            }
            rt().in_lib = true;
            drop(v);
        }
        if bad() {
            std::mem::forget(d);
        }
    });
    if let Err(x) = x {
        if !bad() {
            fails("draining many of", &x);
        }
    }
    if !bad() && (s.len() != 0 || s.offset() != 0 || s.capacity_in_offsets() != cap || s.iter().next().is_some()) {
        viol("len", &format!("a drained sequence of {} {} is not empty, or lost its capacity", n, T::NAME));
    }
    if bad() {
        std::mem::forget(s);
        return 45;
    }
    if <Seq<T, I> as Ix<T>>::CHECKED {
        for _ in 0..40 {
            let o = off[r.below(n as u64) as usize];
            if calm(|| s.valid(o)) != Ok(false) {
                viol("offset", "an offset outlived the drain of a long sequence");
            }
        }
    }
    if let Err(x) = lib(move || drop(s)) {
        fails("destroying many of", &x);
    }
    if !bad() {
        if let Some(b) = vast().blocks.iter().find(|b| b.live) {
            viol("leak-block", &format!("a vast block of {} bytes was never returned", b.size));
        }
    }
    46
}

/// One history of vast values.  Returns an outcome code.
pub fn simulate(seed: u64, env: u64, f: &mut Fault) -> u32 {
    let mut r = Rng::new(seed);
    let giant = r.chance(1, 8);
    let checked = r.chance(1, 2);
    let h = heap();
    let old = h.limit;
    h.begin_log(env);
    h.limit = 40 << 30;
    if !vast().begin(env) {
        h.limit = old;
        return 0;
    }
    // a library that really copies or fills gigabytes needs them: one such run at a time
    let fd = if giant { lock() } else { -1 };
    let s = r.next();
    macro_rules! go {
        ($t:ty) => {
            if checked {
                Sim::<$t, CheckedIndexing>::run(s, giant, f)
            } else {
                Sim::<$t, UncheckedIndexing>::run(s, giant, f)
            }
        };
    }
    macro_rules! lots {
        ($t:ty) => {
            if checked {
                many::<$t, CheckedIndexing>(s)
            } else {
                many::<$t, UncheckedIndexing>(s)
            }
        };
    }
    let out = match if giant { r.below(7) } else { r.below(9) } {
        7 | 8 => match r.below(3) {
            0 => lots!(FixedLen<u8>),
            1 => lots!(FixedLen<()>),
            _ => lots!(Array<u16, u16>),
        },
        0 => go!(Array<MU8, usize>),
        1 => go!(Array<MU8, u32>),
        2 => go!(Array<MU64, u32>),
        3 => go!(Array<MaybeUninit<u16>, u64>),
        4 => go!(Broad),
        5 => go!(Byte1),
        _ => go!(Pair),
    };
    let h = heap();
    h.limit = old;
    h.fail_at = -1;
    vast().end();
    if fd >= 0 {
        unsafe { libc::close(fd) };
    }
    out
}

fn lock() -> i32 {
    let Ok(p) = std::env::current_exe() else { return -1 };
    let Ok(c) = std::ffi::CString::new(p.to_string_lossy().as_bytes()) else { return -1 };
    unsafe {
        let fd = libc::open(c.as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC);
        if fd >= 0 {
            libc::flock(fd, libc::LOCK_EX);
        }
        fd
    }
}
