//! The simulated allocator.  While library code runs (`in_lib`) every request is served from a region
//! mapped at a fixed address; everything the harness itself needs comes from the system allocator.
//! It never panics: problems are recorded through `viol`.

use crate::rt::{self, viol};
use crate::vast::{is_vast, vast};
use std::alloc::{GlobalAlloc, Layout, System};

pub const BASE: usize = 0x10_0000_0000;
pub const REGION: usize = 96 << 20;
pub const RED: usize = 64;
const PAGE: usize = 4096;

/// In a fenced run every block has pages of its own next to a page that cannot be touched, and the pages of a
/// returned block cannot be touched either: reading outside a block, or from one that was returned, is a crash.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fence {
    Off,
    /// the untouchable page begins where the block ends
    After,
    /// the untouchable page ends where the block begins
    Before,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BState {
    Live,
    Freed,
    /// Still allocated, but a fired fault (or an explicit leak) excuses its loss.
    Excused,
}

#[derive(Clone)]
pub struct Block {
    pub start: usize,
    pub size: usize,
    pub align: usize,
    /// bytes after `start` that belong to this block's slot (>= size)
    pub resv: usize,
    pub lo: usize,
    pub hi: usize,
    pub state: BState,
    pub tag: u32,
    pub op: u32,
    pub claimed: u32,
}

pub struct Heap {
    pub cur: usize,
    pub blocks: Vec<Block>,
    /// indices of live blocks
    pub live: Vec<usize>,
    pub recent: Vec<(u32, usize)>,
    pub seed: u64,
    pub env: u64,
    pub fill: u8,
    pub tag: u32,
    pub op: u32,
    pub limit: usize,
    // fault injection
    pub fail_at: i64,
    pub fail_persist: bool,
    pub fired: u32,
    // per-op log
    pub n_req: u32,
    pub n_ok: u32,
    pub n_big: u32,
    pub min_req: usize,
    pub last_ok: usize,
    pub moved: u32,
    pub inplace: u32,
    pub log_on: bool,
    pub stale: Vec<u8>,
    pub tot_req: u64,
    pub tot_moved: u64,
    pub tot_inplace: u64,
    pub exhausted: bool,
    pub fence: Fence,
    /// end of the part of the region that may hold untouchable pages
    fenced_to: usize,
    pub tot_fenced: u64,
}

static mut HEAP: *mut Heap = std::ptr::null_mut();

pub fn heap() -> &'static mut Heap {
    unsafe { &mut *HEAP }
}

pub fn init() {
    unsafe {
        let p = libc::mmap(
            BASE as *mut libc::c_void,
            REGION,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE | libc::MAP_NORESERVE,
            -1,
            0,
        );
        if p as usize != BASE {
            eprintln!("cannot map the simulated heap");
            std::process::exit(3);
        }
        HEAP = Box::into_raw(Box::new(Heap {
            cur: BASE,
            blocks: Vec::new(),
            live: Vec::new(),
            recent: Vec::new(),
            seed: 0,
            env: 0,
            fill: 0,
            tag: 0,
            op: 0,
            limit: usize::MAX,
            fail_at: -1,
            fail_persist: false,
            fired: 0,
            n_req: 0,
            n_ok: 0,
            n_big: 0,
            min_req: usize::MAX,
            last_ok: usize::MAX,
            moved: 0,
            inplace: 0,
            log_on: false,
            stale: Vec::new(),
            tot_req: 0,
            tot_moved: 0,
            tot_inplace: 0,
            exhausted: false,
            fence: Fence::Off,
            fenced_to: BASE,
            tot_fenced: 0,
        }));
    }
}

#[inline]
fn mix(mut x: u64) -> u64 {
    x ^= x >> 30;
    x = x.wrapping_mul(0xbf58476d1ce4e5b9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

/// Pattern byte of an address: computed eight bytes at a time.
#[inline(always)]
fn pat8(word_addr: usize, seed: u64) -> u64 {
    let x = (word_addr as u64 ^ seed).wrapping_mul(0x9E3779B97F4A7C15);
    x ^ (x >> 29)
}

unsafe fn fill_pat(lo: usize, hi: usize, seed: u64) {
    let mut a = lo;
    while a < hi {
        let w = a & !7;
        let v = pat8(w, seed);
        if a == w && a + 8 <= hi {
            *(a as *mut u64) = v;
            a += 8;
        } else {
            *(a as *mut u8) = (v >> (8 * (a - w))) as u8;
            a += 1;
        }
    }
}
unsafe fn check_pat(lo: usize, hi: usize, seed: u64) -> Option<usize> {
    let mut a = lo;
    while a < hi {
        let w = a & !7;
        let v = pat8(w, seed);
        if a == w && a + 8 <= hi && *(a as *const u64) == v {
            a += 8;
        } else {
            if *(a as *const u8) != (v >> (8 * (a - w))) as u8 {
                return Some(a);
            }
            a += 1;
        }
    }
    None
}

unsafe fn protect(lo: usize, hi: usize, prot: i32) {
    if lo < hi && libc::mprotect(lo as *mut libc::c_void, hi - lo, prot) != 0 {
        eprintln!("cannot protect pages of the simulated heap");
        std::process::exit(3);
    }
}

/// A request must describe a possible object: rounded up to its alignment it is at most `isize::MAX`.
fn representable(size: usize, align: usize) {
    if size > isize::MAX as usize - (align - 1) {
        viol("alloc-invalid", &format!("a request for {} bytes aligned to {} reached the allocator", size, align));
    }
}

impl Heap {
    fn red_seed(&self) -> u64 {
        self.seed ^ 0x5EED
    }
    fn poison_seed(&self) -> u64 {
        self.seed ^ 0xDEAD_0000_0001
    }
    fn next_env(&mut self) -> u64 {
        self.env = self.env.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.env)
    }

    pub fn reset(&mut self, seed: u64) {
        unsafe { protect(BASE, self.fenced_to, libc::PROT_READ | libc::PROT_WRITE) };
        self.fenced_to = BASE;
        self.fence = match mix(seed ^ 0xFE7CE) % 24 {
            0 => Fence::After,
            1 => Fence::Before,
            _ => Fence::Off,
        };
        self.cur = BASE + PAGE;
        self.blocks.clear();
        self.live.clear();
        self.recent.clear();
        self.seed = seed;
        self.tag = 0;
        self.op = 0;
        self.limit = 8 << 20;
        self.stale.clear();
        self.exhausted = false;
        self.disarm();
        self.begin_log(seed);
        self.log_on = false;
    }
    pub fn disarm(&mut self) {
        self.fail_at = -1;
        self.fail_persist = false;
    }
    pub fn begin_log(&mut self, env: u64) {
        self.env = env;
        self.fill = (mix(env ^ 77) % 5) as u8;
        self.fired = 0;
        self.n_req = 0;
        self.n_ok = 0;
        self.n_big = 0;
        self.min_req = usize::MAX;
        self.last_ok = usize::MAX;
        self.moved = 0;
        self.inplace = 0;
        self.log_on = true;
    }

    /// Decide whether this request is refused.
    fn refuse(&mut self, size: usize) -> bool {
        if self.log_on {
            self.n_req += 1;
            self.min_req = self.min_req.min(size);
        }
        self.tot_req += 1;
        if size > self.limit {
            self.n_big += 1;
            return true;
        }
        if self.fail_at >= 0 {
            if self.fail_at == 0 {
                self.fired += 1;
                if !self.fail_persist {
                    self.fail_at = -1;
                }
                return true;
            }
            self.fail_at -= 1;
        }
        false
    }

    unsafe fn garbage(&mut self, lo: usize, hi: usize) {
        match self.fill {
            0 => std::ptr::write_bytes(lo as *mut u8, 0, hi - lo),
            1 => std::ptr::write_bytes(lo as *mut u8, 0xFF, hi - lo),
            2 if !self.stale.is_empty() => {
                // the bytes of the block freed last: plausible but dead values
                let n = self.stale.len();
                for a in lo..hi {
                    *(a as *mut u8) = self.stale[(a - lo) % n];
                }
            }
            3 => std::ptr::write_bytes(lo as *mut u8, 0x01, hi - lo),
            _ => {
                let s = self.next_env();
                fill_pat(lo, hi, s)
            }
        }
    }

    /// Where a block goes in a fenced run: from a page boundary to a page boundary, `start` between.
    unsafe fn fenced(&mut self, size: usize, align: usize) -> Option<(usize, usize, usize)> {
        let lo = (self.cur + align.max(PAGE) - 1) & !(align.max(PAGE) - 1);
        let hi = lo + (size + align + PAGE - 1) / PAGE * PAGE;
        if hi + 2 * PAGE > BASE + REGION {
            return None;
        }
        self.cur = hi + PAGE;
        self.fenced_to = hi + PAGE;
        self.tot_fenced += 1;
        Some(match self.fence {
            Fence::Before => {
                protect(lo - PAGE, lo, libc::PROT_NONE);
                (lo, lo, hi)
            }
            _ => {
                protect(hi, hi + PAGE, libc::PROT_NONE);
                (lo, (hi - size) & !(align - 1), hi)
            }
        })
    }

    unsafe fn place(&mut self, size: usize, align: usize) -> usize {
        let r = self.next_env();
        if self.fence != Fence::Off {
            let Some((lo, start, hi)) = self.fenced(size, align) else {
                self.exhausted = true;
                return 0;
            };
            return self.settle(lo, start, hi, size, size, align);
        }
        let lo = self.cur;
        let mut start = (lo + RED + align - 1) & !(align - 1);
        // Adversarial placement: as little aligned as the request allows.
        if (r & 3) != 0 && start & (2 * align - 1) == 0 {
            start += align;
        }
        let slack = match (r >> 8) & 3 {
            0 => 0,
            1 => size.min(1024),
            2 => (3 * size).min(1536),
            _ => (7 * size).min(3072),
        };
        let resv = size + slack;
        let hi = (start + resv + RED + 15) & !15;
        if hi + 4096 > BASE + REGION {
            self.exhausted = true;
            return 0;
        }
        self.cur = hi;
        self.settle(lo, start, hi, resv, size, align)
    }

    unsafe fn settle(&mut self, lo: usize, start: usize, hi: usize, resv: usize, size: usize, align: usize) -> usize {
        fill_pat(lo, start, self.red_seed());
        self.garbage(start, start + size);
        fill_pat(start + size, hi, self.red_seed());
        let idx = self.blocks.len();
        self.blocks.push(Block {
            start,
            size,
            align,
            resv,
            lo,
            hi,
            state: BState::Live,
            tag: self.tag,
            op: self.op,
            claimed: 0,
        });
        self.live.push(idx);
        if self.log_on {
            self.n_ok += 1;
            self.last_ok = idx;
        }
        start
    }

    fn find_start(&self, p: usize) -> Option<usize> {
        // blocks are in address order
        let i = self.blocks.partition_point(|b| b.start <= p);
        if i == 0 {
            return None;
        }
        Some(i - 1)
    }

    /// Index of the live block containing [p, p+n).
    pub fn containing(&self, p: usize, n: usize) -> Option<usize> {
        let i = self.find_start(p)?;
        let b = &self.blocks[i];
        (b.state == BState::Live && p + n <= b.start + b.size).then_some(i)
    }

    unsafe fn check_red(&self, i: usize) -> bool {
        let b = &self.blocks[i];
        for (lo, hi, what) in [(b.lo, b.start, "before"), (b.start + b.size, b.hi, "after")] {
            if let Some(a) = check_pat(lo, hi, self.red_seed()) {
                viol(
                    "alloc-overrun",
                    &format!(
                        "byte {} the block of size {} align {} was written (offset {} from its start)",
                        what,
                        b.size,
                        b.align,
                        a as isize - b.start as isize
                    ),
                );
                return false;
            }
        }
        true
    }

    unsafe fn release(&mut self, i: usize) {
        self.check_red(i);
        let (lo, start, size, hi) = {
            let b = &self.blocks[i];
            (b.lo, b.start, b.size, b.hi)
        };
        self.stale.clear();
        self.stale
            .extend_from_slice(std::slice::from_raw_parts(start as *const u8, size.min(2048)));
        self.blocks[i].state = BState::Freed;
        self.live.retain(|&j| j != i);
        if self.fence != Fence::Off {
            protect(lo, hi, libc::PROT_NONE);
            return;
        }
        fill_pat(start, hi, self.poison_seed());
        self.recent.push((self.op, i));
    }

    unsafe fn lookup_for_free(&mut self, p: usize, l: Layout, what: &str) -> Option<usize> {
        let i = self.blocks.binary_search_by(|b| b.start.cmp(&p)).ok();
        let Some(i) = i else {
            viol("alloc-unknown-free", &format!("{} of an address that was never handed out", what));
            return None;
        };
        let b = &self.blocks[i];
        match b.state {
            BState::Live => {}
            BState::Freed => {
                viol("alloc-double-free", &format!("{} of a block already returned", what));
                return None;
            }
            BState::Excused => {
                viol("alloc-double-free", &format!("{} of an abandoned block", what));
                return None;
            }
        }
        if b.size != l.size() || b.align != l.align() {
            viol(
                "alloc-mismatch",
                &format!(
                    "{} with size {} align {}, requested with size {} align {}",
                    what,
                    l.size(),
                    l.align(),
                    b.size,
                    b.align
                ),
            );
            return None;
        }
        Some(i)
    }

    unsafe fn sim_alloc(&mut self, l: Layout) -> *mut u8 {
        if l.size() == 0 {
            viol("alloc-zero", "an empty request reached the allocator");
        }
        representable(l.size(), l.align());
        if self.refuse(l.size()) {
            return std::ptr::null_mut();
        }
        if vast().wants(l.size()) {
            let p = vast().alloc(l);
            self.n_ok += !p.is_null() as u32;
            return p;
        }
        self.place(l.size(), l.align()) as *mut u8
    }

    unsafe fn sim_free(&mut self, p: usize, l: Layout) {
        if l.size() == 0 {
            viol("alloc-zero", "an empty block was returned to the allocator");
        }
        if is_vast(p) {
            return vast().free(p, l);
        }
        if let Some(i) = self.lookup_for_free(p, l, "deallocation") {
            self.release(i);
        }
    }

    unsafe fn sim_realloc(&mut self, p: usize, l: Layout, new: usize) -> *mut u8 {
        if l.size() == 0 || new == 0 {
            viol("alloc-zero", "an empty reallocation reached the allocator");
        }
        representable(new, l.align());
        if is_vast(p) {
            let q = vast().realloc(p, l, new, || self.refuse(new));
            self.n_ok += !q.is_null() as u32;
            return q;
        }
        let Some(i) = self.lookup_for_free(p, l, "reallocation") else {
            return std::ptr::null_mut();
        };
        if self.refuse(new) {
            return std::ptr::null_mut();
        }
        if !self.check_red(i) {
            return std::ptr::null_mut();
        }
        let (start, size, resv, hi) = {
            let b = &self.blocks[i];
            (b.start, b.size, b.resv, b.hi)
        };
        let r = self.next_env();
        if new <= resv && (r & 7) != 0 && self.fence == Fence::Off {
            if new > size {
                self.garbage(start + size, start + new);
            }
            fill_pat(start + new, hi, self.red_seed());
            self.blocks[i].size = new;
            self.blocks[i].op = self.op;
            if self.log_on {
                self.n_ok += 1;
                self.last_ok = i;
                self.inplace += 1;
            }
            self.tot_inplace += 1;
            return start as *mut u8;
        }
        self.tot_moved += 1;
        if vast().wants(new) {
            let q = vast().alloc(Layout::from_size_align_unchecked(new, l.align()));
            if !q.is_null() {
                self.n_ok += 1;
                std::ptr::copy_nonoverlapping(p as *const u8, q, size);
                self.release(i);
            }
            return q;
        }
        let tag = self.tag;
        self.tag = self.blocks[i].tag;
        let q = self.place(new, l.align());
        self.tag = tag;
        if q == 0 {
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(p as *const u8, q as *mut u8, size.min(new));
        self.release(i);
        if self.log_on {
            self.moved += 1;
        }
        q as *mut u8
    }

    /// Integrity of everything currently allocated and of recently returned blocks.
    pub fn check(&mut self) {
        unsafe {
            for k in 0..self.live.len() {
                if !self.check_red(self.live[k]) {
                    return;
                }
            }
            let op = self.op;
            let ps = self.poison_seed();
            self.recent.retain(|(o, _)| o + 3 >= op);
            for &(_, i) in &self.recent {
                let b = &self.blocks[i];
                if let Some(a) = check_pat(b.start, b.hi.min(b.start + b.size + RED), ps) {
                    viol(
                        "alloc-use-after-free",
                        &format!(
                            "byte {} of a block of {} bytes was written after it was returned",
                            a - b.start,
                            b.size
                        ),
                    );
                    return;
                }
            }
        }
    }
    pub fn check_all(&mut self) {
        self.check();
        if self.fence != Fence::Off {
            return;
        }
        unsafe {
            let ps = self.poison_seed();
            for b in &self.blocks {
                if b.state != BState::Freed {
                    continue;
                }
                if let Some(a) = check_pat(b.start, b.hi, ps) {
                    viol(
                        "alloc-use-after-free",
                        &format!(
                            "byte {} of a block of {} bytes was written after it was returned",
                            a - b.start,
                            b.size
                        ),
                    );
                    return;
                }
            }
        }
    }
    pub fn excuse(&mut self, i: usize) {
        self.blocks[i].state = BState::Excused;
        self.live.retain(|&j| j != i);
    }
}

pub struct SimAlloc;

#[inline]
fn in_region(p: usize) -> bool {
    (BASE..BASE + REGION).contains(&p) || is_vast(p)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        // A panic message being formatted is not the library's storage.
        if !rt::in_lib() || std::thread::panicking() {
            return System.alloc(l);
        }
        let _g = rt::Harness::enter();
        heap().sim_alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if is_vast(p as usize) {
            vast().clear(p as usize);
        } else if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_region(p as usize) {
            let _g = rt::Harness::enter();
            heap().sim_free(p as usize, l);
        } else if (p as usize) < 1 << 20 {
            // A dangling pointer: the library returned something it never obtained.
            let _g = rt::Harness::enter();
            viol(
                if l.size() == 0 { "alloc-zero" } else { "alloc-unknown-free" },
                "deallocation of an address that was never handed out",
            );
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if in_region(p as usize) {
            let _g = rt::Harness::enter();
            heap().sim_realloc(p as usize, l, n)
        } else if (p as usize) < 1 << 20 {
            let _g = rt::Harness::enter();
            viol("alloc-unknown-free", "reallocation of an address that was never handed out");
            std::ptr::null_mut()
        } else {
            System.realloc(p, l, n)
        }
    }
}
