//! Element types: how to generate a value (through every kind of initializer), read it back completely
//! through the public accessors, mutate one part of it, and an independent model of its layout.

use crate::heap::heap;
use crate::leaf::*;
use crate::rt::*;
use std::cell::Cell;
use std::mem::{align_of, size_of, MaybeUninit};
use std::pin::Pin;
use std::ptr::NonNull;
use std::rc::Rc;
use varlen::array_init::*;
use varlen::prelude::*;
use varlen::Layout as _;

/// Saturating: sizes that cannot be represented are `usize::MAX`.
pub fn round_up(x: usize, a: usize) -> usize {
    match x.checked_add(a - 1) {
        Some(y) => y / a * a,
        None => usize::MAX,
    }
}

// ---------------------------------------------------------------- reading

pub struct Sink {
    pub words: Vec<u64>,
    /// (address, size) in layout order, to be compared with the layout model
    pub parts: Vec<(usize, usize)>,
    /// header fields: (address, size)
    pub inner: Vec<(usize, usize)>,
    pub lo: usize,
    pub hi: usize,
    pub ok: bool,
}

impl Sink {
    pub fn new() -> Sink {
        Sink { words: Vec::new(), parts: Vec::new(), inner: Vec::new(), lo: 0, hi: 0, ok: true }
    }
    pub fn fail(&mut self, class: &str, msg: &str) {
        if self.ok {
            viol(class, msg);
        }
        self.ok = false;
    }
    pub fn range(&mut self, a: usize, n: usize, align: usize) -> bool {
        if !self.ok {
            return false;
        }
        if a % align != 0 {
            self.fail("misaligned", &format!("a part needing alignment {} lies at offset {} of a value at ...{:x}", align, a.wrapping_sub(self.lo) as isize, self.lo & 0xfff));
            return false;
        }
        if n > 0 && (a < self.lo || a + n > self.hi) {
            self.fail(
                "layout",
                &format!(
                    "a part of {} bytes lies at offset {} of a value whose storage has {} bytes",
                    n,
                    a as isize - self.lo as isize,
                    self.hi - self.lo
                ),
            );
            return false;
        }
        true
    }
    fn word<X: Leaf>(&mut self, x: &X) {
        match x.word() {
            Some(w) => self.words.push(w),
            None => {
                match x.tid() {
                    Some(i) => self.fail("use-dead", &format!("value #{} of type {} is read but it is not alive", i, X::NAME)),
                    None => self.fail("content", &format!("bytes that are no {} are read as one", X::NAME)),
                }
            }
        }
    }
    pub fn leaf<X: Leaf>(&mut self, x: &X) {
        let a = x as *const X as usize;
        if self.range(a, size_of::<X>(), align_of::<X>()) {
            self.parts.push((a, size_of::<X>()));
            self.word(x);
        }
    }
    /// A field inside a struct's header.
    pub fn inner_leaf<X: Leaf>(&mut self, x: &X) {
        let a = x as *const X as usize;
        if self.range(a, size_of::<X>(), align_of::<X>()) {
            self.inner.push((a, size_of::<X>()));
            self.word(x);
        }
    }
    pub fn inner_raw<X>(&mut self, x: &X, word: impl FnOnce(&X) -> u64) {
        let a = x as *const X as usize;
        if self.range(a, size_of::<X>(), align_of::<X>()) {
            self.inner.push((a, size_of::<X>()));
            self.words.push(word(x));
        }
    }
    pub fn header(&mut self, a: usize, n: usize, align: usize) -> bool {
        if self.range(a, n, align) {
            self.parts.push((a, n));
            self.inner.clear();
            true
        } else {
            false
        }
    }
    /// After the fields of a header were read: they lie inside it and do not overlap.
    pub fn end_header(&mut self, a: usize, n: usize) {
        if !self.ok {
            return;
        }
        let v = std::mem::take(&mut self.inner);
        for (i, &(x, k)) in v.iter().enumerate() {
            if x < a || x + k > a + n {
                self.fail("layout", "a header field lies outside the header");
            }
            for &(y, l) in &v[..i] {
                if k > 0 && l > 0 && x < y + l && y < x + k {
                    self.fail("layout", "two header fields overlap");
                }
            }
        }
    }
    /// A slice, preceded by its length word.
    pub fn slice<X: Leaf>(&mut self, xs: &[X]) {
        let a = xs.as_ptr() as usize;
        let n = xs.len();
        let Some(bytes) = n.checked_mul(size_of::<X>()) else {
            self.fail("layout", "an array of impossible length");
            return;
        };
        if !self.range(a, bytes, align_of::<X>()) {
            return;
        }
        self.parts.push((a, bytes));
        self.words.push(n as u64);
        for x in &xs[..shown::<X>(n)] {
            self.word(x);
            if !self.ok {
                return;
            }
        }
    }
    pub fn str(&mut self, s: &str) {
        let a = s.as_ptr() as usize;
        if !self.range(a, s.len(), 1) {
            return;
        }
        self.parts.push((a, s.len()));
        self.words.push(s.len() as u64);
        str_words(s.as_bytes(), &mut self.words);
        if std::str::from_utf8(s.as_bytes()).is_err() {
            self.fail("content", "a string is not UTF-8 any more");
        }
    }
}

/// Plain zero-sized elements carry nothing: do not walk billions of them.
pub fn shown<X: Leaf>(n: usize) -> usize {
    if size_of::<X>() == 0 && !X::TOK {
        n.min(16)
    } else {
        n
    }
}

pub fn str_words(b: &[u8], out: &mut Vec<u64>) {
    for c in b.chunks(4) {
        let mut w = 0u64;
        for (i, x) in c.iter().enumerate() {
            w |= (*x as u64) << (8 * i);
        }
        out.push(w);
    }
}
fn mutate_byte(x: u8, r: u32, i: usize) -> u8 {
    if x < 0x80 {
        b'a' + ((x as u32 + (r >> (3 * i)) % 25 + 1) % 26) as u8
    } else {
        x
    }
}

// ---------------------------------------------------------------- mutation

pub struct MutCtx {
    pub target: usize,
    pub cur: usize,
    pub rnd: u32,
    pub new: Option<u64>,
    pub hit: bool,
    pub parts: Vec<(usize, usize)>,
}
impl MutCtx {
    pub fn new(target: usize, rnd: u32) -> MutCtx {
        MutCtx { target, cur: 0, rnd, new: None, hit: false, parts: Vec::new() }
    }
    pub fn skip(&mut self, n: usize) {
        self.cur += n;
    }
    pub fn leaf<X: Leaf>(&mut self, x: &mut X) {
        if size_of::<X>() > 0 {
            self.parts.push((x as *mut X as usize, size_of::<X>()));
        }
        self.set(x);
        self.cur += 1;
    }
    fn set<X: Leaf>(&mut self, x: &mut X) {
        if self.cur != self.target {
            return;
        }
        let v = X::make(self.rnd);
        self.new = v.word();
        self.hit = true;
        *x = v;
    }
    pub fn slice<X: Leaf>(&mut self, xs: &mut [X]) {
        let n = xs.len();
        if n > 0 && size_of::<X>() > 0 {
            self.parts.push((xs.as_mut_ptr() as usize, n * size_of::<X>()));
        }
        self.cur += 1;
        let k = shown::<X>(n);
        if self.target >= self.cur && self.target < self.cur + k {
            let i = self.target - self.cur;
            self.cur = self.target;
            self.set(&mut xs[i]);
            self.cur += k - i;
        } else {
            self.cur += k;
        }
    }
    pub fn str(&mut self, s: &mut str) {
        let n = s.len();
        if n > 0 {
            self.parts.push((s.as_mut_ptr() as usize, n));
        }
        self.cur += 1;
        let k = (n + 3) / 4;
        if self.target >= self.cur && self.target < self.cur + k {
            let i = self.target - self.cur;
            // Safety: ASCII bytes stay ASCII, all others are untouched
            let b = unsafe { s.as_bytes_mut() };
            let c = &mut b[4 * i..(4 * i + 4).min(n)];
            let mut w = 0;
            for (j, x) in c.iter_mut().enumerate() {
                *x = mutate_byte(*x, self.rnd, j);
                w |= (*x as u64) << (8 * j);
            }
            self.new = Some(w);
            self.hit = true;
        }
        self.cur += k;
    }
    /// All parts handed out together must be disjoint.
    pub fn check(&self, prior: &mut Vec<(usize, usize)>) {
        for &(a, n) in &self.parts {
            for &(b, m) in prior.iter() {
                if a < b + m && b < a + n {
                    viol("mut-overlap", "two mutable parts handed out together overlap");
                    return;
                }
            }
            prior.push((a, n));
        }
    }
}

// ---------------------------------------------------------------- layout model

pub struct Cur<'a> {
    pub w: &'a [u64],
    pub i: usize,
}
impl Cur<'_> {
    pub fn next(&mut self) -> u64 {
        self.i += 1;
        self.w[self.i - 1]
    }
    pub fn skip(&mut self, n: usize) {
        self.i += n;
    }
}

pub fn sadd(a: usize, b: usize) -> usize {
    a.saturating_add(b)
}

pub type Parts = Vec<(usize, usize)>;

fn lay_slice<X: Leaf>(c: &mut Cur, off: usize, out: &mut Parts) -> usize {
    let n = c.next() as usize;
    let bytes = n.saturating_mul(size_of::<X>());
    if n <= GIANT || size_of::<X>() == 0 {
        c.skip(shown::<X>(n));
    }
    let off = round_up(off, align_of::<X>());
    out.push((off, bytes));
    off.saturating_add(bytes)
}
/// More elements than this are never really built.
pub const GIANT: usize = 1 << 20;

// ---------------------------------------------------------------- generation

pub struct Gen {
    pub rng: Rng,
    /// expected reading, tokens as payloads
    pub words: Vec<u64>,
    pub toks: Vec<u32>,
    pub cap: usize,
    pub want_mism: bool,
    pub did_mism: bool,
    /// giant element count to plant in the first array that can express it
    pub want_ovf: Option<u64>,
    pub did_ovf: bool,
    pub simple: bool,
    /// big values
    pub long: bool,
    pub depth: u32,
    pub held: Vec<Box<dyn std::any::Any>>,
    /// token ids owned by held sources, with their expected payloads
    pub src_ids: Vec<(u32, u32)>,
}

impl Gen {
    pub fn new(seed: u64, cap: usize) -> Gen {
        Gen {
            rng: Rng::new(seed),
            words: Vec::new(),
            toks: Vec::new(),
            cap,
            want_mism: false,
            did_mism: false,
            want_ovf: None,
            did_ovf: false,
            simple: false,
            long: false,
            depth: 0,
            held: Vec::new(),
            src_ids: Vec::new(),
        }
    }
    pub fn payload(&mut self) -> u32 {
        (self.rng.next() >> 40) as u32 | 1
    }
    pub fn len(&mut self, max: usize) -> usize {
        let c = self.cap.min(max) as u64;
        if self.long {
            return (c - self.rng.below(c / 4 + 1)) as usize;
        }
        let n = match self.rng.below(8) {
            0 => 0,
            1 => 1,
            2 | 3 => self.rng.below(4),
            4 | 5 => self.rng.below(9),
            _ => self.rng.below(c + 1),
        };
        n.min(c) as usize
    }
    /// A giant length, if one is wanted here and `max` can express it.
    pub fn giant(&mut self, max: u64, elem: usize) -> Option<u64> {
        let k = self.want_ovf?;
        if self.did_ovf || elem == 0 || max < u32::MAX as u64 {
            return None;
        }
        let e = elem as u64;
        let im = isize::MAX as u64;
        let small = k >> 8 & 0x3f;
        let n = match k & 7 {
            0 => u64::MAX - small,
            1 => (u64::MAX / e).wrapping_add(small & 3).saturating_sub(1),
            2 => im - small,
            3 => im / e + 1 - (small & 1),
            // n * e wraps around to something small
            4 => (u64::MAX / e).saturating_add(1 + small),
            5 => (1u64 << 63) / e + small,
            6 => im / e + small,
            _ => (1 << 40) + small,
        };
        let n = n.min(max);
        // it must really be too big for the simulated machine
        if (n as u128) * (e as u128) < 1 << 24 {
            return None;
        }
        self.did_ovf = true;
        Some(n)
    }
    pub fn hold<X: 'static>(&mut self, x: X) -> &'static X {
        unsafe { &*self.hold_raw(x) }
    }
    fn hold_raw<X: 'static>(&mut self, x: X) -> *mut X {
        let p = Box::into_raw(Box::new(x));
        self.held.push(Box::new(Held(p)));
        p
    }
    fn hold_slice<X: Leaf>(&mut self, v: Vec<X>) -> &'static [X] {
        for x in &v {
            if let Some(id) = x.tid() {
                self.src_ids.push((id, rt().toks[id as usize].payload));
            }
        }
        let r: &'static Vec<X> = self.hold(v);
        &r[..]
    }
    pub fn make<X: Leaf>(&mut self) -> X {
        let p = self.payload();
        self.words.push(X::pw(p));
        let x = X::make(p);
        if let Some(i) = x.tid() {
            self.toks.push(i);
        }
        x
    }
    fn text(&mut self, n: usize) -> &'static str {
        let wide = self.rng.chance(1, 6);
        let mut s = String::with_capacity(n);
        while s.len() < n {
            let left = n - s.len();
            let r = self.rng.next();
            if wide && left >= 2 && r & 3 == 0 {
                if left >= 3 && r & 4 != 0 {
                    s.push('\u{20ac}')
                } else {
                    s.push('\u{e9}')
                }
            } else {
                s.push((b'a' + (r >> 8) as u8 % 26) as char)
            }
        }
        let r: &'static String = self.hold(s);
        &r[..]
    }
}

/// Something kept alive until the operation is over; only reached through the raw pointer.
struct Held<X>(*mut X);
impl<X> Drop for Held<X> {
    fn drop(&mut self) {
        drop(unsafe { Box::from_raw(self.0) });
    }
}

pub struct Never<T>(std::convert::Infallible, std::marker::PhantomData<T>);
unsafe impl<T: VarLen> Initializer<T> for Never<T> {
    fn calculate_layout_cautious(&self) -> Option<T::Layout> {
        match self.0 {}
    }
    unsafe fn initialize(self, _: NonNull<T>, _: T::Layout) {
        match self.0 {}
    }
}

pub struct CtlRes {
    pub expect_ok: bool,
    /// an array length cannot even be computed from the new values: its expression panics
    pub panics: bool,
    pub got_ok: R<bool>,
    /// (position in the flattened value, new word)
    pub new: Vec<(usize, u64)>,
}

pub trait Elem: VarLen + 'static {
    type Native: Initializer<Self>;
    type Cl: Initializer<Self>;
    type Cp: Initializer<Self>;
    const CLONE: bool;
    const COPY: bool;
    /// may contain an array that can be asked for an impossible length
    const BIG: bool;
    fn native(g: &mut Gen) -> Self::Native;
    fn cl(&'static self) -> Self::Cl;
    fn cp(&'static self) -> Self::Cp;
    fn box_clone(b: &VBox<Self>) -> VBox<Self>;
    fn box_clone_from(d: &mut VBox<Self>, b: &VBox<Self>);
    fn walk(&self, s: &mut Sink);
    fn walk_mut(self: Pin<&mut Self>, m: &mut MutCtx);
    fn lay(c: &mut Cur, base: usize, out: &mut Parts) -> usize;
    fn malign() -> usize;
    /// Boundary of the length type: (number of elements tried, must be accepted, what came back)
    fn limit(_g: &mut Gen) -> Option<(usize, bool, Option<Self::Native>)> {
        None
    }
    fn ctl(self: Pin<&mut Self>, _g: &mut Gen, _fault: &mut dyn FnMut()) -> Option<CtlRes> {
        None
    }
    const CTL: bool = false;
}

pub fn lay_of<T: Elem>(words: &[u64]) -> (usize, Parts) {
    let mut c = Cur { w: words, i: 0 };
    let mut out = Parts::new();
    let n = T::lay(&mut c, 0, &mut out);
    (n, out)
}

// ---------------------------------------------------------------- initializers

pub enum Kind<T: Elem> {
    Native(T::Native),
    Boxed(VBox<T>),
    Owned(Owned<'static, T>),
    Clone(T::Cl),
    Copy(T::Cp),
}

/// Any initializer of `T`, with fault points around it: a user-defined `Initializer`.
pub struct AnyInit<T: Elem> {
    pub kind: Kind<T>,
    pub toks: Vec<u32>,
}

pub fn read_toks<T: Elem>(v: &T) -> Vec<u32> {
    let mut s = Sink::new();
    s.lo = 0;
    s.hi = usize::MAX;
    v.walk(&mut s);
    s.words.iter().filter(|w| *w & TOKW != 0).map(|w| *w as u32).collect()
}

pub fn hold_box<T: Elem>(g: &mut Gen, b: VBox<T>) -> &'static T {
    for id in read_toks(&*b) {
        g.src_ids.push((id, rt().toks[id as usize].payload));
    }
    let r: &'static VBox<T> = g.hold(b);
    &**r
}

/// Build a temporary box of a fresh value (no faults are armed while operations are prepared).
fn temp_box<T: Elem>(g: &mut Gen) -> VBox<T> {
    let toks = std::mem::take(&mut g.toks);
    let (mism, ovf) = (g.want_mism, g.want_ovf);
    g.want_mism = false;
    g.want_ovf = None;
    let n = T::native(g);
    g.want_mism = mism;
    g.want_ovf = ovf;
    g.toks = toks;
    match lib(move || VBox::<T>::new(n)) {
        Ok(b) => b,
        Err(e) => {
            viol("unexpected-panic", &format!("building a boxed value failed without a fault: {:?}", e));
            abort_run()
        }
    }
}

impl<T: Elem> AnyInit<T> {
    pub fn native(g: &mut Gen) -> AnyInit<T> {
        let outer = std::mem::take(&mut g.toks);
        let n = T::native(g);
        let toks = std::mem::replace(&mut g.toks, outer);
        AnyInit { kind: Kind::Native(n), toks }
    }
    pub fn gen(g: &mut Gen) -> AnyInit<T> {
        g.depth += 1;
        let r = g.rng.below(16);
        let fresh = g.simple
            || r < 10
            || (g.want_ovf.is_some() && T::BIG && !g.did_ovf)
            || (g.want_mism && r < 14);
        let out = if fresh {
            AnyInit::native(g)
        } else {
            match r {
                10 | 11 => AnyInit::from_box(temp_box::<T>(g)),
                12 => {
                    // an element drained out of a sequence that lives as long as the operation
                    let b = temp_box::<T>(g);
                    let s = lib(move || {
                        let mut s: Seq<T> = Seq::new();
                        s.push(b);
                        s
                    });
                    match s {
                        Ok(s) => {
                            let s: *mut Seq<T> = g.hold_raw(s);
                            let o = lib(move || {
                                let s: &'static mut Seq<T> = unsafe { &mut *s };
                                s.take_elems().next()
                            });
                            match o {
                                Ok(Some(o)) => AnyInit::from_owned(o),
                                _ => {
                                    viol("iter", "a drained element is missing");
                                    abort_run()
                                }
                            }
                        }
                        Err(e) => {
                            viol("unexpected-panic", &format!("pushing a box failed without a fault: {:?}", e));
                            abort_run()
                        }
                    }
                }
                13 | 14 if T::CLONE => {
                    let at = g.words.len();
                    let b = temp_box::<T>(g);
                    let r = hold_box(g, b);
                    for w in &mut g.words[at..] {
                        *w = clone_word(*w);
                    }
                    AnyInit::from_clone(r)
                }
                15 if T::COPY => {
                    let b = temp_box::<T>(g);
                    let r = hold_box(g, b);
                    AnyInit::from_copy(r)
                }
                _ => AnyInit::native(g),
            }
        };
        g.depth -= 1;
        out
    }
    pub fn from_box(b: VBox<T>) -> AnyInit<T> {
        let toks = read_toks(&*b);
        AnyInit { kind: Kind::Boxed(b), toks }
    }
    pub fn from_owned(b: Owned<'static, T>) -> AnyInit<T> {
        let toks = read_toks(&*b);
        AnyInit { kind: Kind::Owned(b), toks }
    }
    pub fn from_clone(r: &'static T) -> AnyInit<T> {
        AnyInit { kind: Kind::Clone(r.cl()), toks: Vec::new() }
    }
    pub fn from_copy(r: &'static T) -> AnyInit<T> {
        AnyInit { kind: Kind::Copy(r.cp()), toks: Vec::new() }
    }
    pub fn size(&self) -> Option<usize> {
        Some(self.inner_layout()?.size())
    }
    fn inner_layout(&self) -> Option<T::Layout> {
        match &self.kind {
            Kind::Native(x) => x.calculate_layout_cautious(),
            Kind::Boxed(x) => Initializer::<T>::calculate_layout_cautious(x),
            Kind::Owned(x) => Initializer::<T>::calculate_layout_cautious(x),
            Kind::Clone(x) => x.calculate_layout_cautious(),
            Kind::Copy(x) => x.calculate_layout_cautious(),
        }
    }
}

unsafe impl<T: Elem> Initializer<T> for AnyInit<T> {
    fn calculate_layout_cautious(&self) -> Option<T::Layout> {
        {
            let _g = Harness::enter();
            layout_point();
        }
        self.inner_layout()
    }
    unsafe fn initialize(self, dst: NonNull<T>, layout: T::Layout) {
        let AnyInit { kind, toks } = self;
        {
            let _g = Harness::enter();
            consume(&toks);
            drop(toks);
            cb_point();
            dst_check(dst.as_ptr() as usize, layout.size(), T::malign());
        }
        match kind {
            Kind::Native(x) => x.initialize(dst, layout),
            Kind::Boxed(x) => x.initialize(dst, layout),
            Kind::Owned(x) => x.initialize(dst, layout),
            Kind::Clone(x) => x.initialize(dst, layout),
            Kind::Copy(x) => x.initialize(dst, layout),
        }
        let _g = Harness::enter();
        cb_point();
    }
}

/// The library asks user code to fill `n` bytes at `a`: they must be its to give.
fn dst_check(a: usize, n: usize, align: usize) {
    if bad() {
        return;
    }
    if a % align != 0 {
        viol("misaligned", &format!("a value of alignment {} is built at an address that is not aligned to it", align));
        abort_run();
    }
    if n > 0 && heap().containing(a, n).is_none() {
        viol("alloc-overrun", &format!("a value of {} bytes is built outside allocated memory", n));
        abort_run();
    }
}

// ---------------------------------------------------------------- array sources

pub enum Src<X: Leaf> {
    Fill(u32),
    Default,
    Iter { base: u32, len: usize },
    M0([X; 0]),
    M1([X; 1]),
    M2([X; 2]),
    M3([X; 3]),
    M5([X; 5]),
    M17(Box<[X; 17]>),
    M64(Box<[X; 64]>),
    Clone(&'static [X]),
    Copy(&'static [X]),
    /// user-defined initializer filling backwards
    Back(u32),
}

pub struct ArrSrc<X: Leaf> {
    pub src: Src<X>,
    pub toks: Vec<u32>,
}

pub fn pay(base: u32, i: usize) -> u32 {
    (hash2(base as u64, i as u64) >> 40) as u32 | 1
}

struct GenIter<X> {
    base: u32,
    i: Rc<Cell<usize>>,
    len: usize,
    m: std::marker::PhantomData<X>,
    g: Guest,
}
impl<X: Leaf> Iterator for GenIter<X> {
    type Item = X;
    fn next(&mut self) -> Option<X> {
        let _g = Harness::enter();
        self.g.here();
        cb_point();
        let i = self.i.get();
        if i >= self.len {
            return None;
        }
        self.i.set(i + 1);
        Some(delivered(X::make(pay(self.base, i))))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hint(self.base as usize >> 5, self.len - self.i.get().min(self.len))
    }
}

/// What an iterator with `n` items left says about itself: exact, vague, or plainly wrong.
pub fn hint(mode: usize, n: usize) -> (usize, Option<usize>) {
    match mode % 8 {
        0 | 1 => (n, Some(n)),
        2 => (0, None),
        3 => (n / 2, Some(n + 2)),
        4 => (n / 2, None),
        5 => (n / 2, Some(n / 2)),
        6 => (n + 3, Some(n + 3)),
        _ => (0, Some(0)),
    }
}

fn delivered<X: Leaf>(x: X) -> X {
    if let Some(i) = x.tid() {
        consume(&[i]);
    }
    x
}

unsafe impl<X: Leaf> ArrayInitializer<X> for ArrSrc<X> {
    fn initialize(self, dst: &mut [MaybeUninit<X>]) {
        let ArrSrc { src, toks } = self;
        let n = dst.len();
        {
            let _g = Harness::enter();
            // A moved-in array of the wrong length is refused as a whole: its elements stay inputs.
            if toks.len() == n || size_of::<X>() == 0 {
                consume(&toks);
            }
            drop(toks);
            cb_point();
            dst_check_slice::<X>(dst);
        }
        match src {
            Src::Fill(base) => {
                let calls = Cell::new(0usize);
                let (g, calls_) = (Guest::new(), &calls);
                FillSequentially(move |i: usize| {
                    let calls = calls_;
                    let _g = Harness::enter();
                    g.here();
                    cb_point();
                    calls.set(calls.get() + 1);
                    delivered(X::make(pay(base, i)))
                })
                .initialize(dst);
                if calls.get() != n {
                    viol("array", &format!("an array of {} elements was produced by {} calls", n, calls.get()));
                }
            }
            Src::Default => FillWithDefault.initialize(dst),
            Src::Iter { base, len } => {
                let i = {
                    let _g = Harness::enter();
                    Rc::new(Cell::new(0))
                };
                let it = GenIter { base, i: i.clone(), len, m: std::marker::PhantomData, g: Guest::new() };
                FromIterPrefix(it).initialize(dst);
                if i.get() != n {
                    viol("array", &format!("an array of {} elements took {} items from its iterator", n, i.get()));
                }
            }
            Src::M0(a) => MoveFrom(a).initialize(dst),
            Src::M1(a) => MoveFrom(a).initialize(dst),
            Src::M2(a) => MoveFrom(a).initialize(dst),
            Src::M3(a) => MoveFrom(a).initialize(dst),
            Src::M5(a) => MoveFrom(a).initialize(dst),
            Src::M17(a) => MoveFrom(*a).initialize(dst),
            Src::M64(a) => MoveFrom(*a).initialize(dst),
            Src::Clone(s) => CloneFrom(s).initialize(dst),
            Src::Copy(s) => X::copy_from(s, dst),
            Src::Back(base) => {
                for i in (0..n).rev() {
                    let _g = Harness::enter();
                    cb_point();
                    dst[i].write(delivered(X::make(pay(base, i))));
                }
            }
        }
    }
}

fn dst_check_slice<X: Leaf>(dst: &[MaybeUninit<X>]) {
    let a = dst.as_ptr() as usize;
    // arrays on the stack (`new_array`) are not in the simulated heap
    if a >= crate::heap::BASE && a < crate::heap::BASE + crate::heap::REGION {
        match dst.len().checked_mul(size_of::<X>()) {
            Some(b) => dst_check(a, b, align_of::<X>()),
            None => {
                viol("layout", "an array of impossible length is to be filled");
                abort_run()
            }
        }
    }
}

pub fn default_word<X: Leaf>() -> u64 {
    if X::TOK {
        X::pw(default_payload())
    } else {
        X::default().word().unwrap()
    }
}

fn vec_of<X: Leaf>(base: u32, n: usize) -> Vec<X> {
    (0..n).map(|i| X::make(pay(base, i))).collect()
}

/// A source for `n` elements; pushes the expected words (without the length).
pub fn gen_src<X: Leaf>(g: &mut Gen, n: usize) -> ArrSrc<X> {
    let base = g.rng.next() as u32;
    let mism = g.want_mism && !g.did_mism && g.rng.chance(2, 3);
    let fixed = [0usize, 1, 2, 3, 5, 17, 64];
    let mut k = g.rng.below(16);
    if mism {
        k = 4 + g.rng.below(8);
    }
    let mut toks = Vec::new();
    let mut m = n;
    if mism {
        g.did_mism = true;
        m = match g.rng.below(4) {
            0 if n > 0 => n - 1,
            1 => n + 1,
            2 => 0,
            _ => n + 1 + g.rng.below(5) as usize,
        };
        if m == n {
            m = n + 1;
        }
    }
    let src = match k {
        0..=3 => Src::Fill(base),
        4 | 5 if !mism => Src::Default,
        4..=6 if mism && n > 0 => Src::Iter { base, len: g.rng.below(n as u64) as usize },
        6 | 7 if !mism => Src::Iter { base, len: n + g.rng.below(3) as usize },
        8 | 9 if X::COPY => {
            let v = vec_of::<X>(base, m);
            let r: &'static Vec<X> = g.hold(v);
            Src::Copy(&r[..])
        }
        10 | 11 if mism || fixed.contains(&n) => {
            if mism && !fixed.contains(&m) {
                m = if n == 3 { 5 } else { 3 };
            }
            if mism && n > 5 && n != 17 && base % 3 == 0 {
                m = 17;
            }
            let mut mk = |i: usize| {
                let x = X::make(pay(base, i));
                if let Some(t) = x.tid() {
                    toks.push(t)
                }
                x
            };
            match m {
                0 => Src::M0([]),
                1 => Src::M1([mk(0)]),
                2 => Src::M2([mk(0), mk(1)]),
                3 => Src::M3([mk(0), mk(1), mk(2)]),
                5 => Src::M5([mk(0), mk(1), mk(2), mk(3), mk(4)]),
                17 => Src::M17(Box::new(std::array::from_fn(mk))),
                _ => Src::M64(Box::new(std::array::from_fn(mk))),
            }
        }
        15 if !mism => Src::Back(base),
        _ => {
            let v = vec_of::<X>(base, m);
            Src::Clone(g.hold_slice(v))
        }
    };
    let is_def = matches!(src, Src::Default);
    let is_clone = matches!(src, Src::Clone(_));
    for i in 0..shown::<X>(n) {
        let w = if is_def { default_word::<X>() } else { X::pw(pay(base, i)) };
        g.words.push(if is_clone { clone_word(w) } else { w });
    }
    ArrSrc { src, toks }
}

/// A source that must never run.
pub fn giant_src<X: Leaf>(g: &mut Gen) -> ArrSrc<X> {
    let base = g.rng.next() as u32;
    ArrSrc { src: if g.rng.chance(1, 2) { Src::Fill(base) } else { Src::Back(base) }, toks: Vec::new() }
}

// ---------------------------------------------------------------- length types

pub trait LenX: ArrayLen {
    const MAX: u64;
    fn mk(n: u64) -> Self;
    fn val(self) -> u64;
}
macro_rules! lenx {
    ($($t:ty),*) => { $(
        impl LenX for $t {
            const MAX: u64 = <$t>::MAX as u64;
            fn mk(n: u64) -> Self { n as $t }
            fn val(self) -> u64 { self as u64 }
        }
    )* }
}
lenx!(u8, u16, u32, u64, usize);

// ---------------------------------------------------------------- Array

pub fn arr_native<X: Leaf, L: LenX>(g: &mut Gen) -> SizedInit<ArrSrc<X>, L> {
    if let Some(n) = g.giant(L::MAX, size_of::<X>()) {
        g.words.push(n);
        return SizedInit(L::mk(n), giant_src(g));
    }
    let mut n = g.len(L::MAX.min(1 << 40) as usize);
    if n > 0 && !g.simple && g.cap >= 8 && size_of::<X>() <= 64 && g.rng.chance(1, 20) {
        n = if g.rng.chance(2, 3) { 17 } else { 64 };
    }
    g.words.push(n as u64);
    let s = gen_src::<X>(g, n);
    SizedInit(L::mk(n as u64), s)
}

pub fn arr_walk<X: Leaf, L: LenX>(v: &Array<X, L>, s: &mut Sink) {
    let a = v as *const _ as usize;
    if !s.header(a, size_of::<L>(), align_of::<L>()) {
        return;
    }
    let n = v.len_short().val();
    if size_of::<X>() > 0 && n > ((s.hi - s.lo) / size_of::<X>()) as u64 {
        s.fail("layout", &format!("an array claims {} elements, more than its storage holds", n));
        return;
    }
    let sl: &[X] = &v[..];
    if sl.len() as u64 != n {
        s.fail("array", &format!("an array of recorded length {} is read as {} elements", n, sl.len()));
        return;
    }
    s.slice(sl);
}
pub fn arr_mut<X: Leaf, L: LenX>(v: Pin<&mut Array<X, L>>, m: &mut MutCtx) {
    m.slice(v.mut_slice());
}
pub fn arr_lay<X: Leaf, L: LenX>(c: &mut Cur, base: usize, out: &mut Parts) -> usize {
    out.push((base, size_of::<L>()));
    lay_slice::<X>(c, sadd(base, size_of::<L>()), out)
}
/// Lengths around what the length type can hold.
fn limit_len(g: &mut Gen, max: u64) -> Option<usize> {
    if max > u32::MAX as u64 {
        return None;
    }
    let d = g.rng.below(5);
    Some((max - 1 + d) as usize)
}
pub fn arr_limit<X: Leaf, L: LenX>(
    g: &mut Gen,
    try_len: impl FnOnce(&'static [X]) -> Option<L>,
) -> Option<(usize, bool, Option<SizedInit<ArrSrc<X>, L>>)> {
    let n = limit_len(g, L::MAX)?;
    if size_of::<X>() > 0 && n > 70_000 {
        return None;
    }
    if X::TOK && n > 300 {
        return None;
    }
    let base = g.rng.next() as u32;
    let r: &'static [X] = if size_of::<X>() == 0 && !X::TOK {
        unsafe { std::slice::from_raw_parts(NonNull::<X>::dangling().as_ptr(), n) }
    } else {
        let v = vec_of::<X>(base, n);
        g.hold_slice(v)
    };
    g.words.push(n as u64);
    for i in 0..shown::<X>(n) {
        let w = X::pw(pay(base, i));
        g.words.push(if X::COPY { w } else { clone_word(w) });
    }
    let l = try_len(r);
    let src = if X::COPY { Src::Copy(r) } else { Src::Clone(r) };
    Some((n, n as u64 <= L::MAX, l.map(|l| SizedInit(l, ArrSrc { src, toks: Vec::new() }))))
}

// ---------------------------------------------------------------- Str

pub struct StrSrc(pub &'static str);
unsafe impl<L: LenX> Initializer<Str<L>> for StrSrc {
    fn calculate_layout_cautious(&self) -> Option<<Str<L> as VarLen>::Layout> {
        Str::<L>::try_copy(self.0).unwrap().calculate_layout_cautious()
    }
    unsafe fn initialize(self, dst: NonNull<Str<L>>, layout: <Str<L> as VarLen>::Layout) {
        Str::<L>::try_copy(self.0).unwrap().initialize(dst, layout)
    }
}
pub fn str_native<L: LenX>(g: &mut Gen) -> StrSrc {
    let n = g.len(L::MAX.min(1 << 40) as usize);
    let s = g.text(n);
    g.words.push(n as u64);
    str_words(s.as_bytes(), &mut g.words);
    StrSrc(s)
}
pub fn str_walk<L: LenX>(v: &Str<L>, s: &mut Sink) {
    let a = v as *const _ as usize;
    if !s.header(a, size_of::<L>(), align_of::<L>()) {
        return;
    }
    let n = unsafe { *(a as *const L) }.val();
    if n > (s.hi - s.lo) as u64 {
        s.fail("layout", "a string claims more bytes than its storage holds");
        return;
    }
    s.str(&v[..]);
}
pub fn str_mut<L: LenX>(v: Pin<&mut Str<L>>, m: &mut MutCtx) {
    m.str(v.mut_slice());
}
pub fn str_lay<L: LenX>(c: &mut Cur, base: usize, out: &mut Parts) -> usize {
    out.push((base, size_of::<L>()));
    let n = c.next() as usize;
    c.skip((n + 3) / 4);
    out.push((sadd(base, size_of::<L>()), n));
    sadd(base, size_of::<L>() + n)
}
pub fn str_limit<L: LenX>(g: &mut Gen) -> Option<(usize, bool, Option<StrSrc>)> {
    let n = limit_len(g, L::MAX)?;
    if n > 70_000 {
        return None;
    }
    let s = g.text(n);
    g.words.push(n as u64);
    str_words(s.as_bytes(), &mut g.words);
    let ok = Str::<L>::try_copy(s).is_some();
    Some((n, n as u64 <= L::MAX, ok.then_some(StrSrc(s))))
}

// ---------------------------------------------------------------- impl macros

#[macro_export]
macro_rules! caps {
    (cc) => {
        type Cl = <Self as VClone<'static>>::Cloner;
        type Cp = varlen::VCopier<'static, Self>;
        const CLONE: bool = true;
        const COPY: bool = true;
        fn cl(&'static self) -> Self::Cl {
            self.vclone()
        }
        fn cp(&'static self) -> Self::Cp {
            self.vcopy()
        }
        fn box_clone(b: &VBox<Self>) -> VBox<Self> {
            b.clone()
        }
        fn box_clone_from(d: &mut VBox<Self>, b: &VBox<Self>) {
            d.clone_from(b)
        }
    };
    (c) => {
        type Cl = <Self as VClone<'static>>::Cloner;
        type Cp = $crate::elem::Never<Self>;
        const CLONE: bool = true;
        const COPY: bool = false;
        fn cl(&'static self) -> Self::Cl {
            self.vclone()
        }
        fn cp(&'static self) -> Self::Cp {
            unreachable!()
        }
        fn box_clone(b: &VBox<Self>) -> VBox<Self> {
            b.clone()
        }
        fn box_clone_from(d: &mut VBox<Self>, b: &VBox<Self>) {
            d.clone_from(b)
        }
    };
    (n) => {
        type Cl = $crate::elem::Never<Self>;
        type Cp = $crate::elem::Never<Self>;
        const CLONE: bool = false;
        const COPY: bool = false;
        fn cl(&'static self) -> Self::Cl {
            unreachable!()
        }
        fn cp(&'static self) -> Self::Cp {
            unreachable!()
        }
        fn box_clone(_: &VBox<Self>) -> VBox<Self> {
            unreachable!()
        }
        fn box_clone_from(_: &mut VBox<Self>, _: &VBox<Self>) {
            unreachable!()
        }
    };
}

#[macro_export]
macro_rules! elem_fixed {
    ($($x:ty, $c:ident;)*) => { $(
        impl Elem for FixedLen<$x> {
            type Native = FixedLen<$x>;
            caps!($c);
            const BIG: bool = false;
            fn native(g: &mut Gen) -> Self::Native {
                FixedLen(g.make::<$x>())
            }
            fn walk(&self, s: &mut Sink) {
                s.leaf(&self.0)
            }
            fn walk_mut(self: Pin<&mut Self>, m: &mut MutCtx) {
                m.leaf(unsafe { &mut self.get_unchecked_mut().0 })
            }
            fn lay(c: &mut Cur, base: usize, out: &mut Parts) -> usize {
                c.next();
                out.push((base, size_of::<$x>()));
                sadd(base, size_of::<$x>())
            }
            fn malign() -> usize {
                align_of::<$x>()
            }
        }
    )* };
}

#[macro_export]
macro_rules! elem_arr {
    ($($x:ty, $l:ty, $c:ident;)*) => { $(
        impl Elem for Array<$x, $l> {
            type Native = SizedInit<ArrSrc<$x>, $l>;
            caps!($c);
            const BIG: bool = size_of::<$l>() >= 4 && size_of::<$x>() > 0;
            fn native(g: &mut Gen) -> Self::Native {
                arr_native::<$x, $l>(g)
            }
            fn walk(&self, s: &mut Sink) {
                arr_walk(self, s)
            }
            fn walk_mut(self: Pin<&mut Self>, m: &mut MutCtx) {
                arr_mut(self, m)
            }
            fn lay(c: &mut Cur, base: usize, out: &mut Parts) -> usize {
                arr_lay::<$x, $l>(c, base, out)
            }
            fn malign() -> usize {
                align_of::<$x>().max(align_of::<$l>())
            }
            fn limit(g: &mut Gen) -> Option<(usize, bool, Option<Self::Native>)> {
                arr_limit::<$x, $l>(g, |s| elem_arr!(@try $c, $x, $l, s))
            }
        }
    )* };
    (@try cc, $x:ty, $l:ty, $s:ident) => { Array::<$x, $l>::try_copy($s).map(|i| i.0) };
    (@try c, $x:ty, $l:ty, $s:ident) => { Array::<$x, $l>::try_clone_from_slice($s).map(|i| i.0) };
}

#[macro_export]
macro_rules! elem_str {
    ($($l:ty),*) => { $(
        impl Elem for Str<$l> {
            type Native = StrSrc;
            caps!(cc);
            const BIG: bool = false;
            fn native(g: &mut Gen) -> Self::Native {
                str_native::<$l>(g)
            }
            fn walk(&self, s: &mut Sink) {
                str_walk(self, s)
            }
            fn walk_mut(self: Pin<&mut Self>, m: &mut MutCtx) {
                str_mut(self, m)
            }
            fn lay(c: &mut Cur, base: usize, out: &mut Parts) -> usize {
                str_lay::<$l>(c, base, out)
            }
            fn malign() -> usize {
                align_of::<$l>()
            }
            fn limit(g: &mut Gen) -> Option<(usize, bool, Option<Self::Native>)> {
                str_limit::<$l>(g)
            }
        }
    )* };
}

#[macro_export]
macro_rules! elem_tup {
    ($name:ty, $tup:ident, $m:ident, $c:ident, $($f:ident : $t:ty),*) => {
        impl Elem for $name {
            type Native = $m::Init<$(AnyInit<$t>),*>;
            caps!($c);
            const BIG: bool = $(<$t as Elem>::BIG)||*;
            fn native(g: &mut Gen) -> Self::Native {
                $( let $f = AnyInit::<$t>::gen(g); )*
                $m::Init($($f),*)
            }
            fn walk(&self, s: &mut Sink) {
                let $m::Refs($($f),*) = self.refs();
                $( Elem::walk($f, s); )*
            }
            fn walk_mut(self: Pin<&mut Self>, m: &mut MutCtx) {
                let $m::Muts($($f),*) = self.muts();
                $( Elem::walk_mut($f, m); )*
            }
            fn lay(c: &mut Cur, base: usize, out: &mut Parts) -> usize {
                let off = base;
                $( let off = <$t as Elem>::lay(c, round_up(off, <$t as Elem>::malign()), out); )*
                off
            }
            fn malign() -> usize {
                let a = 1usize;
                $( let a = a.max(<$t as Elem>::malign()); )*
                a
            }
        }
    };
}

#[macro_export]
macro_rules! elem_newtype {
    ($name:ty, $init:ident, $inner:ty, $iref:ident, $imut:ident, $c:ident) => {
        impl Elem for $name {
            type Native = $init<AnyInit<$inner>>;
            caps!($c);
            const BIG: bool = <$inner as Elem>::BIG;
            fn native(g: &mut Gen) -> Self::Native {
                $init(AnyInit::<$inner>::gen(g))
            }
            fn walk(&self, s: &mut Sink) {
                self.$iref().walk(s)
            }
            fn walk_mut(self: Pin<&mut Self>, m: &mut MutCtx) {
                self.$imut().walk_mut(m)
            }
            fn lay(c: &mut Cur, base: usize, out: &mut Parts) -> usize {
                <$inner as Elem>::lay(c, base, out)
            }
            fn malign() -> usize {
                <$inner as Elem>::malign()
            }
        }
    };
}

/// One `#[define_varlen]` struct.  `head` lists every sized field in declaration order
/// (`leaf` ordinary, `len`/`ctl` layout-controlling), `tail` the variable-length ones.
#[macro_export]
macro_rules! elem_struct {
    (
        $name:ty, $m:ident, big = $big:expr,
        head { $($hk:ident $h:ident : $ht:ty),* $(,)? }
        tail { $($tk:ident $f:ident : $t:ty $(= $le:expr)?),* $(,)? }
        $(ctl { $($ctl:tt)* })?
    ) => {
        elem_struct! { @main [$($h),*]
            $name, $m, big = $big,
            head { $($hk $h : $ht),* }
            tail { $($tk $f : $t $(= $le)?),* }
            $(ctl { $($ctl)* })?
        }
    };
    (
        @main $hs:tt
        $name:ty, $m:ident, big = $big:expr,
        head { $($hk:ident $h:ident : $ht:ty),* $(,)? }
        tail { $($tk:ident $f:ident : $t:ty $(= $le:expr)?),* $(,)? }
        $(ctl { $($ctl:tt)* })?
    ) => {
        impl Elem for $name {
            type Native = $m::Init<$( elem_struct!(@ity $tk $t) ),*>;
            caps!(n);
            const BIG: bool = $big;
            #[allow(unused_variables)]
            fn native(g: &mut Gen) -> Self::Native {
                $( let $h: $ht = elem_struct!(@hgen $hk g $ht); )*
                $( elem_struct!(@tgen $tk g $f $t $hs $($le)?); )*
                $m::Init { $($h,)* $($f,)* }
            }
            #[allow(unused_variables)]
            fn walk(&self, s: &mut Sink) {
                let a = self as *const _ as usize;
                if !s.header(a, size_of::<Self>(), align_of::<Self>()) {
                    return;
                }
                let r = self.refs();
                $( elem_struct!(@hwalk $hk s r.$h); )*
                s.end_header(a, size_of::<Self>());
                if !s.ok { return; }
                $( elem_struct!(@twalk $tk s r.$f); )*
            }
            #[allow(unused_variables)]
            fn walk_mut(self: Pin<&mut Self>, m: &mut MutCtx) {
                let r = self.muts();
                $( elem_struct!(@hmut $hk m r.$h); )*
                $( elem_struct!(@tmut $tk m r.$f); )*
            }
            fn lay(c: &mut Cur, base: usize, out: &mut Parts) -> usize {
                out.push((base, size_of::<Self>()));
                $( c.skip(elem_struct!(@hw $hk $ht)); )*
                let off = $crate::elem::sadd(base, size_of::<Self>());
                $( let off = elem_struct!(@tlay $tk c off out $t); )*
                off
            }
            fn malign() -> usize {
                let a = align_of::<Self>();
                $( let a = a.max(elem_struct!(@talign $tk $t)); )*
                a
            }
            $( $($ctl)* )?
        }
    };
    (@ity arr $t:ty) => { ArrSrc<$t> };
    (@ity var $t:ty) => { AnyInit<$t> };
    (@hgen leaf $g:ident $t:ty) => { $g.make::<$t>() };
    (@hgen len $g:ident $t:ty) => {{
        let n = $g.head_len(<$t>::MAX as u64);
        $g.words.push(n);
        n as $t
    }};
    // A divisor: zero makes the array length impossible to compute.
    (@hgen lnd $g:ident $t:ty) => {{
        let n = $g.head_div(<$t>::MAX as u64);
        $g.words.push(n);
        n as $t
    }};
    (@hgen lnb $g:ident $t:ty) => {{
        let n = $g.head_len(u64::MAX);
        $g.words.push(n);
        LenB(n.to_le_bytes())
    }};
    (@hgen ctl $g:ident $t:ty) => { <$t>::gen($g) };
    (@tgen arr $g:ident $f:ident $t:ty [$($h:ident),*] $le:expr) => {
        let $f: ArrSrc<$t> = {
            let n: usize = { $( let $h = &$h; )* $le };
            $g.words.push(n as u64);
            if n > $crate::elem::GIANT { giant_src::<$t>($g) } else { gen_src::<$t>($g, n) }
        };
    };
    (@tgen var $g:ident $f:ident $t:ty [$($h:ident),*]) => {
        let $f = AnyInit::<$t>::gen($g);
    };
    (@hwalk leaf $s:ident $e:expr) => { $s.inner_leaf($e) };
    (@hwalk lnd $s:ident $e:expr) => { $s.inner_raw($e, |x| *x as u64) };
    (@hwalk len $s:ident $e:expr) => { $s.inner_raw($e, |x| *x as u64) };
    (@hwalk lnb $s:ident $e:expr) => { $s.inner_raw($e, |x| x.get() as u64) };
    (@hwalk ctl $s:ident $e:expr) => { $e.hwalk($s) };
    (@twalk arr $s:ident $e:expr) => { $s.slice($e) };
    (@twalk var $s:ident $e:expr) => { Elem::walk($e, $s) };
    (@hmut leaf $m:ident $e:expr) => { $m.leaf($e) };
    (@hmut lnd $m:ident $e:expr) => { { let _ = $e; $m.skip(1) } };
    (@hmut len $m:ident $e:expr) => { { let _ = $e; $m.skip(1) } };
    (@hmut lnb $m:ident $e:expr) => { { let _ = $e; $m.skip(1) } };
    (@hmut ctl $m:ident $e:expr) => { { let _ = $e; $m.skip(2) } };
    (@tmut arr $m:ident $e:expr) => { $m.slice($e) };
    (@tmut var $m:ident $e:expr) => { Elem::walk_mut($e, $m) };
    (@hw leaf $t:ty) => { 1 };
    (@hw len $t:ty) => { 1 };
    (@hw lnd $t:ty) => { 1 };
    (@hw lnb $t:ty) => { 1 };
    (@hw ctl $t:ty) => { 2 };
    (@tlay arr $c:ident $off:ident $out:ident $t:ty) => { lay_slice_pub::<$t>($c, $off, $out) };
    (@tlay var $c:ident $off:ident $out:ident $t:ty) => {
        <$t as Elem>::lay($c, round_up($off, <$t as Elem>::malign()), $out)
    };
    (@talign arr $t:ty) => { align_of::<$t>() };
    (@talign var $t:ty) => { <$t as Elem>::malign() };
}

pub fn lay_slice_pub<X: Leaf>(c: &mut Cur, off: usize, out: &mut Parts) -> usize {
    lay_slice::<X>(c, off, out)
}

impl Gen {
    /// Value of a length-controlling field.
    pub fn head_len(&mut self, max: u64) -> u64 {
        if let Some(n) = self.giant(max, 1) {
            return n;
        }
        self.len(max.min(1 << 40) as usize) as u64
    }
    /// A divisor in a length expression.
    pub fn head_div(&mut self, max: u64) -> u64 {
        if self.want_ovf.is_some() && !self.did_ovf {
            self.did_ovf = true;
            return 0;
        }
        1 + self.len(max as usize - 1) as u64
    }
}
