//! Variable-length types written by hand against the public trait: `Hand`, with a layout type of its own that
//! says which value it was computed for, an alignment larger than its fields need and contents beyond the last
//! field; and `HandZ`, whose size is only found by scanning its contents.  They check that the library calls
//! them as the trait promises.
use crate::{caps, elem_newtype, elem_struct, elem_tup};
use crate::elem::*;
use crate::heap::heap;
use crate::leaf::*;
use crate::rt::*;
use std::mem::{align_of, needs_drop, size_of, MaybeUninit};
use std::pin::Pin;
use std::ptr::NonNull;
use varlen::array_init::*;
use varlen::define_varlen;
use varlen::define_varlen_newtype;
use varlen::prelude::*;

fn contract(msg: String) {
    if !bad() {
        viol("contract", &msg);
    }
}
fn stop() {
    if !std::thread::panicking() {
        abort_run()
    }
}

/// Layouts are values too: they are destroyed exactly once.
struct Counted;
impl Counted {
    fn new() -> Counted {
        rt().layouts += 1;
        Counted
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        rt().layouts -= 1;
    }
}

fn new_mark() -> u32 {
    let r = rt();
    r.next_mark = r.next_mark.wrapping_add(1);
    r.next_mark
}

const BUILT: u16 = 0xB017;
const GONE: u16 = 0xDEAD;

// ---------------------------------------------------------------- Hand

pub struct Hand<H: Leaf, X: Leaf, const A: usize> {
    mark: u32,
    state: u16,
    head: H,
    n: usize,
    _p: std::marker::PhantomPinned,
    _x: std::marker::PhantomData<X>,
}
pub struct HandLayout {
    mark: u32,
    n: usize,
    size: usize,
    _c: Counted,
}
impl varlen::Layout for HandLayout {
    fn size(&self) -> usize {
        self.size
    }
}
const TRAIL: usize = 3;
fn trailer(mark: u32) -> [u8; TRAIL] {
    let m = mark.wrapping_mul(0x9E3779B9) ^ 0x5A5A5A;
    [m as u8, (m >> 8) as u8, (m >> 16) as u8]
}

impl<H: Leaf, X: Leaf, const A: usize> Hand<H, X, A> {
    const AL: usize = {
        let a = if align_of::<X>() > A { align_of::<X>() } else { A };
        if align_of::<Self>() > a { align_of::<Self>() } else { a }
    };
    /// (offset of the elements, their end, size)
    fn geom(n: usize) -> Option<(usize, usize, usize)> {
        let off = round_up(size_of::<Self>(), align_of::<X>());
        let end = n.checked_mul(size_of::<X>())?.checked_add(off)?;
        Some((off, end, end.checked_add(TRAIL)?))
    }
    fn layout(mark: u32, n: usize) -> Option<HandLayout> {
        let (_, _, size) = Self::geom(n)?;
        Some(HandLayout { mark, n, size, _c: Counted::new() })
    }
    fn sound(&self, what: &str) -> bool {
        if (self as *const Self as usize) % Self::AL != 0 {
            if !bad() {
                viol("misaligned", &format!("a user-defined value of alignment {} lies at an address not aligned to it when {}", Self::AL, what));
            }
            return false;
        }
        if self.state != BUILT {
            let how = if self.state == GONE { "destroyed already" } else { "not built" };
            contract(format!("a user-defined value is {} although it is {}", what, how));
            return false;
        }
        true
    }
    fn base(&self) -> *mut u8 {
        self as *const Self as *mut u8
    }
    fn raw_xs(&self) -> (*mut X, usize) {
        let (off, _, _) = Self::geom(self.n).unwrap_or((0, 0, 0));
        (unsafe { self.base().add(off) as *mut X }, self.n)
    }
    fn xs(&self) -> &[X] {
        let (p, n) = self.raw_xs();
        unsafe { std::slice::from_raw_parts(p, n) }
    }
}

unsafe impl<H: Leaf, X: Leaf, const A: usize> VarLen for Hand<H, X, A> {
    type Layout = HandLayout;
    const ALIGN: usize = Self::AL;
    const NEEDS_VDROP: bool = needs_drop::<H>() || needs_drop::<X>();
    fn calculate_layout(&self) -> HandLayout {
        let _g = Harness::enter();
        if !bad() && !self.sound("asked for its layout") {
            stop();
        }
        Self::layout(self.mark, self.n).unwrap_or(HandLayout { mark: 0, n: 0, size: size_of::<Self>(), _c: Counted::new() })
    }
    unsafe fn vdrop(self: Pin<&mut Self>, layout: HandLayout) {
        let s = self.get_unchecked_mut();
        {
            let _g = Harness::enter();
            if bad() || !s.sound("destroyed") {
                return;
            }
            if layout.mark != s.mark || layout.n != s.n {
                contract("a user-defined value is destroyed with the layout of another value".to_string());
                return;
            }
            drop(layout);
            if Self::NEEDS_VDROP {
                std::ptr::write_volatile(&mut s.state, GONE);
            }
        }
        struct Tail<X>(*mut [X]);
        impl<X> Drop for Tail<X> {
            fn drop(&mut self) {
                unsafe { std::ptr::drop_in_place(self.0) }
            }
        }
        let (p, n) = s.raw_xs();
        let _t = Tail(std::ptr::slice_from_raw_parts_mut(p, n));
        std::ptr::drop_in_place(&mut s.head);
    }
}

enum Head<H: Leaf> {
    Own(H),
    From(&'static H),
}
pub struct HandInit<H: Leaf, X: Leaf, const A: usize> {
    mark: u32,
    n: usize,
    head: Head<H>,
    src: ArrSrc<X>,
}
unsafe impl<H: Leaf, X: Leaf, const A: usize> Initializer<Hand<H, X, A>> for HandInit<H, X, A> {
    fn calculate_layout_cautious(&self) -> Option<HandLayout> {
        let _g = Harness::enter();
        Hand::<H, X, A>::layout(self.mark, self.n)
    }
    unsafe fn initialize(self, dst: NonNull<Hand<H, X, A>>, layout: HandLayout) {
        let HandInit { mark, n, head, src } = self;
        let p = dst.as_ptr();
        let (off, end, _) = {
            let _g = Harness::enter();
            if layout.mark != mark || layout.n != n {
                contract("a user-defined value is built with the layout of another value".to_string());
                stop();
            }
            if (p as usize) % Hand::<H, X, A>::AL != 0 {
                if !bad() {
                    viol("misaligned", "a user-defined value is built at a misaligned address");
                }
                stop();
            }
            drop(layout);
            if let Head::Own(h) = &head {
                if let Some(i) = h.tid() {
                    consume(&[i]);
                }
            }
            Hand::<H, X, A>::geom(n).unwrap()
        };
        let head = match head {
            Head::Own(h) => h,
            Head::From(h) => h.clone(),
        };
        struct Undo<H>(*mut H);
        impl<H> Drop for Undo<H> {
            fn drop(&mut self) {
                unsafe { std::ptr::drop_in_place(self.0) }
            }
        }
        let b = p as *mut u8;
        let h = std::ptr::addr_of_mut!((*p).head);
        h.write(head);
        let undo = Undo(h);
        src.initialize(std::slice::from_raw_parts_mut(b.add(off) as *mut MaybeUninit<X>, n));
        std::mem::forget(undo);
        std::ptr::addr_of_mut!((*p).mark).write(mark);
        std::ptr::addr_of_mut!((*p).n).write(n);
        std::ptr::addr_of_mut!((*p).state).write(BUILT);
        std::ptr::copy_nonoverlapping(trailer(mark).as_ptr(), b.add(end), TRAIL);
    }
}
impl<'a, H: Leaf, X: Leaf, const A: usize> VClone<'a> for Hand<H, X, A> {
    type Cloner = HandInit<H, X, A>;
    fn vclone(&'a self) -> Self::Cloner {
        let _g = Harness::enter();
        if !bad() && !self.sound("cloned") {
            stop();
        }
        // the simulator keeps originals alive until their clones are built
        let s: &'static Self = unsafe { &*(self as *const Self) };
        let mark = new_mark();
        // some cloners own part of the clone already
        let head = if mark & 1 == 0 {
            drop(_g);
            Head::Own(s.head.clone())
        } else {
            Head::From(&s.head)
        };
        HandInit { mark, n: s.n, head, src: ArrSrc { src: Src::Clone(s.xs()), toks: Vec::new() } }
    }
}
unsafe impl<'a, H: Leaf + Copy, X: Leaf + Copy, const A: usize> VCopy<'a> for Hand<H, X, A> {}

impl<H: Leaf, X: Leaf, const A: usize> Hand<H, X, A> {
    pub fn hnative(g: &mut Gen) -> HandInit<H, X, A> {
        let head = Head::Own(g.make::<H>());
        let (n, src) = match g.giant(u64::MAX, size_of::<X>()) {
            Some(n) => {
                g.words.push(n);
                (n as usize, giant_src(g))
            }
            None => {
                let n = g.len(1 << 40);
                g.words.push(n as u64);
                (n, gen_src(g, n))
            }
        };
        HandInit { mark: new_mark(), n, head, src }
    }
    pub fn hwalk(&self, s: &mut Sink) {
        let a = self as *const Self as usize;
        if !s.header(a, size_of::<Self>(), Self::AL) {
            return;
        }
        if self.state != BUILT {
            s.fail("use-dead", "a user-defined value is read that is destroyed or was never built");
            return;
        }
        s.inner_leaf(&self.head);
        s.end_header(a, size_of::<Self>());
        let Some((_, end, _)) = Self::geom(self.n) else {
            s.fail("layout", "a user-defined value of impossible size");
            return;
        };
        s.slice(self.xs());
        if s.range(a + end, TRAIL, 1) {
            s.parts.push((a + end, TRAIL));
            let t: [u8; TRAIL] = unsafe { std::ptr::read((a + end) as *const _) };
            if t != trailer(self.mark) {
                s.fail("content", "the last bytes of a user-defined value are not its own");
            }
        }
    }
    pub fn hmut(self: Pin<&mut Self>, m: &mut MutCtx) {
        let s = unsafe { self.get_unchecked_mut() };
        m.leaf(&mut s.head);
        let (p, n) = s.raw_xs();
        m.slice(unsafe { std::slice::from_raw_parts_mut(p, n) });
    }
    pub fn hlay(c: &mut Cur, base: usize, out: &mut Parts) -> usize {
        c.next();
        out.push((base, size_of::<Self>()));
        let end = lay_slice_pub::<X>(c, sadd(base, size_of::<Self>()), out);
        out.push((end, TRAIL));
        sadd(end, TRAIL)
    }
    pub fn halign() -> usize {
        Self::AL
    }
}

#[macro_export]
macro_rules! elem_hand {
    ($name:ty, $h:ty, $x:ty, $a:expr, $c:ident) => {
        impl Elem for $name {
            type Native = HandInit<$h, $x, $a>;
            caps!($c);
            const BIG: bool = size_of::<$x>() > 0;
            fn native(g: &mut Gen) -> Self::Native {
                Self::hnative(g)
            }
            fn walk(&self, s: &mut Sink) {
                self.hwalk(s)
            }
            fn walk_mut(self: Pin<&mut Self>, m: &mut MutCtx) {
                self.hmut(m)
            }
            fn lay(c: &mut Cur, base: usize, out: &mut Parts) -> usize {
                Self::hlay(c, base, out)
            }
            fn malign() -> usize {
                Self::halign()
            }
        }
    };
}

pub type HandA = Hand<T3, T8, 32>;
pub type HandB = Hand<u16, [u8; 3], 64>;
pub type HandC = Hand<u8, T64, 1>;
pub type HandD = Hand<T8, (), 8>;
pub type HandE = Hand<NC, TZ, 16>;
elem_hand!(HandA, T3, T8, 32, c);
elem_hand!(HandB, u16, [u8; 3], 64, cc);
elem_hand!(HandC, u8, T64, 1, c);
elem_hand!(HandD, T8, (), 8, c);
elem_hand!(HandE, NC, TZ, 16, c);

// ---------------------------------------------------------------- HandZ

/// Non-zero bytes up to a zero: no length is stored anywhere.
#[repr(transparent)]
pub struct HandZ {
    first: u8,
}
pub struct HandZLayout(usize);
impl varlen::Layout for HandZLayout {
    fn size(&self) -> usize {
        self.0
    }
}
impl HandZ {
    fn scan(&self) -> usize {
        let a = self as *const HandZ as usize;
        if a % 4 != 0 {
            if !bad() {
                viol("misaligned", "a user-defined value of alignment 4 lies at an address not aligned to it");
            }
            stop();
            return 0;
        }
        let end = match heap().containing(a, 1) {
            Some(i) => heap().blocks[i].start + heap().blocks[i].size,
            None => a + (1 << 20),
        };
        let mut n = 0;
        unsafe {
            while a + n < end {
                if *((a + n) as *const u8) == 0 {
                    return n;
                }
                n += 1;
            }
        }
        contract("a user-defined value is asked for its size although its contents are gone".to_string());
        stop();
        0
    }
    fn bytes(&self) -> &[Nz] {
        let n = self.scan();
        unsafe { std::slice::from_raw_parts(self as *const HandZ as *const Nz, n) }
    }
}
unsafe impl VarLen for HandZ {
    type Layout = HandZLayout;
    const ALIGN: usize = 4;
    const NEEDS_VDROP: bool = false;
    fn calculate_layout(&self) -> HandZLayout {
        let _g = Harness::enter();
        HandZLayout(if bad() { 1 } else { self.scan() + 1 })
    }
    unsafe fn vdrop(self: Pin<&mut Self>, layout: HandZLayout) {
        let _g = Harness::enter();
        if !bad() && layout.0 != self.scan() + 1 {
            contract("a user-defined value is destroyed with the layout of another value".to_string());
        }
    }
}
pub struct HandZInit(&'static [Nz]);
unsafe impl Initializer<HandZ> for HandZInit {
    fn calculate_layout_cautious(&self) -> Option<HandZLayout> {
        self.0.len().checked_add(1).map(HandZLayout)
    }
    unsafe fn initialize(self, dst: NonNull<HandZ>, layout: HandZLayout) {
        let _g = Harness::enter();
        if layout.0 != self.0.len() + 1 {
            contract("a user-defined value is built with the layout of another value".to_string());
            stop();
        }
        let p = dst.as_ptr() as *mut u8;
        std::ptr::copy_nonoverlapping(self.0.as_ptr() as *const u8, p, self.0.len());
        *p.add(self.0.len()) = 0;
    }
}
impl<'a> VClone<'a> for HandZ {
    type Cloner = HandZInit;
    fn vclone(&'a self) -> HandZInit {
        let _g = Harness::enter();
        let s: &'static HandZ = unsafe { &*(self as *const HandZ) };
        HandZInit(s.bytes())
    }
}
unsafe impl<'a> VCopy<'a> for HandZ {}
impl Elem for HandZ {
    type Native = HandZInit;
    caps!(cc);
    const BIG: bool = false;
    fn native(g: &mut Gen) -> HandZInit {
        let n = g.len(1 << 20);
        g.words.push(n as u64);
        let v: Vec<Nz> = (0..n).map(|_| g.make::<Nz>()).collect();
        let r: &'static Vec<Nz> = g.hold(v);
        HandZInit(&r[..])
    }
    fn walk(&self, s: &mut Sink) {
        let a = self as *const HandZ as usize;
        if !s.range(a, 1, 4) {
            return;
        }
        let b = self.bytes();
        s.slice(b);
        if s.range(a + b.len(), 1, 1) {
            s.parts.push((a + b.len(), 1));
        }
    }
    fn walk_mut(self: Pin<&mut Self>, m: &mut MutCtx) {
        let n = self.scan();
        m.slice(unsafe { std::slice::from_raw_parts_mut(self.get_unchecked_mut() as *mut HandZ as *mut Nz, n) })
    }
    fn lay(c: &mut Cur, base: usize, out: &mut Parts) -> usize {
        let end = lay_slice_pub::<Nz>(c, base, out);
        out.push((end, 1));
        sadd(end, 1)
    }
    fn malign() -> usize {
        4
    }
}

// ---------------------------------------------------------------- in composites

#[define_varlen]
pub struct HandIn {
    #[controls_layout]
    pub n: u8,
    pub t: T3,
    #[varlen]
    pub a: HandA,
    #[varlen_array]
    pub x: [T2; *n as usize],
    #[varlen]
    pub z: HandZ,
    #[varlen]
    pub b: HandB,
}
elem_struct! { HandIn, hand_in, big = true,
    head { len n: u8, leaf t: T3 }
    tail { var a: HandA, arr x: T2 = *n as usize, var z: HandZ, var b: HandB }
    ctl {
        const CTL: bool = true;
        fn ctl(self: Pin<&mut Self>, g: &mut Gen, arm: &mut dyn FnMut()) -> Option<CtlRes> {
            let n0 = self.n;
            let n = match g.rng.below(3) { 0 => n0, 1 => n0 ^ 1, _ => g.len(8) as u8 };
            arm();
            let got_ok = calm(|| self.try_set_layout_controllers(hand_in::LayoutControllers { n }).is_ok());
            Some(CtlRes { expect_ok: n == n0, panics: false, got_ok, new: vec![(0, n as u64)] })
        }
    }
}

define_varlen_newtype! {
    #[repr(transparent)]
    pub struct HandW(pub HandA);

    with init: pub struct HandWInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
elem_newtype!(HandW, HandWInit, HandA, inner, inner_mut, n);
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct HandWW(pub HandW);

    with init: pub struct HandWWInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
elem_newtype!(HandWW, HandWWInit, HandW, inner, inner_mut, n);
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct HandWZ(pub HandZ);

    with init: pub struct HandWZInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
elem_newtype!(HandWZ, HandWZInit, HandZ, inner, inner_mut, n);

pub type HandT2 = Tup2<HandA, HandA>;
pub type HandT3 = Tup3<HandZ, HandC, HandZ>;
pub type HandT4 = Tup2<HandB, HandZ>;
pub type HandT5 = Tup4<HandD, HandE, HandA, HandZ>;
pub type HandT6 = Tup2<HandIn, HandT3>;
pub type HandT7 = Tup3<HandWW, Str<u8>, HandWZ>;
elem_tup!(HandT2, Tup2, tup2, c, a: HandA, b: HandA);
elem_tup!(HandT3, Tup3, tup3, c, a: HandZ, b: HandC, d: HandZ);
elem_tup!(HandT4, Tup2, tup2, cc, a: HandB, b: HandZ);
elem_tup!(HandT5, Tup4, tup4, c, a: HandD, b: HandE, d: HandA, e: HandZ);
elem_tup!(HandT6, Tup2, tup2, n, a: HandIn, b: HandT3);
elem_tup!(HandT7, Tup3, tup3, n, a: HandWW, b: Str<u8>, d: HandWZ);
