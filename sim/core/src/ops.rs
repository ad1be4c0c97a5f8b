//! Type-erased access to the public API: one `TypeOps` object per element type.  Handles are raw
//! pointers to boxed library values; the boxes themselves are harness memory.

use crate::elem::*;
use crate::leaf::*;
use crate::rt::*;
use bumpalo::Bump;
use std::cell::Cell;
use std::marker::PhantomData;
use std::mem::forget;
use std::pin::Pin;
use std::ptr::NonNull;
use std::rc::Rc;
use varlen::array_init::new_array;
use varlen::owned::Owned;
use varlen::prelude::*;
use varlen::seq::{IndexableSeq, Iter, OwnedElems};
use varlen::Layout as _;

pub type H = *mut u8;

pub struct Info {
    pub align: usize,
    pub malign: usize,
    pub clone: bool,
    pub copy: bool,
    pub big: bool,
    pub ctl: bool,
}

#[derive(Default)]
pub struct ItemStat {
    pub pulled: Cell<usize>,
    /// the iterator itself panicked
    pub next_failed: Cell<bool>,
}

pub enum AnySeq<T: VarLen> {
    P(Seq<T>),
    I(IndexableSeq<T>),
}

macro_rules! both {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            AnySeq::P($x) => $e,
            AnySeq::I($x) => $e,
        }
    };
}

pub struct ItemIter<T: Elem> {
    items: std::vec::IntoIter<AnyInit<T>>,
    st: Rc<ItemStat>,
    hint: u32,
    g: Guest,
}
impl<T: Elem> Iterator for ItemIter<T> {
    type Item = AnyInit<T>;
    fn next(&mut self) -> Option<AnyInit<T>> {
        let _g = Harness::enter();
        self.g.here();
        rt().stamp += 1;
        self.st.next_failed.set(true);
        cb_point();
        self.st.next_failed.set(false);
        let r = self.items.next();
        if r.is_some() {
            self.st.pulled.set(self.st.pulled.get() + 1);
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hint(self.hint as usize, self.items.len())
    }
}

#[derive(Default)]
pub struct SeqView {
    pub len: usize,
    pub cap: usize,
    pub off: usize,
    /// addresses yielded by `iter`
    pub addrs: Vec<usize>,
    /// offsets reported valid, 0..cap+9
    pub valid: Vec<usize>,
    pub indexed: bool,
}

unsafe fn un<X>(h: H) -> X {
    *Box::from_raw(h as *mut X)
}
fn bx<X>(x: X) -> H {
    Box::into_raw(Box::new(x)) as H
}
#[allow(clippy::mut_from_ref)]
unsafe fn rf<'a, X>(h: H) -> &'a mut X {
    &mut *(h as *mut X)
}

pub trait TypeOps {
    fn name(&self) -> &'static str;
    fn info(&self) -> Info;
    fn lay(&self, words: &[u64]) -> (usize, Parts);

    fn init_gen(&self, g: &mut Gen) -> H;
    fn init_from_box(&self, b: H) -> H;
    fn init_from_owned(&self, o: H) -> H;
    fn init_clone(&self, addr: usize) -> H;
    fn init_copy(&self, addr: usize) -> H;
    fn init_size(&self, i: H) -> R<Option<usize>>;
    fn init_drop(&self, i: H) -> R<()>;
    fn limit(&self, g: &mut Gen) -> Option<(usize, bool, Option<H>)>;

    fn read(&self, addr: usize, s: &mut Sink) -> R<()>;
    fn reported(&self, addr: usize) -> R<usize>;
    fn mut_at(&self, addr: usize, m: &mut MutCtx) -> R<()>;
    fn ctl(&self, addr: usize, g: &mut Gen, arm: &mut dyn FnMut()) -> Option<CtlRes>;

    fn box_new(&self, i: H) -> R<H>;
    fn box_addr(&self, b: H) -> usize;
    fn box_drop(&self, b: H) -> R<()>;
    fn box_clone(&self, b: H) -> R<H>;
    fn box_clone_from(&self, d: H, b: H) -> R<()>;
    fn box_raw(&self, b: H) -> H;
    fn box_mut(&self, b: H, m: &mut MutCtx) -> R<()>;

    fn own_new_in(&self, i: H, bump: &'static Bump) -> R<H>;
    fn own_addr(&self, o: H) -> usize;
    fn own_drop(&self, o: H) -> R<()>;
    fn own_forget(&self, o: H);
    fn own_leak(&self, o: H) -> R<usize>;
    fn own_raw(&self, o: H) -> H;
    fn own_mut(&self, o: H, m: &mut MutCtx) -> R<()>;

    fn seq_new(&self, kind: u32) -> R<H>;
    fn seq_drop(&self, s: H) -> R<()>;
    fn seq_push(&self, s: H, i: H) -> R<()>;
    fn seq_extend(&self, s: H, items: Vec<H>, st: Rc<ItemStat>, hint: u32) -> R<()>;
    fn seq_collect(&self, idx: bool, items: Vec<H>, st: Rc<ItemStat>, hint: u32) -> R<H>;
    fn seq_macro(&self, idx: bool, items: Vec<H>) -> R<H>;
    fn seq_cap(&self, s: H) -> usize;
    fn seq_view(&self, s: H, expect: &[(usize, usize)], v: &mut SeqView) -> R<()>;
    fn seq_iter_mut(&self, s: H, limit: Option<usize>, target: usize, m: &mut MutCtx) -> R<Vec<usize>>;
    fn seq_mut_off(&self, s: H, off: usize, checked: bool, m: &mut MutCtx) -> R<usize>;
    fn seq_from_offset(&self, s: H, off: usize) -> R<usize>;
    fn seq_from_offset_mut(&self, s: H, off: usize) -> R<usize>;
    fn seq_at_unchecked(&self, s: H, off: usize) -> R<usize>;
    fn seq_valid(&self, s: H, off: usize) -> R<bool>;
    fn seq_offset_of(&self, s: H, addr: usize) -> R<usize>;

    fn take(&self, s: H) -> R<H>;
    fn drain_next(&self, d: H, nth: usize) -> R<Option<H>>;
    fn drain_len(&self, d: H) -> (usize, (usize, Option<usize>));
    fn drain_last(&self, d: H) -> R<Option<H>>;
    fn drain_count(&self, d: H) -> R<usize>;
    /// consume the drain through a provided `Iterator` method
    fn drain_adapt(&self, d: H, how: u32, n: usize, seen: &Pulled) -> R<()>;
    fn drain_into(&self, d: H, s: H, how: u32, st: &ItemStat) -> R<()>;
    fn drain_collect(&self, d: H, idx: bool, how: u32, st: &ItemStat) -> R<H>;
    fn drain_drop(&self, d: H) -> R<()>;
    fn drain_forget(&self, d: H);

    fn cur_new(&self, s: H) -> H;
    fn cur_next(&self, c: H, nth: usize) -> R<Option<usize>>;
    fn cur_len(&self, c: H) -> (usize, (usize, Option<usize>));
    fn cur_limit(&self, c: H, n: usize) -> H;
    fn cur_count(&self, c: H) -> R<usize>;
    /// consume the iterator through a provided `Iterator` method: addresses in the order seen
    fn cur_adapt(&self, c: H, how: u32, n: usize) -> R<Vec<usize>>;
    fn seq_mut_adapt(&self, s: H, how: u32, n: usize) -> R<Vec<usize>>;
    fn cur_free(&self, c: H);
}

pub struct Ops<T>(pub PhantomData<fn() -> T>, pub &'static str);

type Dr<T> = OwnedElems<'static, T>;
type Ow<T> = Owned<'static, T>;
type It<T> = Iter<'static, T>;

impl<T: Elem> TypeOps for Ops<T> {
    fn name(&self) -> &'static str {
        self.1
    }
    fn info(&self) -> Info {
        Info {
            align: T::ALIGN,
            malign: T::malign(),
            clone: T::CLONE,
            copy: T::COPY,
            big: T::BIG,
            ctl: T::CTL,
        }
    }
    fn lay(&self, words: &[u64]) -> (usize, Parts) {
        lay_of::<T>(words)
    }

    fn init_gen(&self, g: &mut Gen) -> H {
        bx(AnyInit::<T>::gen(g))
    }
    fn init_from_box(&self, b: H) -> H {
        bx(AnyInit::<T>::from_box(unsafe { un(b) }))
    }
    fn init_from_owned(&self, o: H) -> H {
        bx(AnyInit::<T>::from_owned(unsafe { un(o) }))
    }
    fn init_clone(&self, addr: usize) -> H {
        bx(AnyInit::<T>::from_clone(unsafe { &*(addr as *const T) }))
    }
    fn init_copy(&self, addr: usize) -> H {
        bx(AnyInit::<T>::from_copy(unsafe { &*(addr as *const T) }))
    }
    fn init_size(&self, i: H) -> R<Option<usize>> {
        calm(|| unsafe { rf::<AnyInit<T>>(i).size() })
    }
    fn init_drop(&self, i: H) -> R<()> {
        let i: AnyInit<T> = unsafe { un(i) };
        lib(move || drop(i))
    }
    fn limit(&self, g: &mut Gen) -> Option<(usize, bool, Option<H>)> {
        let (n, must, i) = T::limit(g)?;
        Some((n, must, i.map(|i| bx(AnyInit::<T> { kind: Kind::Native(i), toks: Vec::new() }))))
    }

    fn read(&self, addr: usize, s: &mut Sink) -> R<()> {
        calm(|| unsafe { (*(addr as *const T)).walk(s) })
    }
    fn reported(&self, addr: usize) -> R<usize> {
        calm(|| unsafe { (*(addr as *const T)).calculate_layout().size() })
    }
    fn mut_at(&self, addr: usize, m: &mut MutCtx) -> R<()> {
        calm(|| unsafe { Pin::new_unchecked(&mut *(addr as *mut T)).walk_mut(m) })
    }
    fn ctl(&self, addr: usize, g: &mut Gen, arm: &mut dyn FnMut()) -> Option<CtlRes> {
        unsafe { Pin::new_unchecked(&mut *(addr as *mut T)) }.ctl(g, arm)
    }

    fn box_new(&self, i: H) -> R<H> {
        let i: AnyInit<T> = unsafe { un(i) };
        lib(move || VBox::<T>::new(i)).map(bx)
    }
    fn box_addr(&self, b: H) -> usize {
        let b: &VBox<T> = unsafe { rf(b) };
        &**b as *const T as usize
    }
    fn box_drop(&self, b: H) -> R<()> {
        let b: VBox<T> = unsafe { un(b) };
        lib(move || drop(b))
    }
    fn box_clone(&self, b: H) -> R<H> {
        let b: &VBox<T> = unsafe { rf(b) };
        lib(|| T::box_clone(b)).map(bx)
    }
    fn box_clone_from(&self, d: H, b: H) -> R<()> {
        let (d, b): (&mut VBox<T>, &VBox<T>) = unsafe { (rf(d), rf(b)) };
        lib(|| T::box_clone_from(d, b))
    }
    fn box_raw(&self, b: H) -> H {
        let b: VBox<T> = unsafe { un(b) };
        bx(unsafe { VBox::<T>::from_raw(b.into_raw()) })
    }
    fn box_mut(&self, b: H, m: &mut MutCtx) -> R<()> {
        let b: &mut VBox<T> = unsafe { rf(b) };
        calm(|| b.as_mut().walk_mut(m))
    }

    fn own_new_in(&self, i: H, bump: &'static Bump) -> R<H> {
        let i: AnyInit<T> = unsafe { un(i) };
        lib(move || Owned::<T>::new_in(i, bump)).map(bx)
    }
    fn own_addr(&self, o: H) -> usize {
        let o: &Ow<T> = unsafe { rf(o) };
        &**o as *const T as usize
    }
    fn own_drop(&self, o: H) -> R<()> {
        let o: Ow<T> = unsafe { un(o) };
        lib(move || drop(o))
    }
    fn own_forget(&self, o: H) {
        forget::<Ow<T>>(unsafe { un(o) })
    }
    fn own_leak(&self, o: H) -> R<usize> {
        let o: Ow<T> = unsafe { un(o) };
        lib(move || &*o.leak() as *const T as usize)
    }
    fn own_raw(&self, o: H) -> H {
        let o: Ow<T> = unsafe { un(o) };
        bx(unsafe { Ow::<T>::from_raw(o.into_raw()) })
    }
    fn own_mut(&self, o: H, m: &mut MutCtx) -> R<()> {
        let o: &mut Ow<T> = unsafe { rf(o) };
        calm(|| o.as_mut().walk_mut(m))
    }

    fn seq_new(&self, kind: u32) -> R<H> {
        lib(|| match kind & 3 {
            0 => AnySeq::P(Seq::<T>::new()),
            1 => AnySeq::P(Seq::<T>::new_minimal()),
            2 => AnySeq::I(Seq::<T, varlen::seq::CheckedIndexing>::new_indexable()),
            _ => AnySeq::I(IndexableSeq::<T>::new()),
        })
        .map(bx)
    }
    fn seq_drop(&self, s: H) -> R<()> {
        let s: AnySeq<T> = unsafe { un(s) };
        lib(move || drop(s))
    }
    fn seq_push(&self, s: H, i: H) -> R<()> {
        let i: AnyInit<T> = unsafe { un(i) };
        let s: &mut AnySeq<T> = unsafe { rf(s) };
        lib(move || both!(s, s => s.push(i)))
    }
    fn seq_extend(&self, s: H, items: Vec<H>, st: Rc<ItemStat>, hint: u32) -> R<()> {
        let it = item_iter::<T>(items, st, hint);
        let s: &mut AnySeq<T> = unsafe { rf(s) };
        lib(move || both!(s, s => s.extend(it)))
    }
    fn seq_collect(&self, idx: bool, items: Vec<H>, st: Rc<ItemStat>, hint: u32) -> R<H> {
        let it = item_iter::<T>(items, st, hint);
        lib(move || {
            if idx {
                AnySeq::I(it.collect::<IndexableSeq<T>>())
            } else {
                AnySeq::P(it.collect::<Seq<T>>())
            }
        })
        .map(bx)
    }
    fn seq_macro(&self, idx: bool, items: Vec<H>) -> R<H> {
        let mut v: Vec<AnyInit<T>> = items.into_iter().map(|i| unsafe { un(i) }).collect();
        let n = v.len();
        let (d, c, b) = (v.pop(), v.pop(), v.pop());
        let mut k = [b, c, d].into_iter().flatten();
        lib(move || {
            macro_rules! go {
                ($t:ty) => {{
                    let s: $t = match n {
                        0 => varlen::seq![] as $t,
                        1 => varlen::seq![k.next().unwrap()],
                        2 => varlen::seq![k.next().unwrap(), k.next().unwrap()],
                        _ => varlen::seq![k.next().unwrap(), k.next().unwrap(), k.next().unwrap(),],
                    };
                    s
                }};
            }
            // `seq!` of nothing cannot infer its element type from `push`
            if idx {
                AnySeq::I(if n == 0 { Seq::new() } else { go!(IndexableSeq<T>) })
            } else {
                AnySeq::P(if n == 0 { Seq::new() } else { go!(Seq<T>) })
            }
        })
        .map(bx)
    }
    fn seq_cap(&self, s: H) -> usize {
        let s: &AnySeq<T> = unsafe { rf(s) };
        both!(s, s => s.capacity_in_offsets())
    }
    fn seq_view(&self, s: H, expect: &[(usize, usize)], v: &mut SeqView) -> R<()> {
        let s: &AnySeq<T> = unsafe { rf(s) };
        calm(|| {
            both!(s, s => {
                v.len = s.len();
                v.cap = s.capacity_in_offsets();
                v.off = s.offset();
                let mut it = s.iter();
                for (k, &(rel, size)) in expect.iter().enumerate() {
                    if it.len() != v.len - k || it.size_hint() != (v.len - k, Some(v.len - k)) {
                        viol("iter", &format!("an iterator over {} elements announces {} after yielding {}", v.len, it.len(), k));
                        return;
                    }
                    let Some(t) = it.next() else {
                        viol("iter", &format!("iteration ended after {} of {} elements", k, expect.len()));
                        return;
                    };
                    let a = t as *const T as usize;
                    v.addrs.push(a);
                    let base = v.addrs[0];
                    if a.wrapping_sub(base) != rel {
                        viol("iter", &format!("element {} lies {} bytes after the first, expected {}", k, a.wrapping_sub(base) as isize, rel));
                        return;
                    }
                    // Do not let the iterator step over an element whose header no longer says what it must.
                    let n = t.calculate_layout().size();
                    if n != size {
                        viol("content", &format!("element {} reports a size of {} bytes, expected {}", k, n, size));
                        return;
                    }
                }
                if v.len == expect.len() && (it.next().is_some() || it.len() != 0) {
                    viol("iter", "iteration yields more elements than the sequence has");
                }
            });
            if let AnySeq::I(s) = s {
                v.indexed = true;
                for o in 0..v.cap + 9 {
                    if s.is_offset_valid(o) {
                        v.valid.push(o);
                    }
                }
            }
        })
    }
    fn seq_iter_mut(&self, s: H, limit: Option<usize>, target: usize, m: &mut MutCtx) -> R<Vec<usize>> {
        let s0 = s;
        let s: &mut AnySeq<T> = unsafe { rf(s) };
        calm(|| {
            let mut it = both!(s, s => s.iter_mut());
            if let Some(n) = limit {
                it = it.limited_to(n);
            }
            let total = it.len();
            if target & 3 == 1 {
                let mut again = both!(unsafe { rf::<AnySeq<T>>(s0) }, s => s.iter_mut());
                if let Some(n) = limit {
                    again = again.limited_to(n);
                }
                let skip = (total / 2).min(target >> 2);
                if skip > 0 {
                    again.nth(skip - 1);
                }
                if again.count() != total - skip {
                    viol("iter", "a mutable iterator counts a wrong number of elements");
                    return Vec::new();
                }
                it = both!(unsafe { rf::<AnySeq<T>>(s0) }, s => s.iter_mut());
                if let Some(n) = limit {
                    it = it.limited_to(n);
                }
            }
            let mut pins: Vec<Pin<&mut T>> = Vec::new();
            loop {
                let left = it.len();
                if it.size_hint() != (left, Some(left)) || left + pins.len() != total {
                    viol("iter", "a mutable iterator announces a wrong number of elements");
                    return Vec::new();
                }
                match it.next() {
                    Some(p) => pins.push(p),
                    None => break,
                }
            }
            if pins.len() != total {
                viol("iter", "a mutable iterator yields a wrong number of elements");
                return Vec::new();
            }
            let addrs = pins.iter().map(|p| &**p as *const T as usize).collect();
            let mut prior = Vec::new();
            let want = m.target;
            for (i, p) in pins.into_iter().enumerate() {
                m.parts.clear();
                m.cur = 0;
                m.target = if i == target { want } else { usize::MAX };
                p.walk_mut(m);
                m.check(&mut prior);
            }
            m.parts.clear();
            m.target = want;
            addrs
        })
    }
    fn seq_mut_off(&self, s: H, off: usize, checked: bool, m: &mut MutCtx) -> R<usize> {
        let s: &mut AnySeq<T> = unsafe { rf(s) };
        calm(|| {
            let mut p = match s {
                AnySeq::I(s) if checked => s.from_offset_mut(off),
                AnySeq::I(s) => unsafe { s.from_offset_unchecked_mut(off) },
                AnySeq::P(s) => unsafe { s.from_offset_unchecked_mut(off) },
            };
            let a = &*p.as_mut() as *const T as usize;
            p.walk_mut(m);
            a
        })
    }
    fn seq_from_offset(&self, s: H, off: usize) -> R<usize> {
        let AnySeq::I(s) = (unsafe { rf::<AnySeq<T>>(s) }) else { unreachable!() };
        calm(|| s.from_offset(off) as *const T as usize)
    }
    fn seq_from_offset_mut(&self, s: H, off: usize) -> R<usize> {
        let AnySeq::I(s) = (unsafe { rf::<AnySeq<T>>(s) }) else { unreachable!() };
        calm(|| &*s.from_offset_mut(off) as *const T as usize)
    }
    fn seq_at_unchecked(&self, s: H, off: usize) -> R<usize> {
        let s: &AnySeq<T> = unsafe { rf(s) };
        calm(|| both!(s, s => unsafe { s.from_offset_unchecked(off) } as *const T as usize))
    }
    fn seq_valid(&self, s: H, off: usize) -> R<bool> {
        let AnySeq::I(s) = (unsafe { rf::<AnySeq<T>>(s) }) else { unreachable!() };
        calm(|| s.is_offset_valid(off))
    }
    fn seq_offset_of(&self, s: H, addr: usize) -> R<usize> {
        let s: &AnySeq<T> = unsafe { rf(s) };
        calm(|| both!(s, s => s.offset_of(unsafe { &*(addr as *const T) })))
    }

    fn take(&self, s: H) -> R<H> {
        let s: &'static mut AnySeq<T> = unsafe { rf(s) };
        let d: R<Dr<T>> = lib(move || both!(s, s => s.take_elems()));
        d.map(bx)
    }
    fn drain_next(&self, d: H, nth: usize) -> R<Option<H>> {
        let d: &mut Dr<T> = unsafe { rf(d) };
        lib(|| if nth == 0 { d.next() } else { d.nth(nth) }).map(|o| o.map(bx))
    }
    fn drain_len(&self, d: H) -> (usize, (usize, Option<usize>)) {
        let d: &mut Dr<T> = unsafe { rf(d) };
        (d.len(), d.size_hint())
    }
    fn drain_last(&self, d: H) -> R<Option<H>> {
        let d: Dr<T> = unsafe { un(d) };
        lib(move || d.last()).map(|o| o.map(bx))
    }
    fn drain_count(&self, d: H) -> R<usize> {
        let d: Dr<T> = unsafe { un(d) };
        lib(move || d.count())
    }
    fn drain_adapt(&self, d: H, how: u32, n: usize, seen: &Pulled) -> R<()> {
        let d: Dr<T> = unsafe { un(d) };
        let g = Guest::new();
        lib(move || {
            adapt(d, how, n, move |o: Ow<T>| {
                let _g = Harness::enter();
                g.here();
                cb_point();
                seen.borrow_mut().push(bx(o));
            })
        })
    }
    fn drain_into(&self, d: H, s: H, how: u32, st: &ItemStat) -> R<()> {
        let d: Dr<T> = unsafe { un(d) };
        let s: &mut AnySeq<T> = unsafe { rf(s) };
        let g = Guest::new();
        lib(move || {
            let pass = move |o: Ow<T>, st: &ItemStat| {
                g.here();
                pass(o, st)
            };
            match how % 3 {
                0 => both!(s, s => s.extend(d)),
                1 => both!(s, s => s.extend(d.map(move |o| pass(o, st)))),
                _ => both!(s, s => d.for_each(move |o| s.push(pass(o, st)))),
            }
        })
    }
    fn drain_collect(&self, d: H, idx: bool, how: u32, st: &ItemStat) -> R<H> {
        let d: Dr<T> = unsafe { un(d) };
        let g = Guest::new();
        lib(move || {
            let pass = move |o: Ow<T>| {
                g.here();
                pass(o, st)
            };
            match (idx, how % 3 == 0) {
                (true, true) => AnySeq::I(d.collect::<IndexableSeq<T>>()),
                (true, false) => AnySeq::I(d.map(pass).collect::<IndexableSeq<T>>()),
                (false, true) => AnySeq::P(d.collect::<Seq<T>>()),
                (false, false) => AnySeq::P(d.map(pass).collect::<Seq<T>>()),
            }
        })
        .map(bx)
    }
    fn drain_drop(&self, d: H) -> R<()> {
        let d: Dr<T> = unsafe { un(d) };
        lib(move || drop(d))
    }
    fn drain_forget(&self, d: H) {
        forget::<Dr<T>>(unsafe { un(d) })
    }

    fn cur_new(&self, s: H) -> H {
        let s: &'static AnySeq<T> = unsafe { rf(s) };
        let it: It<T> = both!(s, s => s.iter());
        bx(it)
    }
    fn cur_next(&self, c: H, nth: usize) -> R<Option<usize>> {
        let c: &mut It<T> = unsafe { rf(c) };
        calm(|| if nth == 0 { c.next() } else { c.nth(nth) }.map(|t| t as *const T as usize))
    }
    fn cur_len(&self, c: H) -> (usize, (usize, Option<usize>)) {
        let c: &mut It<T> = unsafe { rf(c) };
        (c.len(), c.size_hint())
    }
    fn cur_limit(&self, c: H, n: usize) -> H {
        let c: &mut It<T> = unsafe { rf(c) };
        bx(c.limited_to(n))
    }
    fn cur_count(&self, c: H) -> R<usize> {
        let c: It<T> = unsafe { un(c) };
        calm(move || c.count())
    }
    fn cur_adapt(&self, c: H, how: u32, n: usize) -> R<Vec<usize>> {
        let c: It<T> = unsafe { un(c) };
        calm(move || {
            let mut v = Vec::new();
            adapt(c, how, n, |t| v.push(t as *const T as usize));
            v
        })
    }
    fn seq_mut_adapt(&self, s: H, how: u32, n: usize) -> R<Vec<usize>> {
        let s: &mut AnySeq<T> = unsafe { rf(s) };
        calm(|| {
            let mut v = Vec::new();
            let it = both!(s, s => s.iter_mut());
            adapt(it, how, n, |t: Pin<&mut T>| v.push(&*t as *const T as usize));
            v
        })
    }
    fn cur_free(&self, c: H) {
        drop::<It<T>>(unsafe { un(c) })
    }
}

pub type Pulled = std::cell::RefCell<Vec<H>>;

/// User code between a drain and what takes its elements.
fn pass<X>(x: X, st: &ItemStat) -> X {
    let _g = Harness::enter();
    st.next_failed.set(true);
    cb_point();
    st.next_failed.set(false);
    st.pulled.set(st.pulled.get() + 1);
    x
}

/// Ways to use up an iterator.
pub const ADAPTS: u32 = 14;
fn adapt<I: ExactSizeIterator>(it: I, how: u32, n: usize, mut see: impl FnMut(I::Item)) {
    match how % ADAPTS {
        0 => it.for_each(see),
        1 => it.skip(n).for_each(see),
        2 => it.step_by(n + 1).for_each(see),
        3 => it.take(n).for_each(see),
        4 => {
            if let Some(x) = it.last() {
                see(x)
            }
        }
        5 => {
            let mut it = it;
            if let Some(x) = it.nth(n) {
                see(x);
                if let Some(x) = it.next() {
                    see(x)
                }
            }
        }
        6 => {
            // internal iteration that stops early, then resumes
            let mut it = it;
            let mut k = 0;
            let _ = it.try_for_each(|x| {
                see(x);
                k += 1;
                if k > n {
                    Err(())
                } else {
                    Ok(())
                }
            });
            for x in it.by_ref() {
                see(x)
            }
            for _ in 0..3 {
                if let Some(x) = it.next() {
                    see(x)
                }
            }
        }
        7 => it.fold((), |(), x| see(x)),
        8 => {
            if let Some(x) = it.reduce(|_, b| b) {
                see(x)
            }
        }
        9 => {
            let mut k = 0;
            let mut it = it;
            if let Some(x) = it.find(|_| {
                k += 1;
                k > n
            }) {
                see(x)
            }
            it.for_each(see)
        }
        10 => {
            let mut p = it.peekable();
            while let Some(_x) = p.peek() {
                see(p.next().unwrap())
            }
        }
        11 => {
            // the first through one adaptor, the rest through another
            let mut it = it;
            it.by_ref().take(n).for_each(&mut see);
            it.for_each(see)
        }
        12 => {
            let mut it = it;
            let mut k = 0;
            it.all(|x| {
                see(x);
                k += 1;
                k <= n
            });
            it.skip(1).for_each(see)
        }
        _ => {
            if let Some((_, x)) = it.enumerate().max_by_key(|(i, _)| *i) {
                see(x)
            }
        }
    }
}
/// Which of `len` items `adapt` shows.
pub fn adapt_model(len: usize, how: u32, n: usize) -> Vec<usize> {
    let all = 0..len;
    match how % ADAPTS {
        1 => all.skip(n).collect(),
        2 => all.step_by(n + 1).collect(),
        3 => all.take(n).collect(),
        4 | 8 | 13 => all.last().into_iter().collect(),
        5 => all.skip(n).take(2).collect(),
        9 => all.skip(n).collect(),
        12 => all.filter(|&i| i != n + 1).collect(),
        _ => all.collect(),
    }
}

fn item_iter<T: Elem>(items: Vec<H>, st: Rc<ItemStat>, hint: u32) -> ItemIter<T> {
    let v: Vec<AnyInit<T>> = items.into_iter().map(|i| unsafe { un(i) }).collect();
    ItemIter { items: v.into_iter(), st, hint, g: Guest::new() }
}

#[allow(dead_code)]
fn _nn(_: NonNull<u8>) {}

// ---------------------------------------------------------------- plain arrays

/// `new_array` of a leaf type: (what came back, words read from it).
pub struct NewArr {
    pub name: &'static str,
    /// prepare a source; returns a closure to run once faults are armed
    #[allow(clippy::type_complexity)]
    pub run: fn(&mut Gen, usize, &mut dyn FnMut()) -> (R<Vec<u64>>, R<()>),
}

fn na<X: Leaf>(g: &mut Gen, n: usize, arm: &mut dyn FnMut()) -> (R<Vec<u64>>, R<()>) {
    fn go<X: Leaf, const N: usize>(g: &mut Gen, arm: &mut dyn FnMut()) -> (R<Vec<u64>>, R<()>) {
        let s = gen_src::<X>(g, N);
        arm();
        match lib(move || new_array::<X, N>(s)) {
            Err(e) => (Err(e), Ok(())),
            Ok(a) => {
                let mut out = Vec::new();
                for (i, x) in a.iter().enumerate() {
                    match x.word() {
                        Some(w) => out.push(w),
                        None => {
                            viol("array", &format!("element {} of a new array of {} {} is no value", i, N, X::NAME));
                            forget(a);
                            return (Err(Fail::Abort), Ok(()));
                        }
                    }
                }
                let d = lib(move || drop(a));
                (Ok(out), d)
            }
        }
    }
    match n {
        0 => go::<X, 0>(g, arm),
        1 => go::<X, 1>(g, arm),
        2 => go::<X, 2>(g, arm),
        3 => go::<X, 3>(g, arm),
        5 => go::<X, 5>(g, arm),
        9 => go::<X, 9>(g, arm),
        17 => go::<X, 17>(g, arm),
        64 => go::<X, 64>(g, arm),
        _ => go::<X, 130>(g, arm),
    }
}

/// Arrays and strings straight from the library's own constructors for slices and strings.
pub fn ctor_check(seed: u64) {
    fn bad_one(what: &str, n: usize) {
        viol("array", &format!("{} of {} elements gives something else than the source", what, n));
    }
    fn arr<L: LenX>(u: &[u16], t: &[T8], s: &str) {
        let n = u.len();
        let fits = |n: usize| n as u64 <= L::MAX;
        let i = Array::<u16, L>::try_copy(u);
        if i.is_some() != fits(n) {
            return bad_one("try_copy", n);
        }
        if let Some(i) = i {
            let b: VBox<Array<u16, L>> = VBox::new(i);
            if b[..] != u[..] || b.len() != n || b.len_short().val() != n as u64 {
                return bad_one("try_copy", n);
            }
        }
        let i = Array::<T8, L>::try_clone_from_slice(t);
        if i.is_some() != fits(t.len()) {
            return bad_one("try_clone_from_slice", t.len());
        }
        if let Some(i) = i {
            let b: VBox<Array<T8, L>> = VBox::new(i);
            if !same(&b[..], t) {
                return bad_one("try_clone_from_slice", t.len());
            }
        }
        let i = Str::<L>::try_copy(s);
        if i.is_some() != fits(s.len()) {
            return bad_one("Str::try_copy", s.len());
        }
        if let Some(i) = i {
            let b: VBox<Str<L>> = VBox::new(i);
            if b[..] != s[..] || b.len() != s.len() {
                return bad_one("Str::try_copy", s.len());
            }
        }
    }
    fn same(a: &[T8], b: &[T8]) -> bool {
        let p = |x: &T8| x.word().map(|w| rt().toks[w as u32 as usize].payload);
        a.len() == b.len() && a.iter().zip(b).all(|(x, y)| p(x).is_some() && p(x) == p(y) && x.tid() != y.tid())
    }
    let mut r = Rng::new(seed);
    let n = match r.below(6) {
        0 => 254 + r.below(4) as usize,
        1 => 65534 + r.below(4) as usize,
        _ => r.below(40) as usize,
    };
    let u: Vec<u16> = (0..n).map(|_| r.next() as u16).collect();
    let t: Vec<T8> = (0..if n > 300 { 3 } else { n }).map(|_| T8::make(r.next() as u32 >> 1 | 1)).collect();
    let s: String = (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect();
    let out = calm(|| {
        match r.below(5) {
            0 => arr::<u8>(&u, &t, &s),
            1 => arr::<u16>(&u, &t, &s),
            2 => arr::<u32>(&u, &t, &s),
            3 => arr::<u64>(&u, &t, &s),
            _ => arr::<usize>(&u, &t, &s),
        }
        let b: VBox<Array<u16>> = VBox::new(Array::copy(&u));
        if b[..] != u[..] {
            bad_one("copy", n);
        }
        let b: VBox<Array<T8>> = VBox::new(Array::clone_from_slice(&t));
        if !same(&b[..], &t) {
            bad_one("clone_from_slice", t.len());
        }
        let b: VBox<Str> = VBox::new(Str::copy(&s));
        if b[..] != s[..] {
            bad_one("Str::copy", n);
        }
        if FixedLen(0u64).calculate_layout_cautious() != Some(FixedLen(1u64).calculate_layout()) {
            viol("layout", "two layouts of the same fixed-length type differ");
        }
    });
    if out.is_err() {
        viol("unexpected-panic", "constructing from a slice or a string failed without a fault");
    }
}

pub static NEW_ARRAYS: &[NewArr] = &[
    NewArr { name: "T8", run: na::<T8> },
    NewArr { name: "T3", run: na::<T3> },
    NewArr { name: "T40", run: na::<T40> },
    NewArr { name: "T64", run: na::<T64> },
    NewArr { name: "TZ", run: na::<TZ> },
    NewArr { name: "u16", run: na::<u16> },
    NewArr { name: "u128", run: na::<u128> },
    NewArr { name: "P32", run: na::<P32> },
    NewArr { name: "()", run: na::<()> },
];
