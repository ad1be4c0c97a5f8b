//! Arrays and sequences of more parts than sixteen bits can count, built from every source, with parts that
//! are destroyed one by one.  The parts have a ledger of their own, because the registry of tracked values
//! is too small for them.

use crate::heap::heap;
use crate::rt::*;
use crate::vast::{vast, Ix};
use std::mem::{size_of, MaybeUninit};
use varlen::array::SizedInit;
use varlen::array_init::*;
use varlen::define_varlen;
use varlen::owned::Owned;
use varlen::prelude::*;
use varlen::seq::{CheckedIndexing, Indexing, UncheckedIndexing};

struct Ledger {
    /// 1: live, 2: destroyed
    state: Vec<u8>,
    val: Vec<u32>,
    live: i64,
    zst: i64,
    pulls: usize,
}
static mut LED: Ledger = Ledger { state: Vec::new(), val: Vec::new(), live: 0, zst: 0, pulls: 0 };
fn led() -> &'static mut Ledger {
    unsafe { &mut *std::ptr::addr_of_mut!(LED) }
}
const MAX: usize = (1 << 22) - 1;

fn enc(id: u32) -> u32 {
    id | ((hash2(0xA11, id as u64) as u32) << 22)
}
fn dec(x: u32) -> Option<u32> {
    let id = x & MAX as u32;
    (id > 0 && enc(id) == x && (id as usize) < led().state.len()).then_some(id)
}
fn enlist(v: u32) -> u32 {
    let l = led();
    if l.state.len() >= MAX {
        viol(SPENT, "out of parts");
        return 0;
    }
    l.state.push(1);
    l.val.push(v);
    l.live += 1;
    enc(l.state.len() as u32 - 1)
}
const DEF: u32 = 0xDEF;

/// A part of a long array.
pub trait Part: Sized + Clone + Default + 'static {
    const NAME: &'static str;
    const DROPS: bool;
    const COPY: bool = false;
    fn make(v: u32) -> Self;
    /// None: not a value, or a destroyed one
    fn val(&self) -> Option<u32>;
    fn norm(v: u32) -> u32;
    fn dflt() -> u32;
    fn put(&mut self, v: u32);
    fn copy_from(_src: &[Self], _dst: &mut [MaybeUninit<Self>]) {
        unreachable!()
    }
    fn live() -> i64 {
        0
    }
}

pub struct W(u32);
impl Part for W {
    const NAME: &'static str = "tracked parts of four bytes";
    const DROPS: bool = true;
    fn make(v: u32) -> Self {
        W(enlist(v))
    }
    fn val(&self) -> Option<u32> {
        let id = dec(self.0)? as usize;
        (led().state[id] == 1).then(|| led().val[id])
    }
    fn norm(v: u32) -> u32 {
        v
    }
    fn dflt() -> u32 {
        DEF
    }
    fn put(&mut self, v: u32) {
        if let Some(id) = dec(self.0) {
            led().val[id as usize] = v;
        }
    }
    fn live() -> i64 {
        led().live
    }
}
impl Clone for W {
    fn clone(&self) -> Self {
        let _g = Harness::enter();
        cb_point();
        match self.val() {
            Some(v) => W(enlist(v)),
            None => {
                viol("use-dead", "a part that does not exist was cloned");
                abort_run()
            }
        }
    }
}
impl Default for W {
    fn default() -> Self {
        let _g = Harness::enter();
        cb_point();
        W(enlist(DEF))
    }
}
impl Drop for W {
    fn drop(&mut self) {
        let _g = Harness::enter();
        if bad() {
            return;
        }
        match dec(self.0) {
            None => viol("garbage-drop", "something that is no part of a long array was destroyed as one"),
            Some(id) => {
                let s = &mut led().state[id as usize];
                if *s != 1 {
                    return viol("double-drop", "a part of a long array was destroyed twice");
                }
                *s = 2;
                led().live -= 1;
                drop_point();
            }
        }
    }
}

#[repr(align(16))]
#[derive(Clone, Default)]
pub struct W16(W);
impl Part for W16 {
    const NAME: &'static str = "tracked parts aligned to sixteen bytes";
    const DROPS: bool = true;
    fn make(v: u32) -> Self {
        W16(W::make(v))
    }
    fn val(&self) -> Option<u32> {
        self.0.val()
    }
    fn norm(v: u32) -> u32 {
        v
    }
    fn dflt() -> u32 {
        DEF
    }
    fn put(&mut self, v: u32) {
        self.0.put(v)
    }
    fn live() -> i64 {
        led().live
    }
}

/// Nothing but a destructor.
pub struct Z;
impl Part for Z {
    const NAME: &'static str = "zero-size parts with a destructor";
    const DROPS: bool = true;
    fn make(_: u32) -> Self {
        led().zst += 1;
        Z
    }
    fn val(&self) -> Option<u32> {
        Some(0)
    }
    fn norm(_: u32) -> u32 {
        0
    }
    fn dflt() -> u32 {
        0
    }
    fn put(&mut self, _: u32) {}
    fn live() -> i64 {
        led().zst
    }
}
impl Clone for Z {
    fn clone(&self) -> Self {
        let _g = Harness::enter();
        cb_point();
        Z::make(0)
    }
}
impl Default for Z {
    fn default() -> Self {
        let _g = Harness::enter();
        cb_point();
        Z::make(0)
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        let _g = Harness::enter();
        if bad() {
            return;
        }
        led().zst -= 1;
        if led().zst < 0 {
            return viol("double-drop", "more zero-size parts were destroyed than there were");
        }
        drop_point();
    }
}

macro_rules! plain {
    ($t:ty) => {
        impl Part for $t {
            const NAME: &'static str = stringify!($t);
            const DROPS: bool = false;
            const COPY: bool = true;
            fn make(v: u32) -> Self {
                v as $t
            }
            fn val(&self) -> Option<u32> {
                let v = *self as u32;
                (v as $t == *self).then_some(v)
            }
            fn norm(v: u32) -> u32 {
                v as $t as u32
            }
            fn dflt() -> u32 {
                0
            }
            fn put(&mut self, v: u32) {
                *self = v as $t
            }
            fn copy_from(src: &[Self], dst: &mut [MaybeUninit<Self>]) {
                CopyFrom(src).initialize(dst)
            }
        }
    };
}
plain!(u8);
plain!(u16);
plain!(u64);

#[define_varlen]
pub struct Spread<T: Part = W> {
    #[controls_layout]
    pub n: u32,
    #[varlen_array]
    pub head: [u8; (*n as usize) % 5],
    #[varlen_array]
    pub arr: [T; *n as usize],
    #[varlen]
    pub tail: Str<u8>,
}

/// The input of an array.
struct Feed<T: Part> {
    it: Option<std::vec::IntoIter<T>>,
    /// what the iterator claims: nothing, the truth, too much
    hint: u8,
    g: Guest,
}
impl<T: Part> Iterator for Feed<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let _g = Harness::enter();
        self.g.here();
        led().pulls += 1;
        cb_point();
        self.it.as_mut()?.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.as_ref().map_or(0, |i| i.len());
        match self.hint {
            0 => (0, None),
            1 => (n, Some(n)),
            _ => (n + 3, Some(n + 3)),
        }
    }
}
impl<T: Part> Drop for Feed<T> {
    fn drop(&mut self) {
        let _g = Harness::enter();
        drop(self.it.take());
    }
}

const N1: usize = 300;
const N2: usize = 65_600;

enum From<'a, T: Part> {
    Iter(Feed<T>),
    Fill(u64),
    Clone(&'a [T]),
    Copy(&'a [T]),
    Move1(Option<Box<[T; N1]>>),
    Move2(Option<Box<[T; N2]>>),
    Default,
}
struct Input<'a, T: Part>(From<'a, T>);
unsafe impl<T: Part> ArrayInitializer<T> for Input<'_, T> {
    fn initialize(self, dst: &mut [MaybeUninit<T>]) {
        match self.0 {
            From::Iter(f) => FromIterPrefix(f).initialize(dst),
            From::Fill(key) => {
                let mut at = 0;
                let g = Guest::new();
                FillSequentially(move |i| {
                    let _g = Harness::enter();
                    g.here();
                    cb_point();
                    if i != at {
                        viol("array", &format!("a fill closure was asked for element {} after {}", i, at));
                        abort_run();
                    }
                    at += 1;
                    T::make(word::<T>(key, i))
                })
                .initialize(dst)
            }
            From::Clone(s) => CloneFrom(s).initialize(dst),
            From::Copy(s) => T::copy_from(s, dst),
            From::Move1(mut b) => {
                let g = Harness::enter();
                let a = *b.take().unwrap();
                drop(g);
                MoveFrom(a).initialize(dst)
            }
            From::Move2(mut b) => {
                let g = Harness::enter();
                let a = *b.take().unwrap();
                drop(g);
                MoveFrom(a).initialize(dst)
            }
            From::Default => FillWithDefault.initialize(dst),
        }
    }
}

fn word<T: Part>(key: u64, i: usize) -> u32 {
    T::norm(hash2(key, i as u64) as u32)
}

enum Held<T: Part> {
    Box(VBox<Array<T>>),
    Short(VBox<Array<T, u32>>),
    Wide(VBox<Spread<T>>),
    Seq(Seq<Array<T, u32>, CheckedIndexing>),
    Plain1(Box<[T; N1]>),
    Plain2(Box<[T; N2]>),
}
impl<T: Part> Held<T> {
    fn parts(&self) -> &[T] {
        match self {
            Held::Box(b) => b,
            Held::Short(b) => b,
            Held::Wide(b) => b.refs().arr,
            Held::Seq(s) => s.iter().next().unwrap(),
            Held::Plain1(a) => &a[..],
            Held::Plain2(a) => &a[..],
        }
    }
    fn with_mut<R>(&mut self, f: impl FnOnce(&mut [T]) -> R) -> R {
        match self {
            Held::Box(b) => f(b.as_mut().mut_slice()),
            Held::Short(b) => f(b.as_mut().mut_slice()),
            Held::Wide(b) => f(b.as_mut().muts().arr),
            Held::Seq(s) => f(s.iter_mut().next().unwrap().mut_slice()),
            Held::Plain1(a) => f(&mut a[..]),
            Held::Plain2(a) => f(&mut a[..]),
        }
    }
}

#[derive(Default)]
pub struct Deed {
    pub cb: bool,
    pub drop: bool,
    pub mismatch: bool,
    pub alloc: bool,
    pub fired_alloc: u32,
    pub judged: u32,
    /// the storage of a box a fault interrupted
    pub stranded: Option<(usize, usize)>,
    pub mism_failed: bool,
}

fn fails(what: &str, f: &Fail) {
    viol("unexpected-panic", &format!("{} failed although nothing was wrong: {:?}", what, f));
}

fn pick(r: &mut Rng) -> usize {
    (match r.below(8) {
        0 => 250 + r.below(12),
        1 => N1 as u64,
        2 => 1020 + r.below(8),
        3 => 4090 + r.below(12),
        4 => 65_530 + r.below(12),
        5 => N2 as u64,
        6 => 131_068 + r.below(8),
        _ => 65_536 + r.below(60_000),
    }) as usize
}

/// The parts are those expected; reports otherwise.
fn right<T: Part>(x: &[T], n: usize, want: impl Fn(usize) -> u32, class: &str, what: &str) -> bool {
    if x.len() != n {
        viol(class, &format!("{} of {} {} has {} parts", what, n, T::NAME, x.len()));
        return false;
    }
    if (x.as_ptr() as usize) % std::mem::align_of::<T>() != 0 {
        viol("misaligned", &format!("{} of {} {} is not aligned", what, n, T::NAME));
        return false;
    }
    for (i, p) in x.iter().enumerate() {
        if p.val() != Some(want(i)) {
            viol(class, &format!("part {} of {} of {} {} is {:x?}, expected {:x}", i, what, n, T::NAME, p.val(), want(i)));
            return false;
        }
    }
    true
}

fn balance<T: Part>(want: i64, what: &str) -> bool {
    if !T::DROPS || bad() {
        return !bad();
    }
    let l = T::live();
    if l > want {
        viol("leak-value", &format!("{}: {} more of the {} exist than are reachable", what, l - want, T::NAME));
    } else if l < want {
        viol("double-drop", &format!("{}: {} of the {} were destroyed while reachable", what, want - l, T::NAME));
    }
    !bad()
}

fn arm(r: &mut Rng, n: usize, cb: bool, dr: bool) {
    let t = rt();
    t.n_cb = 0;
    t.n_drop = 0;
    t.armed = true;
    // anywhere, but often near an end
    let at = match r.below(3) {
        0 => r.below(4),
        1 => (n as u64).saturating_sub(1 + r.below(4)),
        _ => r.below(n as u64),
    };
    if cb {
        t.cb_at = at as i64;
    }
    if dr {
        t.drop_at = at as i64;
    }
}

fn wrap<T: Part>(owner: u64, n: usize, f: From<'_, T>) -> R<Held<T>> {
    let init = Input(f);
    lib(move || match owner {
        0 => Held::Box(VBox::new(SizedInit(n, init))),
        1 => Held::Short(VBox::new(SizedInit(n as u32, init))),
        2 => Held::Wide(VBox::new(spread::Init { n: n as u32, head: FillWithDefault, arr: init, tail: Str::try_copy("the tail").unwrap() })),
        3 => {
            let mut s = Seq::new();
            s.push(SizedInit(n as u32, init));
            Held::Seq(s)
        }
        4 => {
            let bump = bumpalo::Bump::new();
            let o = Owned::<Array<T>>::new_in(SizedInit(n, init), &bump);
            let b = VBox::new(o);
            drop(bump);
            Held::Box(b)
        }
        _ if n == N1 => {
            let a: [T; N1] = new_array(init);
            let _g = Harness::enter();
            Held::Plain1(Box::new(a))
        }
        _ => {
            let a: [T; N2] = new_array(init);
            let _g = Harness::enter();
            Held::Plain2(Box::new(a))
        }
    })
}

/// One long array: built, read, changed, copied, moved, destroyed.
fn array<T: Part>(r: &mut Rng, d: &mut Deed) -> u32 {
    let mut n = pick(r);
    let key = r.next();
    // plain arrays live on the stack
    let small = size_of::<T>() <= 4;
    let mut owner = r.below(6);
    if owner == 5 {
        if !small {
            owner = 0;
        } else if n != N1 {
            n = N2;
        }
    }
    let movable = n == N1 || (n == N2 && small);
    let kind = match r.below(6) {
        3 if !T::COPY => 0,
        4 if !movable => 2,
        k => k,
    };
    // a source of another length
    let mism = d.mismatch && (kind == 0 || kind == 2 || kind == 3 || (kind == 4 && owner != 5));
    let have = match (mism, kind) {
        (false, 0) => n + r.pick(&[0, 0, 1, 7, 1000]),
        (false, _) | (_, 4) => n,
        (true, 0) => n - 1 - r.pick(&[0, 1, 255, 65_535]).min(n - 1),
        (true, _) => match r.below(4) {
            0 => n + 1,
            1 => n - 1,
            2 => n + 65_536,
            _ => n.saturating_sub(256),
        },
    };
    let ask = if mism && kind == 4 { n + r.pick(&[1, 65_536]) } else { n };
    let src: Vec<T> = if kind == 2 || kind == 3 { (0..have).map(|i| T::make(word::<T>(key, i))).collect() } else { Vec::new() };
    let base = src.len() as i64;
    let from = match kind {
        0 => From::Iter(Feed { it: Some((0..have).map(|i| T::make(word::<T>(key, i))).collect::<Vec<_>>().into_iter()), hint: r.below(3) as u8, g: Guest::new() }),
        1 => From::Fill(key),
        2 => From::Clone(&src),
        3 => From::Copy(&src),
        4 if n == N1 => From::Move1((0..n).map(|i| T::make(word::<T>(key, i))).collect::<Vec<_>>().into_boxed_slice().try_into().ok()),
        4 => From::Move2((0..n).map(|i| T::make(word::<T>(key, i))).collect::<Vec<_>>().into_boxed_slice().try_into().ok()),
        _ => From::Default,
    };
    if bad() {
        std::mem::forget(from);
        std::mem::forget(src);
        return 50;
    }
    let want = |i: usize| if kind == 5 { T::dflt() } else { word::<T>(key, i) };
    let when = if d.cb { r.below(3) } else { 9 };
    let h = heap();
    h.n_big = 0;
    led().pulls = 0;
    arm(r, n, when == 0, false);
    if d.alloc && owner != 5 {
        h.fail_at = 0;
    }
    let x = wrap::<T>(owner, ask, from);
    h.fail_at = -1;
    let (fired, asked) = (rt().fired_cb > 0, rt().n_cb as i64);
    disarm();
    d.fired_alloc += h.fired;
    if bad() {
        std::mem::forget((x, src));
        return 51;
    }
    if !right(&src, have * (base > 0) as usize, |i| word::<T>(key, i), "content", "the source") {
        std::mem::forget((x, src));
        return 51;
    }
    if kind == 0 && led().pulls > ask + (mism as usize) {
        viol("array", &format!("{} items were taken from an iterator for an array of {}", led().pulls, ask));
    }
    let mut held = match x {
        Ok(_) if fired => {
            viol("swallowed-panic", "the panic of a callback that produces a part of a long array did not reach the caller");
            return 51;
        }
        Ok(b) if mism => {
            std::mem::forget(b);
            viol("missing-panic", &format!("an array of {} {} was built from a source of {}", ask, T::NAME, have));
            return 51;
        }
        Ok(b) => b,
        Err(e) => {
            let size = ask * size_of::<T>();
            let room = |extra: i64| (0..=extra).contains(&(T::live() - base)) || !T::DROPS;
            let fine = match &e {
                Fail::Injected if fired => {
                    d.stranded = Some((size, size + 400));
                    // what was built so far may be lost, the rest of the input may not
                    room(asked)
                }
                Fail::Lib(_) if mism => {
                    d.mism_failed = true;
                    d.stranded = Some((size, size + 400));
                    room(if kind == 4 { 0 } else { have.min(ask) as i64 })
                }
                Fail::AllocErr | Fail::Lib(_) if h.fired > 0 || h.n_big > 0 => room(0),
                _ => {
                    fails("building a long array", &e);
                    return 51;
                }
            };
            if !fine {
                viol(
                    if T::live() < base { "double-drop" } else { "leak-value" },
                    &format!("after the failure ({:?}) to build an array of {} {} from {}, {} too many exist", e, ask, T::NAME, have, T::live() - base),
                );
            }
            d.judged += 1;
            return 52;
        }
    };
    if d.alloc && owner != 5 && h.fired > 0 {
        viol("missing-panic", "a long array was built although memory was refused");
        std::mem::forget(held);
        return 51;
    }
    if !right(held.parts(), n, want, "array", "an array") || !balance::<T>(base + n as i64, "after building a long array") {
        std::mem::forget((held, src));
        return 51;
    }
    if let Held::Wide(b) = &held {
        let f = b.refs();
        if &f.tail[..] != "the tail" || f.head.len() != n % 5 || f.head.iter().any(|x| *x != 0) || *f.n as usize != n {
            viol("content", "the fields around a long array are not what they were made");
        }
    }
    drop(src);
    // change some
    let salt = r.next();
    let step = 1 + r.below(5000) as usize;
    let upto = r.below(n as u64) as usize;
    held.with_mut(|x| {
        for i in (upto..n).step_by(step) {
            x[i].put(word::<T>(salt, i));
        }
    });
    let want2 = |i: usize| if i >= upto && (i - upto) % step == 0 { word::<T>(salt, i) } else { want(i) };
    if bad() || !right(held.parts(), n, want2, "content", "a changed array") {
        std::mem::forget(held);
        return 51;
    }
    // a clone
    let mut live = n as i64;
    if r.chance(1, 2) {
        arm(r, n, when == 1, false);
        let c = match &held {
            Held::Box(b) => lib(|| Held::Box(VBox::new(b.vclone()))),
            Held::Short(b) => lib(|| Held::Short(b.clone())),
            Held::Seq(s) => lib(|| {
                let mut t = Seq::new();
                t.push(s.iter().next().unwrap().vclone());
                Held::Seq(t)
            }),
            _ => lib(|| Held::Box(VBox::new(Array::clone_from_slice(held.parts())))),
        };
        let (fired, asked) = (rt().fired_cb > 0 && when == 1, rt().n_cb as i64);
        disarm();
        if bad() || !right(held.parts(), n, want2, "content", "the original") {
            std::mem::forget((c, held));
            return 51;
        }
        match c {
            Ok(c) if !fired => {
                let ok = right(c.parts(), n, want2, "content", "a clone");
                if !ok || !balance::<T>(live * 2, "after cloning a long array") || bad() {
                    std::mem::forget((c, held));
                    return 51;
                }
                let (gone, left) = if r.chance(1, 2) { (c, held) } else { (held, c) };
                held = left;
                if let Err(e) = lib(|| throw(gone)) {
                    if !bad() {
                        fails("destroying a long array", &e);
                    }
                }
            }
            Err(Fail::Injected) if fired => {
                d.stranded = Some((n * size_of::<T>(), n * size_of::<T>() + 400));
                if T::DROPS && !(0..=asked).contains(&(T::live() - live)) {
                    viol(if T::live() < live { "double-drop" } else { "leak-value" }, "an interrupted clone of a long array leaves another number of parts");
                }
                d.judged += 1;
                live = if T::DROPS { T::live() } else { live };
            }
            Ok(c) => {
                std::mem::forget(c);
                viol("swallowed-panic", "the panic of a clone did not reach the caller");
            }
            Err(e) => fails("cloning a long array", &e),
        }
        if bad() || !balance::<T>(live, "after a clone of a long array went") || !right(held.parts(), n, want2, "content", "the one that stays") {
            std::mem::forget(held);
            return 51;
        }
    }
    // from owner to owner
    for _ in 0..r.below(3) {
        let w = r.below(3);
        let m = lib(|| match held {
            Held::Box(b) => match w {
                0 => Held::Box(VBox::new(b)),
                1 => {
                    let mut s = Seq::<Array<T>, UncheckedIndexing>::new();
                    s.push(SizedInit(0usize, FillWithDefault));
                    s.push(b);
                    let b = VBox::new(s.take_elems().last().unwrap());
                    drop(s);
                    Held::Box(b)
                }
                _ => {
                    let bump = bumpalo::Bump::new();
                    let b = VBox::new(Owned::new_in(b, &bump));
                    drop(bump);
                    Held::Box(b)
                }
            },
            Held::Short(b) => {
                let mut s = Seq::new();
                s.push(b);
                Held::Seq(s)
            }
            Held::Seq(mut s) => match w {
                0 => {
                    let t = s.take_elems().collect();
                    Held::Seq(t)
                }
                1 => {
                    // grow around it
                    for _ in 0..3 {
                        s.push(SizedInit(40_000, FillWithDefault));
                    }
                    let b = Held::Short(VBox::new(s.take_elems().next().unwrap()));
                    b
                }
                _ => Held::Short(VBox::new(s.take_elems().next().unwrap())),
            },
            x => x,
        });
        held = match m {
            Ok(m) => m,
            Err(_) if bad() => return 51,
            Err(_) if heap().n_big > 0 || heap().exhausted => return 53,
            Err(e) => {
                fails("moving a long array", &e);
                return 51;
            }
        };
        if !right(held.parts(), n, want2, "content", "a moved array") || !balance::<T>(live, "after moving a long array") {
            std::mem::forget(held);
            return 51;
        }
    }
    // the end
    arm(r, n, false, d.drop);
    let e = lib(|| throw(held));
    let fired = rt().fired_drop > 0;
    disarm();
    match e {
        _ if bad() => {}
        Ok(()) if fired => viol("swallowed-panic", "the panic of a destructor did not reach the caller"),
        Ok(()) => {
            balance::<T>(live - n as i64, "after the end of a long array");
        }
        Err(Fail::Injected) if fired => {
            d.judged += 1;
            if T::DROPS && T::live() < live - n as i64 {
                viol("double-drop", "parts were destroyed twice when a destructor panicked");
            }
        }
        Err(e) => fails("destroying a long array", &e),
    }
    54
}

fn throw<T: Part>(h: Held<T>) {
    match h {
        Held::Plain1(a) => {
            let g = Harness::enter();
            let a = *a;
            drop(g);
            drop(a)
        }
        Held::Plain2(a) => {
            let g = Harness::enter();
            let a = *a;
            drop(g);
            drop(a)
        }
        h => drop(h),
    }
}

/// Many values with destructors in one sequence.
fn crowd<T: Part, I: Indexing>(r: &mut Rng, d: &mut Deed, init: impl Fn(u32) -> FixedLen<T>) -> u32
where
    Seq<FixedLen<T>, I>: Ix<FixedLen<T>>,
{
    let n = pick(r);
    let key = r.next();
    let bulk = r.chance(1, 2);
    arm(r, n, d.cb, false);
    let mut s = Seq::<FixedLen<T>, I>::new();
    let x = lib(|| {
        let fill = |i: usize| {
            let _g = Harness::enter();
            cb_point();
            init(word::<T>(key, i))
        };
        if bulk {
            s.extend((0..n).map(fill));
        } else {
            for i in 0..n {
                s.push(fill(i));
            }
        }
    });
    let fired = rt().fired_cb > 0;
    let made = if fired { (rt().n_cb as usize).saturating_sub(1) } else { n };
    disarm();
    match x {
        _ if bad() => {}
        Ok(()) if fired => viol("swallowed-panic", "the panic of an iterator did not reach the caller of extend"),
        Ok(()) => {}
        Err(Fail::Injected) if fired => d.judged += 1,
        Err(_) if heap().exhausted => {
            std::mem::forget(s);
            return 55;
        }
        Err(e) => fails("filling a long sequence", &e),
    }
    let check = |s: &Seq<FixedLen<T>, I>, what: &str| {
        if bad() {
            return false;
        }
        if s.len() != made {
            viol("len", &format!("{}: a sequence of {} {} reports {}", what, made, T::NAME, s.len()));
            return false;
        }
        let mut k = 0;
        for v in s.iter() {
            if v.0.val() != Some(word::<T>(key, k)) {
                viol("content", &format!("{}: element {} of {} {} is wrong", what, k, made, T::NAME));
                return false;
            }
            k += 1;
        }
        if k != made {
            viol("iter", &format!("{}: iteration ended after {} of {}", what, k, made));
            return false;
        }
        balance::<T>(made as i64, what)
    };
    if !check(&s, "a filled sequence") {
        std::mem::forget(s);
        return 55;
    }
    // how it ends
    let how = r.below(5);
    let part = r.below(made as u64 + 1) as usize;
    arm(r, n, false, d.drop);
    let mut left = 0;
    let x = match how {
        0 => lib(|| drop(s)),
        1 => lib(|| {
            let mut e = s.take_elems();
            for _ in 0..part {
                drop(e.next());
            }
            drop(e);
            drop(s);
        }),
        2 => lib(|| {
            let t: Seq<FixedLen<T>, UncheckedIndexing> = s.take_elems().collect();
            drop(s);
            drop(t);
        }),
        3 => lib(|| {
            drop(s.take_elems());
            s.push(init(7));
            drop(s);
        }),
        _ => {
            // what a forgotten drain did not yield is leaked
            left = made - part;
            lib(|| {
                let mut e = s.take_elems();
                for _ in 0..part {
                    drop(e.next());
                }
                std::mem::forget(e);
                drop(s);
            })
        }
    };
    let fired = rt().fired_drop > 0;
    disarm();
    match x {
        _ if bad() => {}
        Ok(()) if fired => viol("swallowed-panic", "the panic of a destructor did not reach the caller"),
        Ok(()) => {
            balance::<T>(left as i64, "after the end of a long sequence");
        }
        Err(Fail::Injected) if fired => d.judged += 1,
        Err(_) if heap().exhausted => {}
        Err(e) => fails("emptying a long sequence", &e),
    }
    56
}

/// One history of long arrays or sequences.  Returns an outcome code.
pub fn simulate(seed: u64, env: u64, d: &mut Deed) -> u32 {
    let mut r = Rng::new(seed);
    let h = heap();
    let old = h.limit;
    h.begin_log(env);
    h.limit = 1 << 30;
    if !vast().begin(env) {
        h.limit = old;
        return 0;
    }
    let t = rt();
    t.fired_cb = 0;
    t.fired_drop = 0;
    let l = led();
    l.state.clear();
    l.val.clear();
    l.state.push(0);
    l.val.push(0);
    l.live = 0;
    l.zst = 0;
    let out = match r.below(12) {
        0 | 1 => array::<W>(&mut r, d),
        2 => array::<W16>(&mut r, d),
        3 => array::<Z>(&mut r, d),
        4 | 5 => array::<u8>(&mut r, d),
        6 => array::<u16>(&mut r, d),
        7 => array::<u64>(&mut r, d),
        8 => crowd::<W, UncheckedIndexing>(&mut r, d, |v| FixedLen(W::make(v))),
        9 => crowd::<W, CheckedIndexing>(&mut r, d, |v| FixedLen(W::make(v))),
        10 => crowd::<Z, CheckedIndexing>(&mut r, d, |v| FixedLen(Z::make(v))),
        _ => crowd::<W16, UncheckedIndexing>(&mut r, d, |v| FixedLen(W16::make(v))),
    };
    disarm();
    let quiet = rt().fired_cb == 0 && rt().fired_drop == 0 && !d.mism_failed;
    if !bad() && quiet && !h.exhausted {
        if let Some(n) = vast().lost() {
            viol("leak-block", &format!("a block of {} bytes was never returned", n));
        }
    }
    let h = heap();
    h.limit = old;
    h.fail_at = -1;
    vast().end();
    out
}
