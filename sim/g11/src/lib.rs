//! Element types, group 11: structs generic over variable-length types, over constants and over lifetimes, generic
//! newtypes, and structs some of whose array lengths cannot be computed for every value of the controlling fields.
#![allow(unused_imports)]
use std::marker::PhantomData;
use std::mem::{align_of, size_of, MaybeUninit};
use std::pin::Pin;
use varlen::define_varlen;
use varlen::define_varlen_newtype;
use varlen::impl_initializer_as_newtype;
use varlen::prelude::*;
use varlen_sim_core::elem::*;
use varlen_sim_core::extra::*;
use varlen_sim_core::leaf::*;
use varlen_sim_core::rt::*;
use varlen_sim_core::tuples::*;
use varlen_sim_core::{caps, elem_newtype, elem_struct, elem_tup, types};

// ------------------------------------------------------------ a length expression that may panic

#[define_varlen]
pub struct Div {
    #[controls_layout]
    pub m: u8,
    #[controls_layout]
    pub n: u8,
    pub t: T8,
    #[varlen_array]
    pub a: [T3; *m as usize / 2],
    #[varlen_array]
    pub b: [T2; 12 / *n as usize],
}
const fn part(n: u8) -> usize {
    if n == 0 {
        1 << 62
    } else {
        12 / n as usize
    }
}
elem_struct! { Div, div, big = true,
    head { len m: u8, lnd n: u8, leaf t: T8 }
    tail { arr a: T3 = *m as usize / 2, arr b: T2 = part(*n) }
    ctl {
        const CTL: bool = true;
        fn ctl(self: Pin<&mut Self>, g: &mut Gen, arm: &mut dyn FnMut()) -> Option<CtlRes> {
            let (m0, n0) = (self.m, self.n);
            let m = match g.rng.below(4) { 0 => m0, 1 => m0 ^ 1, 2 => m0.wrapping_add(2), _ => g.len(8) as u8 };
            let n = match g.rng.below(5) { 0 | 1 => 0, 2 => n0, 3 => n0 | 1, _ => 1 + g.len(14) as u8 };
            let panics = n == 0;
            let expect_ok = !panics && m / 2 == m0 / 2 && part(n) == part(n0);
            arm();
            let got_ok = calm(|| self.try_set_layout_controllers(div::LayoutControllers { m, n }).is_ok());
            Some(CtlRes { expect_ok, panics, got_ok, new: vec![(0, m as u64), (1, n as u64)] })
        }
    }
}

/// The same with an owning field, and with the expression that fails in front.
#[define_varlen]
pub struct DivOwn {
    #[controls_layout]
    pub n: u16,
    #[controls_layout]
    pub o: Own1,
    #[varlen_array]
    pub a: [u8; 100 / *n as usize],
    #[varlen_array]
    pub b: [T16; o.n / 2],
    #[varlen]
    pub s: Str<u8>,
}
const fn part2(n: u16) -> usize {
    if n == 0 {
        1 << 63
    } else {
        100 / n as usize
    }
}
elem_struct! { DivOwn, div_own, big = true,
    head { lnd n: u16, ctl o: Own1 }
    tail { arr a: u8 = part2(*n), arr b: T16 = o.n / 2, var s: Str<u8> }
    ctl {
        const CTL: bool = true;
        fn ctl(self: Pin<&mut Self>, g: &mut Gen, arm: &mut dyn FnMut()) -> Option<CtlRes> {
            let (n0, o0) = (self.n, self.o.n);
            let n = match g.rng.below(5) { 0 | 1 => 0, 2 => n0, 3 => n0.wrapping_add(40), _ => 1 + g.len(200) as u16 };
            let on = match g.rng.below(4) { 0 => o0, 1 => o0 ^ 1, 2 => o0 + 1, _ => g.len(5) };
            let o = Own1 { n: on, t: g.make::<T3>() };
            let w = TOKW | o.t.tid().unwrap() as u64;
            let panics = n == 0;
            let expect_ok = !panics && on / 2 == o0 / 2 && part2(n) == part2(n0);
            arm();
            let got_ok = calm(|| self.try_set_layout_controllers(div_own::LayoutControllers { n, o }).is_ok());
            Some(CtlRes { expect_ok, panics, got_ok, new: vec![(0, n as u64), (1, on as u64), (2, w)] })
        }
    }
}

/// Inside another value.
#[define_varlen]
pub struct DivIn {
    pub k: u8,
    #[varlen]
    pub s: Array<T12, u64>,
    #[varlen]
    pub d: Div,
    #[varlen]
    pub z: FixedLen<T2>,
}
elem_struct! { DivIn, div_in, big = true,
    head { leaf k: u8 }
    tail { var s: Array<T12, u64>, var d: Div, var z: FixedLen<T2> }
}

// ------------------------------------------------------------ generics

#[define_varlen]
pub struct Two<A: VarLen = Str, B: VarLen = Array<u16>> {
    pub n: u8,
    #[varlen]
    pub a: A,
    #[varlen]
    pub b: B,
}
type TwoA = Two<Str<u8>, Array<T8, usize>>;
type TwoB = Two<FixedLen<T64>, FixedLen<u8>>;
type TwoC = Two<TwoA, TwoB>;
type TwoD = Two<Huge1, FixedLen<()>>;
elem_struct! { TwoA, two, big = false,
    head { leaf n: u8 }
    tail { var a: Str<u8>, var b: Array<T8, usize> }
}
elem_struct! { TwoB, two, big = false,
    head { leaf n: u8 }
    tail { var a: FixedLen<T64>, var b: FixedLen<u8> }
}
elem_struct! { TwoC, two, big = false,
    head { leaf n: u8 }
    tail { var a: TwoA, var b: TwoB }
}
elem_struct! { TwoD, two, big = true,
    head { leaf n: u8 }
    tail { var a: Huge1, var b: FixedLen<()> }
}

#[define_varlen]
pub struct ConstGen<const N: usize = 4> {
    #[controls_layout]
    pub n: u8,
    #[varlen_array]
    pub a: [Bytes<N>; *n as usize],
    pub t: T8,
    #[varlen]
    pub f: FixedLen<Bytes<N>>,
    #[varlen]
    pub g: Array<Bytes<N>, u16>,
}
elem_struct! { ConstGen<4>, const_gen, big = false,
    head { len n: u8, leaf t: T8 }
    tail { arr a: Bytes<4> = *n as usize, var f: FixedLen<Bytes<4>>, var g: Array<Bytes<4>, u16> }
}
elem_struct! { ConstGen<13>, const_gen, big = false,
    head { len n: u8, leaf t: T8 }
    tail { arr a: Bytes<13> = *n as usize, var f: FixedLen<Bytes<13>>, var g: Array<Bytes<13>, u16> }
}

#[define_varlen]
pub struct Life<'b> {
    #[controls_layout]
    pub n: u16,
    pub q: u8,
    #[varlen]
    pub s: Array<Bor<'b>, u8>,
    #[varlen_array]
    pub a: [Bor<'b>; *n as usize],
    #[varlen]
    pub t: FixedLen<T64>,
}
elem_struct! { Life<'static>, life, big = false,
    head { len n: u16, leaf q: u8 }
    tail { var s: Array<Bor<'static>, u8>, arr a: Bor<'static> = *n as usize, var t: FixedLen<T64> }
}

// Generic newtypes, of a library type and of a struct.
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct Wrap<(T)>(pub Array<T, u8>);

    with signature: impl<(T)> Wrap<(T)> { _ }
    with init: pub struct WrapInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
elem_newtype!(Wrap<T8>, WrapInit, Array<T8, u8>, inner, inner_mut, n);
elem_newtype!(Wrap<u128>, WrapInit, Array<u128, u8>, inner, inner_mut, n);
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct Wrap2<(A: VarLen), (B: VarLen)>(pub Two<A, B>);

    with signature: impl<(A: VarLen), (B: VarLen)> Wrap2<(A), (B)> { _ }
    with init: pub struct Wrap2Init<_>(pub _);
    with inner_ref: pub fn two(&self) -> &_;
    with inner_mut: pub fn two_mut(self: _) -> _;
}
elem_newtype!(Wrap2<FixedLen<T64>, FixedLen<u8>>, Wrap2Init, TwoB, two, two_mut, n);
type WB = Wrap2<FixedLen<T64>, FixedLen<u8>>;
type TwoW = Two<Wrap<T8>, WB>;
elem_struct! { TwoW, two, big = false,
    head { leaf n: u8 }
    tail { var a: Wrap<T8>, var b: WB }
}
type TwoDiv = Two<FixedLen<T3>, Div>;
elem_struct! { TwoDiv, two, big = true,
    head { leaf n: u8 }
    tail { var a: FixedLen<T3>, var b: Div }
}

types! {
    Div, DivOwn, DivIn, TwoDiv, TwoA, TwoB, TwoC, TwoD, ConstGen<4>, ConstGen<13>, Life<'static>, Wrap<T8>, Wrap<u128>, Wrap2<FixedLen<T64>, FixedLen<u8>>, TwoW,
}
