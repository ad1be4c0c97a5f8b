//! Element types, group 9.
#![allow(unused_imports)]
use std::mem::{align_of, size_of};
use std::pin::Pin;
use varlen::define_varlen;
use varlen::define_varlen_newtype;
use varlen::impl_initializer_as_newtype;
use varlen::prelude::*;
use varlen_sim_core::elem::*;
use varlen_sim_core::leaf::*;
use varlen_sim_core::rt::*;
use varlen_sim_core::tuples::*;
use varlen_sim_core::{caps, elem_newtype, elem_struct, elem_tup, types};

// ------------------------------------------------------------ newtypes

define_varlen_newtype! {
    #[repr(transparent)]
    pub struct Wrapped(P3a);

    with init: pub struct WrappedInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
elem_newtype!(Wrapped, WrappedInit, P3a, inner, inner_mut, n);

#[define_varlen]
pub struct Mixed {
    pub tok: T8,
    #[controls_layout]
    pub n: u8,
    #[varlen_array]
    pub arr: [u16; *n as usize],
    pub small: u8,
    #[varlen]
    pub s: Str<u8>,
}
elem_struct! { Mixed, mixed, big = false,
    head { leaf tok: T8, len n: u8, leaf small: u8 }
    tail { arr arr: u16 = *n as usize, var s: Str<u8> }
}

#[define_varlen]
pub struct Grid {
    #[controls_layout]
    pub w: u8,
    #[controls_layout]
    pub h: u8,
    #[varlen_array]
    pub cells: [T2; (*w as usize) * (*h as usize)],
}
elem_struct! { Grid, grid, big = false,
    head { len w: u8, len h: u8 }
    tail { arr cells: T2 = (*w as usize) * (*h as usize) }
    ctl {
        const CTL: bool = true;
        fn ctl(self: Pin<&mut Self>, g: &mut Gen, arm: &mut dyn FnMut()) -> Option<CtlRes> {
            let (w0, h0) = (self.w, self.h);
            let (w, h) = match g.rng.below(7) {
                0 | 1 => (h0, w0),
                2 => (1, w0.saturating_mul(h0)),
                3 => (w0.wrapping_add(1), h0),
                4 => (w0, h0.wrapping_add(1)),
                5 => (w0 ^ (1 << g.rng.below(8)), h0),
                _ => (g.len(6) as u8, g.len(6) as u8),
            };
            let expect_ok = w as usize * h as usize == w0 as usize * h0 as usize;
            arm();
            let got_ok = calm(|| self.try_set_layout_controllers(grid::LayoutControllers { w, h }).is_ok());
            Some(CtlRes { expect_ok, panics: false, got_ok, new: vec![(0, w as u64), (1, h as u64)] })
        }
    }
}

#[define_varlen]
pub struct HiHead {
    pub x: P32,
    #[controls_layout]
    pub n: u8,
    #[varlen_array]
    pub b: [u8; *n as usize],
}
elem_struct! { HiHead, hi_head, big = false,
    head { leaf x: P32, len n: u8 }
    tail { arr b: u8 = *n as usize }
}

#[define_varlen]
pub struct Nest {
    #[varlen]
    pub a: Mixed,
    pub k: u32,
    #[varlen]
    pub t: P2d,
    #[varlen]
    pub g: Grid,
}
elem_struct! { Nest, nest, big = false,
    head { leaf k: u32 }
    tail { var a: Mixed, var t: P2d, var g: Grid }
}

#[define_varlen]
pub struct NestHi {
    #[controls_layout]
    pub n: u8,
    #[varlen]
    pub h: HiHead,
    #[varlen_array]
    pub e: [T3; *n as usize],
    #[varlen]
    pub w: Wrapped,
}
elem_struct! { NestHi, nest_hi, big = false,
    head { len n: u8 }
    tail { var h: HiHead, arr e: T3 = *n as usize, var w: Wrapped }
}


// No bytes at all, yet aligned: the header's own alignment is 1, its parts need 16.
#[define_varlen]
pub struct Void {
    #[varlen_array]
    pub z: [Z16; 3],
    #[varlen]
    pub t: FixedLen<TZ>,
}
elem_struct! { Void, void, big = false,
    head { }
    tail { arr z: Z16 = 3, var t: FixedLen<TZ> }
}

#[define_varlen]
pub struct ManyVar<L: Leaf = u16> where L: Default {
    #[controls_layout]
    pub n: u8,
    #[varlen]
    pub a: Str<u8>,
    pub(crate) f0: u8,
    #[varlen]
    pub b: Array<T3, u8>,
    #[varlen]
    pub c: FixedLen<L>,
    pub(crate) f1: T12,
    #[varlen_array]
    pub d: [L; *n as usize],
    #[varlen]
    pub e: Name9,
    #[varlen_array]
    pub(crate) f: [T2; 3],
    #[varlen]
    pub g: Grid,
}
elem_struct! { ManyVar<u64>, many_var, big = false,
    head { len n: u8, leaf f0: u8, leaf f1: T12 }
    tail { var a: Str<u8>, var b: Array<T3, u8>, var c: FixedLen<u64>, arr d: u64 = *n as usize, var e: Name9, arr f: T2 = 3, var g: Grid }
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct Name9(pub Str<u8>);

    with init: pub struct Name9Init<_>(pub _);
    with inner_ref: pub fn as_str(&self) -> &_;
    with inner_mut: pub fn as_str_mut(self: _) -> _;
}
elem_newtype!(Name9, Name9Init, Str<u8>, as_str, as_str_mut, n);

types! {
    Void, P2z, ManyVar<u64>, Wrapped, Mixed, Grid, HiHead, Nest, NestHi,
}
