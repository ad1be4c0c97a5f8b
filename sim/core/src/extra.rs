//! Exactly one thing inside each value needs destruction (or cloning), reached through every kind of wrapper;
//! and values of alignment one that can ask for any size.
use crate::elem::*;
use crate::leaf::*;
use crate::{caps, elem_newtype, elem_struct, elem_tup};
use std::mem::{align_of, size_of};
use std::pin::Pin;
use varlen::define_varlen;
use varlen::define_varlen_newtype;
use varlen::prelude::*;

/// A layout-controlling field that scrambles its own length when it is destroyed.
pub struct Own1 {
    pub n: usize,
    pub t: T3,
}
impl Drop for Own1 {
    fn drop(&mut self) {
        let n = self.n;
        unsafe { std::ptr::write_volatile(&mut self.n, if n & 1 == 0 { n + 7 } else { 0 }) }
    }
}
impl Own1 {
    pub fn gen(g: &mut Gen) -> Own1 {
        let n = g.len(5);
        g.words.push(n as u64);
        Own1 { n, t: g.make::<T3>() }
    }
    pub fn hwalk(&self, s: &mut Sink) {
        s.inner_raw(&self.n, |n| *n as u64);
        s.inner_leaf(&self.t);
    }
}

#[define_varlen]
pub struct KHead {
    pub t: T3,
    #[varlen_array]
    pub b: [u8; 3],
}
elem_struct! { KHead, k_head, big = false,
    head { leaf t: T3 }
    tail { arr b: u8 = 3 }
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct KHeadW(pub KHead);

    with init: pub struct KHeadWInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
elem_newtype!(KHeadW, KHeadWInit, KHead, inner, inner_mut, n);
#[define_varlen]
pub struct KHeadS {
    pub k: u8,
    #[varlen]
    pub v: KHead,
    #[varlen]
    pub s: Str<u8>,
}
elem_struct! { KHeadS, k_head_s, big = false,
    head { leaf k: u8 }
    tail { var v: KHead, var s: Str<u8> }
}
pub type KHeadP = Tup2<KHead, Str<u8>>;
pub type KHeadQ = Tup3<Str<u8>, FixedLen<u8>, KHeadW>;
elem_tup!(KHeadP, Tup2, tup2, n, a: KHead, b: Str<u8>);
elem_tup!(KHeadQ, Tup3, tup3, n, a: Str<u8>, b: FixedLen<u8>, d: KHeadW);

#[define_varlen]
pub struct KCtl {
    #[controls_layout]
    pub c: Own1,
    #[varlen_array]
    pub b: [u16; c.n],
}
elem_struct! { KCtl, k_ctl, big = false,
    head { ctl c: Own1 }
    tail { arr b: u16 = c.n }
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct KCtlW(pub KCtl);

    with init: pub struct KCtlWInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
elem_newtype!(KCtlW, KCtlWInit, KCtl, inner, inner_mut, n);
#[define_varlen]
pub struct KCtlS {
    pub k: u8,
    #[varlen]
    pub v: KCtl,
    #[varlen]
    pub s: Str<u8>,
}
elem_struct! { KCtlS, k_ctl_s, big = false,
    head { leaf k: u8 }
    tail { var v: KCtl, var s: Str<u8> }
}
pub type KCtlP = Tup2<KCtl, Str<u8>>;
pub type KCtlQ = Tup3<Str<u8>, FixedLen<u8>, KCtlW>;
elem_tup!(KCtlP, Tup2, tup2, n, a: KCtl, b: Str<u8>);
elem_tup!(KCtlQ, Tup3, tup3, n, a: Str<u8>, b: FixedLen<u8>, d: KCtlW);

#[define_varlen]
pub struct KArr {
    #[controls_layout]
    pub n: u8,
    #[varlen_array]
    pub b: [T2; *n as usize],
}
elem_struct! { KArr, k_arr, big = false,
    head { len n: u8 }
    tail { arr b: T2 = *n as usize }
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct KArrW(pub KArr);

    with init: pub struct KArrWInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
elem_newtype!(KArrW, KArrWInit, KArr, inner, inner_mut, n);
#[define_varlen]
pub struct KArrS {
    pub k: u8,
    #[varlen]
    pub v: KArr,
    #[varlen]
    pub s: Str<u8>,
}
elem_struct! { KArrS, k_arr_s, big = false,
    head { leaf k: u8 }
    tail { var v: KArr, var s: Str<u8> }
}
pub type KArrP = Tup2<KArr, Str<u8>>;
pub type KArrQ = Tup3<Str<u8>, FixedLen<u8>, KArrW>;
elem_tup!(KArrP, Tup2, tup2, n, a: KArr, b: Str<u8>);
elem_tup!(KArrQ, Tup3, tup3, n, a: Str<u8>, b: FixedLen<u8>, d: KArrW);

#[define_varlen]
pub struct KVar {
    #[varlen]
    pub s: Str<u8>,
    #[varlen]
    pub a: Array<T8, u8>,
}
elem_struct! { KVar, k_var, big = false,
    head { }
    tail { var s: Str<u8>, var a: Array<T8, u8> }
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct KVarW(pub KVar);

    with init: pub struct KVarWInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
elem_newtype!(KVarW, KVarWInit, KVar, inner, inner_mut, n);
#[define_varlen]
pub struct KVarS {
    pub k: u8,
    #[varlen]
    pub v: KVar,
    #[varlen]
    pub s: Str<u8>,
}
elem_struct! { KVarS, k_var_s, big = false,
    head { leaf k: u8 }
    tail { var v: KVar, var s: Str<u8> }
}
pub type KVarP = Tup2<KVar, Str<u8>>;
pub type KVarQ = Tup3<Str<u8>, FixedLen<u8>, KVarW>;
elem_tup!(KVarP, Tup2, tup2, n, a: KVar, b: Str<u8>);
elem_tup!(KVarQ, Tup3, tup3, n, a: Str<u8>, b: FixedLen<u8>, d: KVarW);

// Observable clones without destructors.
pub type NcTup = Tup2<Array<NC, u8>, FixedLen<NC>>;
elem_tup!(NcTup, Tup2, tup2, c, a: Array<NC, u8>, b: FixedLen<NC>);
pub type NcMix = Tup3<Str<u8>, Array<NC, u16>, Array<u8, u8>>;
elem_tup!(NcMix, Tup3, tup3, c, a: Str<u8>, b: Array<NC, u16>, d: Array<u8, u8>);
#[define_varlen]
pub struct NcStruct {
    pub x: NC,
    #[controls_layout]
    pub n: u8,
    #[varlen_array]
    pub a: [NC; *n as usize],
    #[varlen]
    pub v: NcTup,
}
elem_struct! { NcStruct, nc_struct, big = false,
    head { leaf x: NC, len n: u8 }
    tail { arr a: NC = *n as usize, var v: NcTup }
}

// Alignment one throughout, and yet able to ask for any size.
#[define_varlen]
pub struct Huge1 {
    #[controls_layout]
    pub n: LenB,
    #[varlen_array]
    pub arr: [u8; n.get()],
}
elem_struct! { Huge1, huge_1, big = true,
    head { lnb n: LenB }
    tail { arr arr: u8 = n.get() }
}
#[define_varlen]
pub struct Huge1Str {
    #[controls_layout]
    pub n: LenB,
    #[controls_layout]
    pub m: LenB,
    #[varlen]
    pub s: Str<u8>,
    #[varlen_array]
    pub arr: [u8; n.get()],
    #[varlen_array]
    pub brr: [[u8; 3]; m.get()],
}
elem_struct! { Huge1Str, huge_1_str, big = true,
    head { lnb n: LenB, lnb m: LenB }
    tail { var s: Str<u8>, arr arr: u8 = n.get(), arr brr: [u8; 3] = m.get() }
}
/// An array that needs padding after one that may end anywhere.
#[define_varlen]
pub struct HugePad {
    #[controls_layout]
    pub n: LenB,
    #[controls_layout]
    pub m: LenB,
    #[varlen_array]
    pub arr: [u8; n.get()],
    #[varlen_array]
    pub pad: [T64; m.get()],
    #[varlen]
    pub f: FixedLen<u64>,
}
elem_struct! { HugePad, huge_pad, big = true,
    head { lnb n: LenB, lnb m: LenB }
    tail { arr arr: u8 = n.get(), arr pad: T64 = m.get(), var f: FixedLen<u64> }
}
pub type HugeTup = Tup2<Huge1, Str<u8>>;
elem_tup!(HugeTup, Tup2, tup2, n, a: Huge1, b: Str<u8>);

