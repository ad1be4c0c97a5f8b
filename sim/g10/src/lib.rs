//! Element types, group 10: exactly one thing inside each value needs destruction (or cloning), reached through every kind of wrapper.
#![allow(unused_imports)]
use std::mem::{align_of, size_of};
use std::pin::Pin;
use varlen::define_varlen;
use varlen::define_varlen_newtype;
use varlen::impl_initializer_as_newtype;
use varlen::prelude::*;
use varlen_sim_core::elem::*;
use varlen_sim_core::extra::*;
use varlen_sim_core::leaf::*;
use varlen_sim_core::rt::*;
use varlen_sim_core::tuples::*;
use varlen_sim_core::{caps, elem_newtype, elem_struct, elem_tup, types};

// ------------------------------------------------------------ alignments of pages

#[define_varlen]
pub struct Page {
    pub k: u8,
    #[controls_layout]
    pub n: u8,
    pub t: T3,
    #[varlen_array]
    pub a: [T512; *n as usize / 2],
    #[varlen]
    pub s: Str<u8>,
    #[varlen]
    pub p: Array<P1024, u16>,
    #[varlen_array]
    pub z: [Z4096; *n as usize],
}
elem_struct! { Page, page, big = false,
    head { leaf k: u8, len n: u8, leaf t: T3 }
    tail { arr a: T512 = *n as usize / 2, var s: Str<u8>, var p: Array<P1024, u16>, arr z: Z4096 = *n as usize }
    ctl {
        const CTL: bool = true;
        fn ctl(self: Pin<&mut Self>, g: &mut Gen, arm: &mut dyn FnMut()) -> Option<CtlRes> {
            let n0 = self.n;
            let n = match g.rng.below(4) { 0 => n0, 1 => n0 ^ 1, 2 => n0.wrapping_add(2), _ => g.len(8) as u8 };
            arm();
            let got_ok = calm(|| self.try_set_layout_controllers(page::LayoutControllers { n }).is_ok());
            Some(CtlRes { expect_ok: n == n0, panics: false, got_ok, new: vec![(1, n as u64)] })
        }
    }
}

types! {
    FixedLen<T512>, FixedLen<Z4096>, Array<T512, u8>, Array<P1024, u16>, Array<Z4096, u8>, Page, PageTup,
    KHead, KHeadW, KHeadS, KHeadP, KHeadQ, KCtl, KCtlW, KCtlS, KCtlP, KCtlQ, KArr, KArrW, KArrS, KArrP, KArrQ, KVar, KVarW, KVarS, KVarP, KVarQ, FixedLen<NC>, Array<NC, u8>, NcTup, NcMix, NcStruct, Huge1, Huge1Str, HugePad, HugeTup,
}
