//! Element types, group 6.
#![allow(unused_imports)]
use std::mem::{align_of, size_of};
use std::pin::Pin;
use varlen::define_varlen;
use varlen::define_varlen_newtype;
use varlen::impl_initializer_as_newtype;
use varlen::prelude::*;
use varlen_sim_core::elem::*;
use varlen_sim_core::leaf::*;
use varlen_sim_core::rt::*;
use varlen_sim_core::tuples::*;
use varlen_sim_core::{caps, elem_newtype, elem_struct, elem_tup, types};

// ------------------------------------------------------------ newtypes

define_varlen_newtype! {
    #[repr(transparent)]
    pub struct Toks<(Len: ArrayLen = usize)>(Array<T16, Len>);

    with signature: impl<(Len: ArrayLen)> Toks<(Len)> { _ }
    with init: pub struct ToksInit<_>(pub _);
    with inner_ref: pub fn toks(&self) -> &_;
    with inner_mut: pub fn toks_mut(self: _) -> _;
}
/// Cloning a newtype, written the way `Str` does it.
pub struct ToksCloner<'a, Len: ArrayLen>(ToksInit<<Array<T16, Len> as VClone<'a>>::Cloner>);
impl_initializer_as_newtype! {
    impl<('a), (Len: ArrayLen)> Initializer<Toks<Len>> for ToksCloner<'a, Len> { _ }
}
impl<'a, Len: ArrayLen> VClone<'a> for Toks<Len> {
    type Cloner = ToksCloner<'a, Len>;
    fn vclone(&'a self) -> Self::Cloner {
        ToksCloner(ToksInit(self.toks().vclone()))
    }
}
elem_newtype!(Toks<u16>, ToksInit, Array<T16, u16>, toks, toks_mut, c);

define_varlen_newtype! {
    #[repr(transparent)]
    pub struct Name(pub Str<u8>);

    with init: pub struct NameInit<_>(pub _);
    with inner_ref: pub fn as_str(&self) -> &_;
    with inner_mut: pub fn as_str_mut(self: _) -> _;
}
elem_newtype!(Name, NameInit, Str<u8>, as_str, as_str_mut, n);


#[define_varlen]
pub struct HeadDrop {
    pub t: T40,
    #[controls_layout]
    pub n: u8,
    #[varlen_array]
    pub bytes: [u8; *n as usize],
}
elem_struct! { HeadDrop, head_drop, big = false,
    head { leaf t: T40, len n: u8 }
    tail { arr bytes: u8 = *n as usize }
}


#[define_varlen]
pub struct Combo {
    #[varlen]
    pub a: Name,
    pub k: u8,
    #[varlen]
    pub b: HeadDrop,
    #[varlen]
    pub d: Toks<u16>,
}
elem_struct! { Combo, combo, big = false,
    head { leaf k: u8 }
    tail { var a: Name, var b: HeadDrop, var d: Toks<u16> }
}

types! {
    Toks<u16>, Name, HeadDrop, Combo,
}
