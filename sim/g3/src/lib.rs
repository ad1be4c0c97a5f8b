//! Element types, group 3.
#![allow(unused_imports)]
use std::mem::{align_of, size_of};
use std::pin::Pin;
use varlen::define_varlen;
use varlen::define_varlen_newtype;
use varlen::impl_initializer_as_newtype;
use varlen::prelude::*;
use varlen_sim_core::elem::*;
use varlen_sim_core::leaf::*;
use varlen_sim_core::rt::*;
use varlen_sim_core::tuples::*;
use varlen_sim_core::{caps, elem_newtype, elem_struct, elem_tup, types};


types! {
    Array<P32, u16>, Array<u8, u16>, Array<Z16, u8>, Str<usize>, Str<u8>, Str<u16>, Str<u32>, Str<u64>, P2a, P2b, P2c, P2d, P2big,
}
