//! Element types, group 2.
#![allow(unused_imports)]
use std::mem::{align_of, size_of};
use std::pin::Pin;
use varlen::define_varlen;
use varlen::define_varlen_newtype;
use varlen::impl_initializer_as_newtype;
use varlen::prelude::*;
use varlen_sim_core::elem::*;
use varlen_sim_core::leaf::*;
use varlen_sim_core::rt::*;
use varlen_sim_core::tuples::*;
use varlen_sim_core::{caps, elem_newtype, elem_struct, elem_tup, types};


types! {
    Array<T12, u64>, Array<TZ, u8>, Array<TZ, usize>, Array<T64, u8>, Array<T40, u8>, Array<u16, u64>, Array<u8, u8>, Array<u128, u8>, Array<u64, usize>, Array<u32, u32>, Array<(), u32>, Array<(), u8>,
}
