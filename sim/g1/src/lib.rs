//! Element types, group 1.
#![allow(unused_imports)]
use std::mem::{align_of, size_of};
use std::pin::Pin;
use varlen::define_varlen;
use varlen::define_varlen_newtype;
use varlen::impl_initializer_as_newtype;
use varlen::prelude::*;
use varlen_sim_core::elem::*;
use varlen_sim_core::leaf::*;
use varlen_sim_core::rt::*;
use varlen_sim_core::tuples::*;
use varlen_sim_core::{caps, elem_newtype, elem_struct, elem_tup, types};


types! {
    FixedLen<u64>, FixedLen<T8>, FixedLen<T3>, FixedLen<T64>, FixedLen<TZ>, FixedLen<()>, FixedLen<Z16>, FixedLen<P32>, FixedLen<[u8; 3]>, Array<T8, usize>, Array<T3, u8>, Array<T16, u16>, Array<T2, u32>,
}
