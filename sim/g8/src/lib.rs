//! Element types, group 8.
#![allow(unused_imports)]
use std::mem::{align_of, size_of};
use std::pin::Pin;
use varlen::define_varlen;
use varlen::define_varlen_newtype;
use varlen::impl_initializer_as_newtype;
use varlen::prelude::*;
use varlen_sim_core::elem::*;
use varlen_sim_core::leaf::*;
use varlen_sim_core::rt::*;
use varlen_sim_core::tuples::*;
use varlen_sim_core::{caps, elem_newtype, elem_struct, elem_tup, types};

#[define_varlen]
pub struct Generic<T: Leaf = u16> {
    #[controls_layout]
    pub n: usize,
    #[varlen_array]
    pub arr: [T; *n],
    #[varlen]
    pub more: FixedLen<T>,
}
elem_struct! { Generic<T12>, generic, big = true,
    head { len n: usize }
    tail { arr arr: T12 = *n, var more: FixedLen<T12> }
}
elem_struct! { Generic<u64>, generic, big = true,
    head { len n: usize }
    tail { arr arr: u64 = *n, var more: FixedLen<u64> }
}

#[define_varlen]
pub struct VarDrop {
    #[varlen]
    pub s: Str<u8>,
    #[varlen]
    pub f: FixedLen<T12>,
    #[varlen]
    pub z: FixedLen<TZ>,
}
elem_struct! { VarDrop, var_drop, big = false,
    head { }
    tail { var s: Str<u8>, var f: FixedLen<T12>, var z: FixedLen<TZ> }
}

#[define_varlen]
pub struct NoTail {
    pub a: T8,
    pub b: u8,
}
elem_struct! { NoTail, no_tail, big = false,
    head { leaf a: T8, leaf b: u8 }
    tail { }
}

#[define_varlen]
pub struct HiTail {
    #[controls_layout]
    pub n: u8,
    #[varlen_array]
    pub x: [u8; *n as usize],
    #[varlen_array]
    pub y: [T64; (*n as usize) / 4],
    #[varlen_array]
    pub z: [T16; (*n as usize) % 3],
}
elem_struct! { HiTail, hi_tail, big = false,
    head { len n: u8 }
    tail { arr x: u8 = *n as usize, arr y: T64 = (*n as usize) / 4, arr z: T16 = (*n as usize) % 3 }
}

#[define_varlen]
pub struct Big {
    #[controls_layout]
    pub n: u64,
    #[varlen_array]
    pub b: [u64; *n as usize],
    #[varlen]
    pub s: Str,
}
elem_struct! { Big, big, big = true,
    head { len n: u64 }
    tail { arr b: u64 = *n as usize, var s: Str }
}

#[define_varlen]
pub struct BigIn {
    pub t: T8,
    #[varlen]
    pub s: Str<u8>,
    #[varlen]
    pub a: Array<u32, u64>,
    #[varlen]
    pub l: P2big,
}
elem_struct! { BigIn, big_in, big = true,
    head { leaf t: T8 }
    tail { var s: Str<u8>, var a: Array<u32, u64>, var l: P2big }
}


types! {
    Generic<T12>, Generic<u64>, VarDrop, NoTail, HiTail, Big, BigIn,
}
