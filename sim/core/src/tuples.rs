//! Tuples.

use crate::elem::*;
use crate::leaf::*;
use crate::{caps, elem_tup};
use std::pin::Pin;
use varlen::prelude::*;

// ------------------------------------------------------------ tuples

pub type P2a = Tup2<FixedLen<u16>, Str<u8>>;
pub type P2b = Tup2<Array<u8, u8>, FixedLen<T8>>; // only the last needs dropping
pub type P2c = Tup2<FixedLen<TZ>, FixedLen<TZ>>;
pub type P2d = Tup2<Array<T16, u8>, Str<u16>>; // only the first needs dropping
pub type P2big = Tup2<Str<u8>, Array<u64, usize>>;
pub type P3a = Tup3<FixedLen<T3>, Array<u64, u16>, Str<u8>>;
pub type P3b = Tup3<Str<u8>, Array<T3, u8>, Array<u8, u8>>; // only the middle
pub type P3c = Tup3<Str<u8>, Array<u8, u8>, Array<T12, u64>>; // only the last
pub type P4a = Tup4<Str<u8>, Array<T16, u8>, FixedLen<T2>, Array<u8, u16>>;
pub type P4b = Tup4<Array<u8, u8>, Str<u8>, Array<u16, u64>, Array<T3, u8>>; // only the last
pub type P4c = Tup4<Array<u8, u8>, Str<u8>, Array<T8, u8>, Str<u32>>; // only the third
pub type P5a = Tup5<FixedLen<u8>, Str<u16>, Array<T8, usize>, FixedLen<T64>, Array<T3, u8>>;
pub type P5b = Tup5<Array<u8, u8>, Str<u8>, Array<u128, u8>, Str<u32>, Array<T2, u32>>; // only the last
pub type P5c = Tup5<Str<u8>, Array<u8, u8>, Array<u16, u64>, Array<T40, u8>, Str<u8>>; // only the fourth
pub type P5pod = Tup5<FixedLen<u8>, Array<P32, u16>, Str<u8>, FixedLen<u64>, Array<[u8; 3], u16>>;
pub type Deep = Tup2<Tup2<Str<u8>, Array<T8, u8>>, Tup3<FixedLen<u8>, Array<T3, u16>, FixedLen<T64>>>;
pub type P2z = Tup2<FixedLen<TZ>, FixedLen<Z16>>; // no bytes, alignment 16
pub type DeepA = Tup2<Str<u8>, Array<T8, u8>>;
pub type DeepB = Tup3<FixedLen<u8>, Array<T3, u16>, FixedLen<T64>>;

elem_tup!(P2a, Tup2, tup2, cc, a: FixedLen<u16>, b: Str<u8>);
elem_tup!(P2b, Tup2, tup2, c, a: Array<u8, u8>, b: FixedLen<T8>);
elem_tup!(P2c, Tup2, tup2, c, a: FixedLen<TZ>, b: FixedLen<TZ>);
elem_tup!(P2d, Tup2, tup2, c, a: Array<T16, u8>, b: Str<u16>);
elem_tup!(P2big, Tup2, tup2, cc, a: Str<u8>, b: Array<u64, usize>);
elem_tup!(P3a, Tup3, tup3, c, a: FixedLen<T3>, b: Array<u64, u16>, d: Str<u8>);
elem_tup!(P3b, Tup3, tup3, c, a: Str<u8>, b: Array<T3, u8>, d: Array<u8, u8>);
elem_tup!(P3c, Tup3, tup3, c, a: Str<u8>, b: Array<u8, u8>, d: Array<T12, u64>);
elem_tup!(P4a, Tup4, tup4, c, a: Str<u8>, b: Array<T16, u8>, d: FixedLen<T2>, e: Array<u8, u16>);
elem_tup!(P4b, Tup4, tup4, c, a: Array<u8, u8>, b: Str<u8>, d: Array<u16, u64>, e: Array<T3, u8>);
elem_tup!(P4c, Tup4, tup4, c, a: Array<u8, u8>, b: Str<u8>, d: Array<T8, u8>, e: Str<u32>);
elem_tup!(P5a, Tup5, tup5, c, a: FixedLen<u8>, b: Str<u16>, d: Array<T8, usize>, e: FixedLen<T64>, f: Array<T3, u8>);
elem_tup!(P5b, Tup5, tup5, c, a: Array<u8, u8>, b: Str<u8>, d: Array<u128, u8>, e: Str<u32>, f: Array<T2, u32>);
elem_tup!(P5c, Tup5, tup5, c, a: Str<u8>, b: Array<u8, u8>, d: Array<u16, u64>, e: Array<T40, u8>, f: Str<u8>);
elem_tup!(P5pod, Tup5, tup5, cc, a: FixedLen<u8>, b: Array<P32, u16>, d: Str<u8>, e: FixedLen<u64>, f: Array<[u8; 3], u16>);
elem_tup!(DeepA, Tup2, tup2, c, a: Str<u8>, b: Array<T8, u8>);
elem_tup!(DeepB, Tup3, tup3, c, a: FixedLen<u8>, b: Array<T3, u16>, d: FixedLen<T64>);
elem_tup!(Deep, Tup2, tup2, c, a: DeepA, b: DeepB);

elem_tup!(P2z, Tup2, tup2, c, a: FixedLen<TZ>, b: FixedLen<Z16>);

pub type PageTup = Tup3<Str<u8>, FixedLen<T512>, Array<T3, u8>>;
elem_tup!(PageTup, Tup3, tup3, c, a: Str<u8>, b: FixedLen<T512>, d: Array<T3, u8>);
