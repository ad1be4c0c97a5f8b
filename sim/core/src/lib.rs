#![feature(alloc_error_hook)]
#![allow(static_mut_refs)]
pub mod again;
pub mod base;
pub mod elem;
pub mod extra;
pub mod hand;
pub mod heap;
pub mod leaf;
pub mod many;
pub mod ops;
pub mod rt;
pub mod shared;
pub mod tuples;
pub mod vast;
pub mod wide;

#[macro_export]
macro_rules! types {
    ($($t:ty),* $(,)?) => {
        pub static TYPES: &[&(dyn $crate::ops::TypeOps + Sync)] = &[
            $( &$crate::ops::Ops::<$t>(std::marker::PhantomData, stringify!($t)) ),*
        ];
    };
}
