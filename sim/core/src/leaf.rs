//! Leaf values: tracked tokens of many sizes and alignments, and plain data.

use crate::rt::*;
use std::marker::PhantomData;
use std::mem::MaybeUninit;

/// Word encodings in a flattened value.
pub const TOKW: u64 = 1 << 63; // actual:   TOKW | instance id
pub const PAYW: u64 = 1 << 62; // expected: PAYW | payload
pub const TZW: u64 = 1 << 61; // zero-sized token
pub const NCW: u64 = 1 << 60; // counts how often it was cloned

/// The word a clone of something reading `w` reads as (values other than tokens).
pub fn clone_word(w: u64) -> u64 {
    if w >> 60 == 1 {
        w & !0xffff_0000_0000 | (w + (1 << 32)) & 0xffff_0000_0000
    } else {
        w
    }
}

pub trait Leaf: Sized + Clone + Default + 'static {
    const NAME: &'static str;
    const TOK: bool;
    const COPY: bool = false;
    /// build from a raw payload
    fn make(p: u32) -> Self;
    /// the word a value built from payload `p` is expected to read as
    fn pw(p: u32) -> u64;
    /// what it reads as; None: not a value at all
    fn word(&self) -> Option<u64>;
    fn tid(&self) -> Option<u32> {
        None
    }
    /// `CopyFrom(src)` where the type allows it
    fn copy_from(_src: &[Self], _dst: &mut [MaybeUninit<Self>]) {
        unreachable!()
    }
}

const DEFAULT_PAYLOAD: u32 = 0xDEF;
pub fn default_payload() -> u32 {
    DEFAULT_PAYLOAD
}

macro_rules! tok {
    ($(#[$a:meta])* $n:ident($f:ty), $enc:expr, $dec:expr) => {
        $(#[$a])*
        pub struct $n(pub $f);
        impl $n {
            fn id(&self) -> Option<u32> {
                let d: fn(&$f) -> Option<u32> = $dec;
                d(&self.0)
            }
            fn of(id: u32) -> Self {
                let e: fn(u32) -> $f = $enc;
                $n(e(id))
            }
        }
        impl Leaf for $n {
            const NAME: &'static str = stringify!($n);
            const TOK: bool = true;
            fn make(p: u32) -> Self {
                let _g = Harness::enter();
                $n::of(new_tok(p))
            }
            fn pw(p: u32) -> u64 {
                PAYW | p as u64
            }
            fn word(&self) -> Option<u64> {
                let id = self.id()?;
                is_live(id).then_some(TOKW | id as u64)
            }
            fn tid(&self) -> Option<u32> {
                self.id()
            }
        }
        impl Clone for $n {
            fn clone(&self) -> Self {
                $n::of(tok_clone(self.id(), stringify!($n)))
            }
        }
        impl Default for $n {
            fn default() -> Self {
                let _g = Harness::enter();
                cb_point();
                let t = $n::of(new_tok(default_payload()));
                consume(&[t.id().unwrap()]);
                t
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                tok_drop(self.id(), stringify!($n));
            }
        }
    };
}

fn fold8(x: u64) -> u8 {
    let x = x.wrapping_mul(0x9E3779B97F4A7C15);
    (x >> 56) as u8
}
fn w(id: u32, k: u64) -> u64 {
    (id as u64 ^ (k << 40)).wrapping_mul(0xD6E8FEB86659FD93) ^ k
}

tok!(T8(u64), |id| (id as u64) | ((!id as u64) << 32), |x| {
    let id = *x as u32;
    ((*x >> 32) as u32 == !id).then_some(id)
});
tok!(T2(u16), |id| id as u16, |x| Some(*x as u32));
tok!(T3([u8; 3]), |id| [id as u8, (id >> 8) as u8, fold8(id as u64)], |x| {
    let id = x[0] as u32 | (x[1] as u32) << 8;
    (fold8(id as u64) == x[2]).then_some(id)
});
tok!(T12([u32; 3]), |id| [id, id ^ 0xA5A5_0F0F, !id], |x| {
    (x[1] == x[0] ^ 0xA5A5_0F0F && x[2] == !x[0]).then_some(x[0])
});
tok!(T40([u64; 5]), |id| [id as u64, w(id, 1), w(id, 2), w(id, 3), w(id, 4)], |x| {
    let id = x[0] as u32;
    (x[0] >> 32 == 0 && (1..5).all(|k| x[k] == w(id, k as u64))).then_some(id)
});
tok!(#[repr(align(16))] T16([u64; 2]), |id| [id as u64, w(id, 9)], |x| {
    let id = x[0] as u32;
    (x[0] >> 32 == 0 && x[1] == w(id, 9)).then_some(id)
});
tok!(#[repr(align(64))] T64([u64; 8]),
    |id| [id as u64, w(id, 1), w(id, 2), w(id, 3), w(id, 4), w(id, 5), w(id, 6), w(id, 7)], |x| {
    let id = x[0] as u32;
    (x[0] >> 32 == 0 && (1..8).all(|k| x[k] == w(id, k as u64))).then_some(id)
});

tok!(#[repr(align(512))] T512([u64; 64]),
    |id| {
        let mut a = [0; 64];
        a[0] = id as u64;
        for k in 1..64 {
            a[k] = w(id, k as u64);
        }
        a
    }, |x| {
    let id = x[0] as u32;
    (x[0] >> 32 == 0 && (1..64).all(|k| x[k] == w(id, k as u64))).then_some(id)
});

/// Zero-sized value with a destructor: only countable.
pub struct TZ;
impl Leaf for TZ {
    const NAME: &'static str = "TZ";
    const TOK: bool = true;
    fn make(_p: u32) -> Self {
        let _g = Harness::enter();
        tz_new();
        TZ
    }
    fn pw(_p: u32) -> u64 {
        TZW
    }
    fn word(&self) -> Option<u64> {
        Some(TZW)
    }
}
impl Clone for TZ {
    fn clone(&self) -> Self {
        let _g = Harness::enter();
        cb_point();
        tz_new();
        TZ
    }
}
impl Default for TZ {
    fn default() -> Self {
        let _g = Harness::enter();
        cb_point();
        tz_new();
        TZ
    }
}
impl Drop for TZ {
    fn drop(&mut self) {
        tz_drop();
    }
}

macro_rules! pod {
    ($t:ty, $mk:expr, $wd:expr) => {
        impl Leaf for $t {
            const NAME: &'static str = stringify!($t);
            const TOK: bool = false;
            const COPY: bool = true;
            fn make(p: u32) -> Self {
                let f: fn(u32) -> $t = $mk;
                f(p)
            }
            fn pw(p: u32) -> u64 {
                Self::make(p).word().unwrap()
            }
            fn word(&self) -> Option<u64> {
                let f: fn(&$t) -> u64 = $wd;
                Some(f(self))
            }
            fn copy_from(src: &[Self], dst: &mut [MaybeUninit<Self>]) {
                varlen::array_init::ArrayInitializer::initialize(varlen::array_init::CopyFrom(src), dst)
            }
        }
    };
}
const M60: u64 = (1 << 60) - 1;
pod!(u8, |p| p as u8, |x| *x as u64);
pod!(u16, |p| p as u16, |x| *x as u64);
pod!(u32, |p| p, |x| *x as u64);
pod!(u64, |p| (p as u64).wrapping_mul(0x1_0000_0001), |x| {
    // keep the top bits free for tags, but let every byte matter
    (*x ^ (*x >> 60)) & M60
});
pod!(u128, |p| (p as u128).wrapping_mul(0x1_0000_0001_0000_0001_0000_0001), |x| {
    (((*x >> 64) as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ *x as u64) & M60
});
pod!([u8; 3], |p| [p as u8, (p >> 8) as u8, (p >> 16) as u8], |x| {
    x[0] as u64 | (x[1] as u64) << 8 | (x[2] as u64) << 16
});
pod!((), |_| (), |_| 0);

/// A byte that is never zero.
#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct Nz(pub u8);
impl Default for Nz {
    fn default() -> Nz {
        Nz(1)
    }
}
pod!(Nz, |p| Nz(p as u8 | 1), |x| x.0 as u64);

/// An over-aligned plain value.
#[derive(Clone, Copy, Default)]
#[repr(align(32))]
pub struct P32(pub u64);
pod!(P32, |p| P32((p as u64) << 3 | 5), |x| x.0 & M60);
/// The largest alignments there are in practice.
#[derive(Clone, Copy, Default)]
#[repr(align(1024))]
pub struct P1024(pub u64);
pod!(P1024, |p| P1024((p as u64) << 3 | 1), |x| x.0 & M60);
#[derive(Clone, Copy, Default)]
#[repr(align(4096))]
pub struct Z4096;
pod!(Z4096, |_| Z4096, |_| 5);
/// Zero-sized but aligned.
#[derive(Clone, Copy, Default)]
#[repr(align(16))]
pub struct Z16;
pod!(Z16, |_| Z16, |_| 3);

/// No destructor, not `Copy`: its `Clone` is observable and may panic.
pub struct NC {
    p: u32,
    gen: u16,
    sum: u16,
}
impl NC {
    fn of(p: u32, gen: u16) -> NC {
        NC { p, gen, sum: (p.wrapping_mul(0x9E3779B9) >> 16) as u16 ^ gen }
    }
}
impl Leaf for NC {
    const NAME: &'static str = "NC";
    const TOK: bool = false;
    fn make(p: u32) -> Self {
        NC::of(p, 0)
    }
    fn pw(p: u32) -> u64 {
        NCW | p as u64
    }
    fn word(&self) -> Option<u64> {
        (NC::of(self.p, self.gen).sum == self.sum).then_some(NCW | (self.gen as u64) << 32 | self.p as u64)
    }
}
impl Clone for NC {
    fn clone(&self) -> Self {
        let _g = Harness::enter();
        if self.word().is_none() {
            viol("use-dead", "bytes that are no NC are cloned as one");
            abort_run();
        }
        cb_point();
        NC::of(self.p, self.gen.wrapping_add(1))
    }
}
impl Default for NC {
    fn default() -> Self {
        let _g = Harness::enter();
        cb_point();
        NC::of(default_payload(), 0)
    }
}
/// A byte-array length: makes a header without alignment that can still ask for any size.
#[derive(Clone, Copy)]
pub struct LenB(pub [u8; 8]);
impl LenB {
    pub const fn get(&self) -> usize {
        u64::from_le_bytes(self.0) as usize
    }
}

/// `N` bytes: four of payload, repeated.
#[derive(Clone, Copy)]
pub struct Bytes<const N: usize>([u8; N]);
impl<const N: usize> Default for Bytes<N> {
    fn default() -> Self {
        Bytes([0; N])
    }
}
impl<const N: usize> Bytes<N> {
    fn of(p: u32) -> Self {
        let mut b = [0; N];
        for (i, x) in b.iter_mut().enumerate() {
            *x = p.to_le_bytes()[i % 4] ^ (i as u8 / 4);
        }
        Bytes(b)
    }
}
impl<const N: usize> Leaf for Bytes<N> {
    const NAME: &'static str = "Bytes";
    const TOK: bool = false;
    const COPY: bool = true;
    fn make(p: u32) -> Self {
        Bytes::of(p)
    }
    fn pw(p: u32) -> u64 {
        Bytes::<N>::of(p).word().unwrap()
    }
    fn word(&self) -> Option<u64> {
        Some(self.0.iter().fold(7u64, |h, &b| h.wrapping_mul(0x100000001b3) ^ b as u64) & ((1 << 60) - 1))
    }
    fn copy_from(src: &[Self], dst: &mut [MaybeUninit<Self>]) {
        varlen::array_init::ArrayInitializer::initialize(varlen::array_init::CopyFrom(src), dst)
    }
}

/// Plain data with a lifetime.
#[derive(Clone, Copy, Default)]
pub struct Bor<'a>(u32, PhantomData<&'a u8>);
impl Leaf for Bor<'static> {
    const NAME: &'static str = "Bor";
    const TOK: bool = false;
    const COPY: bool = true;
    fn make(p: u32) -> Self {
        Bor(!p, PhantomData)
    }
    fn pw(p: u32) -> u64 {
        p as u64
    }
    fn word(&self) -> Option<u64> {
        Some(!self.0 as u64)
    }
    fn copy_from(src: &[Self], dst: &mut [MaybeUninit<Self>]) {
        varlen::array_init::ArrayInitializer::initialize(varlen::array_init::CopyFrom(src), dst)
    }
}
