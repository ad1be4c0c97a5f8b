//! Element types, group 7.
#![allow(unused_imports)]
use std::mem::{align_of, size_of};
use std::pin::Pin;
use varlen::define_varlen;
use varlen::define_varlen_newtype;
use varlen::impl_initializer_as_newtype;
use varlen::prelude::*;
use varlen_sim_core::elem::*;
use varlen_sim_core::leaf::*;
use varlen_sim_core::rt::*;
use varlen_sim_core::tuples::*;
use varlen_sim_core::{caps, elem_newtype, elem_struct, elem_tup, types};

// ------------------------------------------------------------ structs

/// A layout-controlling field that owns something.
pub struct Ctl {
    pub n: usize,
    pub t: T8,
}
/// Whoever reads the length of a destroyed field reads nonsense.
impl Drop for Ctl {
    fn drop(&mut self) {
        let n = self.n;
        unsafe { std::ptr::write_volatile(&mut self.n, if n & 1 == 0 { n + 5 } else { 0 }) }
    }
}
impl Ctl {
    pub fn gen(g: &mut Gen) -> Ctl {
        let n = g.len(4);
        Ctl::with(g, n)
    }
    pub fn with(g: &mut Gen, n: usize) -> Ctl {
        g.words.push(n as u64);
        Ctl { n, t: g.make::<T8>() }
    }
    pub fn hwalk(&self, s: &mut Sink) {
        s.inner_raw(&self.n, |n| *n as u64);
        s.inner_leaf(&self.t);
    }
    fn word(&self) -> u64 {
        TOKW | self.t.tid().unwrap() as u64
    }
}

#[define_varlen]
#[repr(C)]
pub struct ReprC {
    pub a: u8,
    #[controls_layout]
    pub n: u16,
    pub b: u64,
    #[varlen_array]
    pub arr1: [T3; *n as usize],
    #[varlen_array]
    pub arr2: [u8; *n as usize + 1],
    #[varlen_array]
    pub arr3: [T16; (*n as usize) / 2],
}
elem_struct! { ReprC, repr_c, big = false,
    head { leaf a: u8, len n: u16, leaf b: u64 }
    tail { arr arr1: T3 = *n as usize, arr arr2: u8 = *n as usize + 1, arr arr3: T16 = (*n as usize) / 2 }
    ctl {
        const CTL: bool = true;
        fn ctl(self: Pin<&mut Self>, g: &mut Gen, arm: &mut dyn FnMut()) -> Option<CtlRes> {
            let old = self.n;
            let n = match g.rng.below(5) { 0 => old, 1 => old ^ 1, 3 => old ^ (1 << g.rng.below(16)), 2 => old.wrapping_add(1), _ => g.len(12) as u16 };
            let expect_ok = n == old;
            arm();
            let got_ok = calm(|| self.try_set_layout_controllers(repr_c::LayoutControllers { n }).is_ok());
            Some(CtlRes { expect_ok, panics: false, got_ok, new: vec![(1, n as u64)] })
        }
    }
}

#[define_varlen]
pub struct Owning {
    #[controls_layout]
    pub a: Ctl,
    pub mid: u32,
    #[controls_layout]
    pub b: Ctl,
    #[varlen_array]
    pub x: [T8; a.n * b.n],
    #[varlen_array]
    pub y: [u8; a.n + b.n],
}
elem_struct! { Owning, owning, big = false,
    head { ctl a: Ctl, leaf mid: u32, ctl b: Ctl }
    tail { arr x: T8 = a.n * b.n, arr y: u8 = a.n + b.n }
    ctl {
        const CTL: bool = true;
        fn ctl(self: Pin<&mut Self>, g: &mut Gen, arm: &mut dyn FnMut()) -> Option<CtlRes> {
            let (a0, b0) = (self.a.n, self.b.n);
            let (a, b) = match g.rng.below(7) {
                0 => (a0, b0),
                1 | 2 | 3 => (b0, a0),
                4 => (a0 + 1, b0),
                5 => (a0 + (1 << (8 << g.rng.below(3))), b0),
                _ => (g.len(4), g.len(4)),
            };
            let expect_ok = a * b == a0 * b0 && a + b == a0 + b0;
            let (a, b) = (Ctl::with(g, a), Ctl::with(g, b));
            let new = vec![(0, a.n as u64), (1, a.word()), (3, b.n as u64), (4, b.word())];
            arm();
            let got_ok = calm(|| self.try_set_layout_controllers(owning::LayoutControllers { a, b }).is_ok());
            Some(CtlRes { expect_ok, panics: false, got_ok, new })
        }
    }
}

#[define_varlen]
pub struct Three {
    #[controls_layout]
    pub a: Ctl,
    #[controls_layout]
    pub b: Ctl,
    #[controls_layout]
    pub k: u16,
    #[varlen]
    pub s: Str<u8>,
    #[varlen_array]
    pub x: [T3; a.n + b.n + (*k % 8) as usize],
    #[controls_layout]
    pub d: Ctl,
    #[varlen_array]
    pub y: [u16; d.n],
}
elem_struct! { Three, three, big = false,
    head { ctl a: Ctl, ctl b: Ctl, len k: u16, ctl d: Ctl }
    tail { var s: Str<u8>, arr x: T3 = a.n + b.n + (*k % 8) as usize, arr y: u16 = d.n }
    ctl {
        const CTL: bool = true;
        fn ctl(self: Pin<&mut Self>, g: &mut Gen, arm: &mut dyn FnMut()) -> Option<CtlRes> {
            let (a0, b0, k0, d0) = (self.a.n, self.b.n, self.k, self.d.n);
            let (a, b, k, d) = match g.rng.below(10) {
                0 => (a0, b0, k0, d0),
                1 => (b0, a0, k0.wrapping_add(8), d0),
                2 if b0 > 0 => (a0 + 1, b0 - 1, k0, d0),
                3 if a0 > 0 => (a0 - 1, b0 + 1, k0 & 7, d0),
                4 => (a0, b0, k0, d0 + 1),
                5 => (a0, b0, k0.wrapping_add(1), d0),
                7 => (a0, b0, k0, d0 ^ (1 << g.rng.below(60))),
                8 => (a0 + (1 << (8 << g.rng.below(3))), b0, k0, d0),
                6 if a0 + b0 + (k0 as usize % 8) < 8 => (0, 0, (a0 + b0) as u16 + k0 % 8, d0),
                _ => (g.len(4), g.len(4), g.len(12) as u16, g.len(4)),
            };
            let t = |a: usize, b: usize, k: u16| a + b + (k % 8) as usize;
            let expect_ok = t(a, b, k) == t(a0, b0, k0) && d == d0;
            let (a, b, d) = (Ctl::with(g, a), Ctl::with(g, b), Ctl::with(g, d));
            let new = vec![(0, a.n as u64), (1, a.word()), (2, b.n as u64), (3, b.word()), (4, k as u64),
                (5, d.n as u64), (6, d.word())];
            arm();
            let got_ok = calm(|| self.try_set_layout_controllers(three::LayoutControllers { a, b, k, d }).is_ok());
            Some(CtlRes { expect_ok, panics: false, got_ok, new })
        }
    }
}

#[define_varlen]
pub struct Mod4 {
    #[controls_layout]
    pub header: u64,
    #[varlen_array]
    pub arr: [T12; (*header % 4) as usize],
    pub rest: u16,
}
elem_struct! { Mod4, mod_4, big = false,
    head { len header: u64, leaf rest: u16 }
    tail { arr arr: T12 = (*header % 4) as usize }
    ctl {
        const CTL: bool = true;
        fn ctl(self: Pin<&mut Self>, g: &mut Gen, arm: &mut dyn FnMut()) -> Option<CtlRes> {
            let h0 = self.header;
            let header = match g.rng.below(3) { 0 => h0 ^ (4 * g.rng.below(1000)), 1 => h0 ^ (1 << g.rng.below(60)), _ => g.rng.below(64) };
            let expect_ok = header % 4 == h0 % 4;
            arm();
            let got_ok = calm(|| self.try_set_layout_controllers(mod_4::LayoutControllers { header }).is_ok());
            Some(CtlRes { expect_ok, panics: false, got_ok, new: vec![(0, header)] })
        }
    }
}

#[define_varlen]
pub struct CtlDrop {
    #[controls_layout]
    pub c: Ctl,
    #[varlen_array]
    pub b: [u8; c.n],
}
elem_struct! { CtlDrop, ctl_drop, big = false,
    head { ctl c: Ctl }
    tail { arr b: u8 = c.n }
    ctl {
        const CTL: bool = true;
        fn ctl(self: Pin<&mut Self>, g: &mut Gen, arm: &mut dyn FnMut()) -> Option<CtlRes> {
            let c0 = self.c.n;
            let n = match g.rng.below(6) { 0 | 1 | 2 => c0, 3 => c0 ^ (1 << g.rng.below(60)), _ => g.len(4) };
            let c = Ctl::with(g, n);
            let new = vec![(0, n as u64), (1, c.word())];
            arm();
            let got_ok = calm(|| self.try_set_layout_controllers(ctl_drop::LayoutControllers { c }).is_ok());
            Some(CtlRes { expect_ok: n == c0, panics: false, got_ok, new })
        }
    }
}

#[define_varlen]
pub struct Wide {
    #[controls_layout]
    pub n: u64,
    #[varlen_array]
    pub x: [T2; *n as usize],
    #[controls_layout]
    pub m: usize,
    #[varlen_array]
    pub y: [u8; *m],
}
elem_struct! { Wide, wide, big = true,
    head { len n: u64, len m: usize }
    tail { arr x: T2 = *n as usize, arr y: u8 = *m }
    ctl {
        const CTL: bool = true;
        fn ctl(self: Pin<&mut Self>, g: &mut Gen, arm: &mut dyn FnMut()) -> Option<CtlRes> {
            let (n0, m0) = (self.n, self.m);
            let (n, m) = match g.rng.below(6) {
                0 => (n0, m0),
                1 => (m0 as u64, n0 as usize),
                2 => (n0 ^ (1 << g.rng.below(60)), m0),
                3 => (n0, m0 ^ (1 << g.rng.below(60))),
                4 => (n0.saturating_sub(1), m0 + 1),
                _ => (n0 ^ g.rng.below(4), m0),
            };
            arm();
            let got_ok = calm(|| self.try_set_layout_controllers(wide::LayoutControllers { n, m }).is_ok());
            Some(CtlRes { expect_ok: n == n0 && m == m0, panics: false, got_ok, new: vec![(0, n), (1, m as u64)] })
        }
    }
}

#[define_varlen]
pub struct TailDrop {
    #[controls_layout]
    pub n: u8,
    #[varlen_array]
    pub p: [u32; 2],
    #[varlen_array]
    pub t: [T3; *n as usize],
}
elem_struct! { TailDrop, tail_drop, big = false,
    head { len n: u8 }
    tail { arr p: u32 = 2, arr t: T3 = *n as usize }
}


types! {
    ReprC, Owning, Three, Mod4, CtlDrop, Wide, TailDrop,
}
