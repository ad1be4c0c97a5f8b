//! Structs of many fields, of which the last ones matter.
#![allow(unused_imports)]
use std::mem::{align_of, size_of};
use std::pin::Pin;
use varlen::define_varlen;
use varlen::define_varlen_newtype;
use varlen::prelude::*;
use crate::elem::*;
use crate::leaf::*;
use crate::rt::*;
use crate::{caps, elem_newtype, elem_struct, elem_tup};

/// Ten arrays, each with a length of its own; the last has destructors.
#[define_varlen]
pub struct Ten {
    #[controls_layout]
    pub n0: u8,
    #[controls_layout]
    pub n1: u8,
    #[controls_layout]
    pub n2: u16,
    #[controls_layout]
    pub n3: u8,
    #[controls_layout]
    pub n4: u8,
    #[controls_layout]
    pub n5: u32,
    #[controls_layout]
    pub n6: u8,
    #[controls_layout]
    pub n7: u8,
    #[controls_layout]
    pub n8: u16,
    #[controls_layout]
    pub n9: u8,
    #[varlen_array]
    pub a0: [u8; *n0 as usize],
    #[varlen_array]
    pub a1: [u8; *n1 as usize],
    #[varlen_array]
    pub a2: [u16; *n2 as usize],
    #[varlen_array]
    pub a3: [u8; *n3 as usize],
    #[varlen_array]
    pub a4: [u32; *n4 as usize],
    #[varlen_array]
    pub a5: [u8; *n5 as usize],
    #[varlen_array]
    pub a6: [u8; *n6 as usize],
    #[varlen_array]
    pub a7: [u16; *n7 as usize],
    #[varlen_array]
    pub a8: [u8; *n8 as usize],
    #[varlen_array]
    pub a9: [T3; *n9 as usize],
}
elem_struct! { Ten, ten, big = false,
    head { len n0: u8, len n1: u8, len n2: u16, len n3: u8, len n4: u8, len n5: u32, len n6: u8, len n7: u8, len n8: u16, len n9: u8 }
    tail {
        arr a0: u8 = *n0 as usize, arr a1: u8 = *n1 as usize, arr a2: u16 = *n2 as usize, arr a3: u8 = *n3 as usize,
        arr a4: u32 = *n4 as usize, arr a5: u8 = *n5 as usize, arr a6: u8 = *n6 as usize, arr a7: u16 = *n7 as usize,
        arr a8: u8 = *n8 as usize, arr a9: T3 = *n9 as usize
    }
    ctl {
        const CTL: bool = true;
        fn ctl(self: Pin<&mut Self>, g: &mut Gen, arm: &mut dyn FnMut()) -> Option<CtlRes> {
            let old = [
                self.n0 as u64, self.n1 as u64, self.n2 as u64, self.n3 as u64, self.n4 as u64,
                self.n5 as u64, self.n6 as u64, self.n7 as u64, self.n8 as u64, self.n9 as u64,
            ];
            let mut n = old;
            match g.rng.below(6) {
                0 | 1 => {}
                // exchanging two lengths, growing one and shrinking another, changing just one
                2 => n.swap(g.rng.below(10) as usize, g.rng.below(10) as usize),
                3 => {
                    let k = g.rng.below(10) as usize;
                    let j = g.rng.below(10) as usize;
                    n[k] = (n[k] + 1) & 0xff;
                    n[j] = n[j].saturating_sub(1);
                }
                _ => {
                    let k = g.rng.below(10) as usize;
                    n[k] = (n[k] ^ (1 << g.rng.below(7))) & 0xff;
                }
            }
            arm();
            let got_ok = calm(|| {
                self.try_set_layout_controllers(ten::LayoutControllers {
                    n0: n[0] as u8, n1: n[1] as u8, n2: n[2] as u16, n3: n[3] as u8, n4: n[4] as u8,
                    n5: n[5] as u32, n6: n[6] as u8, n7: n[7] as u8, n8: n[8] as u16, n9: n[9] as u8,
                })
                .is_ok()
            });
            Some(CtlRes { expect_ok: n == old, panics: false, got_ok, new: (0..10).map(|k| (k, n[k])).collect() })
        }
    }
}

/// The strictest alignment and the only destructor come last.
#[define_varlen]
pub struct LastAligned {
    pub h: u8,
    #[controls_layout]
    pub n: u8,
    #[varlen_array]
    pub a0: [u8; 3],
    #[varlen_array]
    pub a1: [u8; *n as usize],
    #[varlen]
    pub a2: Str<u8>,
    #[varlen_array]
    pub a3: [u16; 1],
    #[varlen]
    pub a4: Array<u8, u8>,
    #[varlen_array]
    pub a5: [u8; *n as usize / 2],
    #[varlen]
    pub a6: Array<u8, u8>,
    #[varlen_array]
    pub a7: [u8; 2],
    #[varlen_array]
    pub a8: [T16; *n as usize % 3],
}
elem_struct! { LastAligned, last_aligned, big = false,
    head { leaf h: u8, len n: u8 }
    tail {
        arr a0: u8 = 3, arr a1: u8 = *n as usize, var a2: Str<u8>, arr a3: u16 = 1, var a4: Array<u8, u8>, arr a5: u8 = *n as usize / 2,
        var a6: Array<u8, u8>, arr a7: u8 = 2, arr a8: T16 = *n as usize % 3
    }
}

/// The only destructor is in a nested value in the last place, the strictest alignment in the place before.
#[define_varlen]
pub struct LastNested {
    pub h: u16,
    #[varlen]
    pub a0: Str<u8>,
    #[varlen]
    pub a1: Array<u8, u8>,
    #[varlen]
    pub a2: Array<u16, u64>,
    #[varlen]
    pub a3: Str<u16>,
    #[varlen]
    pub a4: Array<u8, u8>,
    #[varlen]
    pub a5: Str<u8>,
    #[varlen]
    pub a6: Str<u8>,
    #[varlen]
    pub a7: Array<u64, u16>,
    #[varlen]
    pub a8: Array<T3, u8>,
}
elem_struct! { LastNested, last_nested, big = false,
    head { leaf h: u16 }
    tail {
        var a0: Str<u8>, var a1: Array<u8, u8>, var a2: Array<u16, u64>, var a3: Str<u16>, var a4: Array<u8, u8>, var a5: Str<u8>,
        var a6: Str<u8>, var a7: Array<u64, u16>, var a8: Array<T3, u8>
    }
}

/// Sixteen fixed fields: the last has a destructor, the one before the strictest alignment.
#[define_varlen]
pub struct ManyHeads {
    pub h0: u8,
    pub h1: u16,
    pub h2: u8,
    pub h3: u8,
    pub h4: u32,
    pub h5: u8,
    pub h6: u16,
    pub h7: u8,
    pub h8: u8,
    #[controls_layout]
    pub h9: u8,
    pub ha: u16,
    pub hb: u8,
    pub hc: u8,
    pub hd: u8,
    pub he: u64,
    pub hf: T3,
    #[varlen]
    pub s: Str<u8>,
    #[varlen_array]
    pub t: [u8; *h9 as usize % 5],
}
elem_struct! { ManyHeads, many_heads, big = false,
    head {
        leaf h0: u8, leaf h1: u16, leaf h2: u8, leaf h3: u8, leaf h4: u32, leaf h5: u8, leaf h6: u16, leaf h7: u8, leaf h8: u8,
        len h9: u8, leaf ha: u16, leaf hb: u8, leaf hc: u8, leaf hd: u8, leaf he: u64, leaf hf: T3
    }
    tail { var s: Str<u8>, arr t: u8 = *h9 as usize % 5 }
}

// Composites that ask whether those need a destructor at all.
pub type TenT = Tup2<Str<u8>, Ten>;
pub type LastT = Tup3<Str<u8>, LastAligned, Array<u8, u8>>;
pub type NestT = Tup2<LastNested, Str<u16>>;
pub type HeadsT = Tup3<Str<u8>, Array<u8, u8>, ManyHeads>;
elem_tup!(TenT, Tup2, tup2, n, a: Str<u8>, b: Ten);
elem_tup!(LastT, Tup3, tup3, n, a: Str<u8>, b: LastAligned, d: Array<u8, u8>);
elem_tup!(NestT, Tup2, tup2, n, a: LastNested, b: Str<u16>);
elem_tup!(HeadsT, Tup3, tup3, n, a: Str<u8>, b: Array<u8, u8>, d: ManyHeads);

define_varlen_newtype! {
    #[repr(transparent)]
    pub struct TenN(Ten);

    with init: pub struct TenNInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
elem_newtype!(TenN, TenNInit, Ten, inner, inner_mut, n);
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NestN(NestT);

    with init: pub struct NestNInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
elem_newtype!(NestN, NestNInit, NestT, inner, inner_mut, n);
