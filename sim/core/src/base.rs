//! Fixed-size values, arrays and strings.

use crate::elem::*;
use crate::leaf::*;
use crate::{caps, elem_arr, elem_fixed, elem_str};
use std::mem::{align_of, size_of};
use std::pin::Pin;
use varlen::prelude::*;

elem_fixed! {
    u64, cc; u8, cc; (), cc; [u8; 3], cc; P32, cc; Z16, cc;
    T2, c; T3, c; T8, c; T12, c; T16, c; T64, c; TZ, c; u16, cc; u32, cc; NC, c; Bytes<4>, cc; Bytes<13>, cc;
    T512, c; Z4096, cc;
}
elem_arr! {
    T8, usize, c; T8, u8, c; T3, u8, c; T3, u16, c; T16, u16, c; T16, u8, c; T2, u32, c; T12, u64, c; T40, u8, c;
    NC, u8, c; NC, u16, c; TZ, u8, c; TZ, usize, c; T64, u8, c;
    u16, u64, cc; u8, u8, cc; u128, u8, cc; u64, usize, cc; u64, u16, cc; u32, u32, cc; u32, u64, cc; (), u32, cc;
    (), u8, cc; [u8; 3], u16, cc; P32, u16, cc; u8, u16, cc; Z16, u8, cc; Bytes<4>, u16, cc; Bytes<13>, u16, cc; Bor<'static>, u8, cc;
    T512, u8, c; P1024, u16, cc; Z4096, u8, cc;
}
elem_str!(usize, u8, u16, u32, u64);

