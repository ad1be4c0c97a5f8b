//! Element types, group 12: variable-length types written by hand, alone and inside the library's composites.
use varlen_sim_core::hand::*;
use varlen_sim_core::types;

types! {
    HandA, HandB, HandC, HandD, HandE, HandZ, HandIn, HandW, HandWW, HandWZ, HandT2, HandT3, HandT4, HandT5, HandT6, HandT7,
}
