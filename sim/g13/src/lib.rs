//! Element types, group 13: structs of many fields, alone and inside the library's composites.
use varlen_sim_core::many::*;
use varlen_sim_core::types;

types! {
    Ten, LastAligned, LastNested, ManyHeads, TenT, LastT, NestT, HeadsT, TenN, NestN,
}
