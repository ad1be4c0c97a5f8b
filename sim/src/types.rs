//! All element types.
use varlen_sim_core::ops::TypeOps;

pub fn types() -> Vec<&'static (dyn TypeOps + Sync)> {
    let mut v = Vec::new();
    for g in [
        varlen_sim_g1::TYPES,
        varlen_sim_g2::TYPES,
        varlen_sim_g3::TYPES,
        varlen_sim_g4::TYPES,
        varlen_sim_g5::TYPES,
        varlen_sim_g6::TYPES,
        varlen_sim_g7::TYPES,
        varlen_sim_g8::TYPES,
        varlen_sim_g9::TYPES,
        varlen_sim_g10::TYPES,
        varlen_sim_g11::TYPES,
        varlen_sim_g12::TYPES,
        varlen_sim_g13::TYPES,
    ] {
        v.extend_from_slice(g);
    }
    v
}
