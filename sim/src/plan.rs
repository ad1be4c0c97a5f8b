//! A plan is one simulated run written out: element types and the list of operations with their faults.
//! It is derived from (property, seed) alone; any subset of its operations is a plan as well, which is
//! what minimisation relies on.

use varlen_sim_core::ops::Info;
use varlen_sim_core::rt::{hash2, Rng};

macro_rules! names {
    ($n:ident: $($v:ident),*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(u8)]
        pub enum $n { $($v),* }
        impl $n {
            pub const ALL: &'static [$n] = &[$($n::$v),*];
            pub fn name(self) -> &'static str { match self { $($n::$v => stringify!($v)),* } }
            pub fn parse(s: &str) -> Option<$n> { match s { $(stringify!($v) => Some($n::$v),)* _ => None } }
        }
    };
}

names!(OpKind: BoxNew, BoxDrop, BoxClone, BoxRaw, Mutate, InitDrop, SeqNew, SeqDrop, Push, Burst, Extend,
    Collect, SeqMacro, IterMut, MutOff, Probe, Take, DrainNext, DrainEnd, Hand, Cursor, ArenaNew, ArenaDrop,
    ArenaPut, Own, Ctl, Limit, NewArray, Cycle, Long, Vast, SharedCtl, Wide);
names!(FKind: None, Cb, Drop, Alloc, AllocAll, CbDrop, Mismatch, Overflow);

#[derive(Clone, Copy, Debug)]
pub struct OpRec {
    pub kind: OpKind,
    /// which world (element type)
    pub w: u32,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    /// decides the values built
    pub seed: u64,
    /// decides memory placement, garbage and in-place growth
    pub env: u64,
    pub fk: FKind,
    pub fnth: u32,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub cap: usize,
    pub types: Vec<String>,
    /// runs (base, first, count) that the same process had made before
    pub warm: (u64, u64, u64),
    pub ops: Vec<OpRec>,
}

impl Plan {
    pub fn write(&self) -> String {
        let mut s = format!(
            "varlen-sim-trace 1\nproperty {}\nseed {}\ncap {}\n",
            self.prop, self.seed, self.cap
        );
        for t in &self.types {
            s += &format!("type {}\n", t);
        }
        for o in &self.ops {
            s += &format!(
                "op {} {} {} {} {} {:x} {:x} {} {}\n",
                o.kind.name(), o.w, o.a, o.b, o.c, o.seed, o.env, o.fk.name(), o.fnth
            );
        }
        s
    }
    pub fn parse(s: &str) -> Result<Plan, String> {
        let mut p = Plan { prop: String::new(), seed: 0, cap: 8, types: vec![], warm: (0, 0, 0), ops: vec![] };
        let mut magic = false;
        for (n, l) in s.lines().enumerate() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let e = || format!("line {}: {}", n + 1, l);
            let (k, rest) = l.split_once(' ').ok_or_else(e)?;
            match k {
                "varlen-sim-trace" => magic = true,
                "property" => p.prop = rest.to_string(),
                "seed" => p.seed = rest.parse().map_err(|_| e())?,
                "cap" => p.cap = rest.parse().map_err(|_| e())?,
                "type" => p.types.push(rest.to_string()),
                "warm" => {
                    let v: Vec<u64> = rest.split_whitespace().map(|x| x.parse()).collect::<Result<_, _>>().map_err(|_| e())?;
                    p.warm = match v[..] {
                        [b, f, n] => (b, f, n),
                        _ => return Err(e()),
                    };
                }
                "op" => {
                    let f: Vec<&str> = rest.split_whitespace().collect();
                    if f.len() != 9 {
                        return Err(e());
                    }
                    let u = |i: usize| f[i].parse::<u32>().map_err(|_| e());
                    let x = |i: usize| u64::from_str_radix(f[i], 16).map_err(|_| e());
                    p.ops.push(OpRec {
                        kind: OpKind::parse(f[0]).ok_or_else(e)?,
                        w: u(1)?,
                        a: u(2)?,
                        b: u(3)?,
                        c: u(4)?,
                        seed: x(5)?,
                        env: x(6)?,
                        fk: FKind::parse(f[7]).ok_or_else(e)?,
                        fnth: u(8)?,
                    });
                }
                _ => return Err(e()),
            }
        }
        if !magic || p.types.is_empty() {
            return Err("not a trace".into());
        }
        Ok(p)
    }
}

// ---------------------------------------------------------------- profiles

pub struct Profile {
    /// extra weight of operations, on top of a base weight
    pub ops: &'static [(OpKind, u32)],
    /// weights of fault kinds
    pub faults: &'static [(FKind, u32)],
    /// of 100 operations, how many carry a fault in a run with faults
    pub rate: u32,
    /// of 100 runs, how many have no faults at all
    pub clean: u32,
    pub types: fn(&str, &Info) -> u32,
    /// of 2000 runs, how many grow a sequence to megabytes
    pub long: u32,
    /// of 2000 runs, how many have vast values
    pub vast: u32,
    /// of 2000 runs, how many have long arrays
    pub wide: u32,
    /// violations of this property need one of these to have happened in the run
    pub needs: &'static [FKind],
}

use FKind as F;
use OpKind as O;

fn any(_: &str, _: &Info) -> u32 {
    4
}
fn macro_heavy(n: &str, _: &Info) -> u32 {
    if n.starts_with("FixedLen") || n.starts_with("Array") || n.starts_with("Str") { 2 } else { 4 }
}
fn ctl_only(_: &str, i: &Info) -> u32 {
    if i.ctl { 8 } else { 0 }
}
fn big_only(_: &str, i: &Info) -> u32 {
    if i.big { 8 } else { 0 }
}
fn cloneable(_: &str, i: &Info) -> u32 {
    if i.clone || i.copy { 6 } else { 0 }
}
fn by_hand(n: &str, _: &Info) -> u32 {
    if n.starts_with("Hand") { 4 } else { 0 }
}
fn arrays(n: &str, _: &Info) -> u32 {
    if n.starts_with("FixedLen") { 1 } else { 4 }
}

const ALL_FAULTS: &[(FKind, u32)] = &[(F::Cb, 4), (F::Drop, 4), (F::Alloc, 3), (F::AllocAll, 1), (F::CbDrop, 1), (F::Mismatch, 3), (F::Overflow, 2)];
const BUILD: &[(OpKind, u32)] = &[(O::BoxNew, 8), (O::Push, 10), (O::Extend, 4), (O::Collect, 3), (O::ArenaPut, 6), (O::BoxClone, 3), (O::NewArray, 2)];
const SEQ: &[(OpKind, u32)] = &[(O::Push, 14), (O::Extend, 6), (O::Collect, 3), (O::Cycle, 4), (O::Take, 3), (O::DrainNext, 6), (O::DrainEnd, 4), (O::IterMut, 4), (O::Cursor, 6), (O::Burst, 1), (O::SeqNew, 2), (O::SeqDrop, 1), (O::SeqMacro, 1), (O::MutOff, 2)];
const INDEX: &[(OpKind, u32)] = &[(O::Push, 16), (O::Extend, 5), (O::Collect, 2), (O::Cycle, 4), (O::Take, 3), (O::DrainNext, 4), (O::DrainEnd, 4), (O::Probe, 10), (O::MutOff, 5), (O::Burst, 2), (O::SeqNew, 3), (O::SeqDrop, 2)];

pub fn profile(prop: &str) -> Profile {
    // how many of 2000 runs put one wide thing among their operations
    let wide = match prop {
        "C12" => 60,
        "C05" => 40,
        "C08" => 25,
        "C09" | "C11" | "C17" | "C19" => 16,
        "C03" | "C07" | "C10" | "C13" => 10,
        _ => 4,
    };
    // and one vast thing
    let vast = if matches!(prop, "C01" | "C04" | "C15") { 24 } else { 4 };
    let p = Profile { ops: &[], faults: ALL_FAULTS, rate: 25, clean: 30, types: any, long: 1, vast, wide, needs: &[] };
    match prop {
        "C01" => Profile { ops: SEQ, ..p },
        "C02" => Profile {
            ops: &[(O::Push, 30), (O::Extend, 8), (O::Probe, 5), (O::Cycle, 3), (O::SeqNew, 3), (O::Burst, 1), (O::Take, 2), (O::DrainEnd, 3)],
            faults: &[(F::Cb, 8), (F::Drop, 1), (F::Alloc, 6), (F::AllocAll, 2), (F::CbDrop, 2), (F::Mismatch, 6), (F::Overflow, 5)],
            rate: 50,
            clean: 0,
            needs: &[F::Cb, F::CbDrop, F::Alloc, F::AllocAll, F::Mismatch, F::Overflow],
            ..p
        },
        "C03" | "C04" => Profile { ops: INDEX, rate: 30, vast: vast.max(8), ..p },
        "C05" => Profile {
            ops: &[(O::BoxNew, 6), (O::BoxDrop, 6), (O::InitDrop, 5), (O::Push, 6), (O::SeqDrop, 3), (O::Extend, 3), (O::Collect, 3), (O::Take, 3), (O::DrainNext, 4), (O::DrainEnd, 4), (O::Own, 5), (O::ArenaPut, 4), (O::ArenaDrop, 2), (O::Mutate, 2), (O::Ctl, 2), (O::NewArray, 2)],
            faults: &[(F::Cb, 4), (F::Drop, 6), (F::Alloc, 3), (F::AllocAll, 1), (F::CbDrop, 2), (F::Mismatch, 3), (F::Overflow, 1)],
            ..p
        },
        "C06" => Profile { ops: &[(O::BoxNew, 8), (O::BoxDrop, 8), (O::Push, 8), (O::Burst, 2), (O::SeqNew, 3), (O::SeqDrop, 3), (O::Extend, 4), (O::Collect, 3), (O::Cycle, 3), (O::BoxClone, 4), (O::BoxRaw, 2)], ..p },
        "C07" => Profile {
            ops: BUILD,
            faults: &[(F::Alloc, 10), (F::AllocAll, 5)],
            rate: 60,
            clean: 0,
            needs: &[F::Alloc, F::AllocAll],
            ..p
        },
        "C08" => Profile {
            ops: BUILD,
            faults: &[(F::Cb, 10), (F::CbDrop, 3), (F::Mismatch, 3)],
            rate: 60,
            clean: 0,
            needs: &[F::Cb, F::CbDrop, F::Mismatch],
            ..p
        },
        "C09" => Profile {
            ops: &[(O::BoxNew, 10), (O::Push, 10), (O::ArenaPut, 6), (O::BoxRaw, 3), (O::Hand, 6), (O::Own, 6), (O::Take, 3), (O::DrainNext, 6), (O::DrainEnd, 2), (O::Extend, 4), (O::Collect, 3), (O::InitDrop, 2)],
            rate: 15,
            vast: 10,
            ..p
        },
        "C10" => Profile {
            ops: &[(O::BoxClone, 12), (O::BoxNew, 8), (O::Push, 8), (O::ArenaPut, 6), (O::Mutate, 6), (O::IterMut, 3), (O::BoxDrop, 4), (O::SeqDrop, 2), (O::Own, 4), (O::Extend, 3)],
            types: cloneable,
            ..p
        },
        "C11" => Profile {
            ops: &[(O::Push, 12), (O::Extend, 4), (O::Take, 8), (O::DrainNext, 16), (O::DrainEnd, 8), (O::Hand, 8), (O::Cycle, 8), (O::Burst, 1), (O::SeqDrop, 2)],
            faults: &[(F::Drop, 8), (F::Cb, 5), (F::Alloc, 2), (F::CbDrop, 1), (F::Mismatch, 1)],
            ..p
        },
        "C12" => Profile {
            ops: &[(O::NewArray, 20), (O::BoxNew, 14), (O::Push, 8), (O::ArenaPut, 4), (O::Limit, 10), (O::Extend, 2)],
            faults: &[(F::Mismatch, 10), (F::Cb, 4), (F::Drop, 1), (F::Alloc, 1)],
            rate: 35,
            types: arrays,
            ..p
        },
        "C13" => Profile {
            ops: &[(O::BoxNew, 10), (O::Push, 16), (O::ArenaPut, 8), (O::Extend, 3), (O::IterMut, 4), (O::Mutate, 4), (O::Own, 2), (O::Limit, 1)],
            rate: 12,
            clean: 50,
            types: macro_heavy,
            ..p
        },
        "C14" => Profile { ops: &[(O::Push, 14), (O::Burst, 8), (O::Extend, 6), (O::Collect, 5), (O::Cycle, 6), (O::Take, 2), (O::DrainEnd, 4), (O::SeqNew, 4), (O::SeqDrop, 2), (O::SeqMacro, 2)], rate: 15, long: 16, vast: 16, ..p },
        "C15" => Profile {
            ops: &[(O::Mutate, 10), (O::IterMut, 12), (O::MutOff, 10), (O::Hand, 6), (O::Own, 6), (O::BoxNew, 5), (O::Push, 8), (O::ArenaPut, 4), (O::Take, 2), (O::DrainNext, 4), (O::DrainEnd, 2)],
            faults: &[(F::Drop, 8), (F::Cb, 1)],
            rate: 12,
            types: macro_heavy,
            ..p
        },
        "C16" => Profile {
            ops: &[(O::Ctl, 40), (O::BoxNew, 8), (O::Push, 10), (O::ArenaPut, 5), (O::Take, 1), (O::DrainNext, 3), (O::DrainEnd, 2), (O::Mutate, 3), (O::Own, 2)],
            faults: &[(F::Drop, 8), (F::Cb, 1)],
            rate: 35,
            types: ctl_only,
            ..p
        },
        "C17" => Profile {
            ops: &[(O::BoxNew, 16), (O::Push, 20), (O::ArenaPut, 10), (O::Extend, 6), (O::Collect, 4), (O::Limit, 3), (O::Burst, 1)],
            faults: &[(F::Overflow, 20), (F::Cb, 1), (F::Alloc, 2)],
            rate: 60,
            clean: 0,
            types: big_only,
            vast: 10,
            needs: &[F::Overflow],
            ..p
        },
        "C18" => Profile {
            ops: &[(O::ArenaPut, 20), (O::ArenaNew, 4), (O::ArenaDrop, 3), (O::Own, 20), (O::BoxNew, 3), (O::Push, 4)],
            faults: &[(F::Cb, 5), (F::Drop, 5), (F::Alloc, 5), (F::AllocAll, 2), (F::Mismatch, 3), (F::Overflow, 2)],
            ..p
        },
        "C19" => Profile {
            ops: &[(O::Extend, 24), (O::Collect, 16), (O::SeqMacro, 5), (O::Push, 5), (O::BoxNew, 5), (O::Take, 2), (O::DrainNext, 3), (O::DrainEnd, 3), (O::SeqDrop, 2)],
            faults: &[(F::Cb, 10), (F::Alloc, 6), (F::AllocAll, 2), (F::Mismatch, 4), (F::Overflow, 2), (F::CbDrop, 2), (F::Drop, 1)],
            rate: 50,
            clean: 15,
            ..p
        },
        "C23" => Profile { ops: &[(O::BoxNew, 10), (O::BoxDrop, 5), (O::Push, 14), (O::ArenaPut, 8), (O::BoxClone, 4), (O::BoxRaw, 3), (O::Hand, 6), (O::Own, 8), (O::InitDrop, 3), (O::Extend, 4), (O::Collect, 3), (O::Cycle, 3), (O::Take, 4), (O::DrainNext, 8), (O::DrainEnd, 5), (O::SeqDrop, 3), (O::IterMut, 2), (O::Mutate, 2), (O::Ctl, 2), (O::MutOff, 2), (O::Probe, 2)], types: by_hand, ..p },
        // for developing the simulator itself
        "VAST" => Profile { vast: 2000, ops: &[(O::Push, 1)], ..p },
        "WIDE" => Profile { wide: 2000, ops: &[(O::Push, 1)], ..p },
        _ => p,
    }
}

/// Violations that contradict the property.
pub fn classes(prop: &str) -> &'static [&'static str] {
    // A crash or an endless loop contradicts every one of them.
    match prop {
        "C01" => &["content", "use-dead", "dup", "double-drop", "iter", "len", "unexpected-panic", "swallowed-panic", "array", "mut-overlap", "alloc-overrun", "alloc-use-after-free"],
        "C02" => &["content", "use-dead", "dup", "double-drop", "garbage-drop", "offset", "len", "iter", "unexpected-panic", "swallowed-panic", "array", "overflow", "forbidden-callback", "alloc-overrun", "alloc-use-after-free", "alloc-double-free", "alloc-mismatch", "alloc-unknown-free"],
        "C03" => &["offset", "unexpected-panic", "alloc-overrun", "alloc-use-after-free"],
        "C04" => &["offset", "content", "use-dead", "dup", "unexpected-panic", "alloc-overrun", "alloc-use-after-free"],
        "C05" => &["contract", "double-drop", "garbage-drop", "leak-value", "use-dead", "dup", "unexpected-panic", "swallowed-panic"],
        "C06" => &["alloc-zero", "alloc-invalid", "alloc-overrun", "alloc-use-after-free", "alloc-mismatch", "alloc-double-free", "alloc-unknown-free", "leak-block"],
        "C07" => &["content", "use-dead", "dup", "double-drop", "garbage-drop", "leak-value", "leak-block", "len", "iter", "offset", "growth", "unexpected-panic", "swallowed-panic", "missing-panic", "alloc-overrun", "alloc-use-after-free", "alloc-mismatch", "alloc-double-free", "alloc-unknown-free"],
        "C08" => &["content", "use-dead", "dup", "double-drop", "garbage-drop", "leak-value", "leak-block", "len", "iter", "offset", "array", "unexpected-panic", "swallowed-panic", "alloc-overrun", "alloc-use-after-free", "alloc-mismatch", "alloc-double-free", "alloc-unknown-free"],
        "C09" => &["contract", "content", "layout", "use-dead", "dup", "double-drop", "garbage-drop", "leak-value", "array", "iter", "unexpected-panic", "alloc-overrun", "alloc-use-after-free"],
        "C10" => &["contract", "content", "layout", "use-dead", "dup", "double-drop", "garbage-drop", "leak-value", "array", "unexpected-panic", "swallowed-panic"],
        "C11" => &["iter", "content", "use-dead", "dup", "double-drop", "garbage-drop", "leak-value", "len", "offset", "growth", "unexpected-panic", "swallowed-panic", "alloc-use-after-free", "alloc-overrun", "alloc-double-free", "alloc-unknown-free"],
        "C12" => &["array", "content", "layout", "use-dead", "dup", "double-drop", "garbage-drop", "leak-value", "unexpected-panic", "swallowed-panic", "missing-panic", "alloc-overrun", "alloc-use-after-free"],
        "C13" => &["contract", "layout", "misaligned", "mut-overlap", "alloc-overrun", "content"],
        "C14" => &["growth", "alloc-overrun"],
        "C15" => &["content", "mut-overlap", "layout", "use-dead", "dup", "double-drop", "iter", "offset", "misaligned", "unexpected-panic", "swallowed-panic"],
        "C16" => &["ctl", "content", "layout", "use-dead", "dup", "double-drop", "garbage-drop", "leak-value", "unexpected-panic", "swallowed-panic", "alloc-overrun", "alloc-mismatch", "alloc-use-after-free"],
        "C17" => &["overflow", "alloc-invalid", "forbidden-callback", "alloc-overrun", "alloc-zero", "layout", "content", "len", "offset", "array", "growth", "use-dead"],
        "C18" => &["contract", "content", "layout", "misaligned", "use-dead", "dup", "double-drop", "garbage-drop", "leak-value", "leak-block", "unexpected-panic", "swallowed-panic", "alloc-overrun", "alloc-use-after-free", "alloc-mismatch", "alloc-double-free", "alloc-unknown-free"],
        "C19" => &["content", "use-dead", "dup", "double-drop", "garbage-drop", "leak-value", "leak-block", "len", "iter", "offset", "array", "unexpected-panic", "swallowed-panic", "missing-panic", "alloc-overrun", "alloc-use-after-free", "alloc-double-free"],
        "C23" => &["contract", "misaligned", "content", "layout", "use-dead", "dup", "double-drop", "garbage-drop", "leak-value", "unexpected-panic", "swallowed-panic", "alloc-overrun", "alloc-use-after-free", "alloc-mismatch", "forbidden-callback"],
        _ => &[],
    }
}

pub fn accepts(prop: &str, class: &str) -> bool {
    prop == "ANY" || prop == "VAST" || prop == "WIDE" || class == "crash" || class == "hang" || classes(prop).contains(&class)
}

fn prop_hash(p: &str) -> u64 {
    p.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// The plan of one run.
pub fn generate(prop: &str, seed: u64, types: &[(&'static str, Info)]) -> Plan {
    let p = profile(prop);
    let mut r = Rng::new(hash2(seed, prop_hash(prop)));
    // element types
    let w: Vec<u32> = types.iter().map(|(n, i)| (p.types)(n, i)).collect();
    let pick = |r: &mut Rng, w: &[u32]| -> usize {
        let tot: u32 = w.iter().sum();
        let mut x = r.below(tot as u64) as u32;
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        w.len() - 1
    };
    let nt = if r.chance(1, 3) { 2 } else { 1 };
    let tys: Vec<String> = (0..nt).map(|_| types[pick(&mut r, &w)].0.to_string()).collect();
    let cap = [2usize, 3, 5, 8, 16, 40][pick(&mut r, &[3, 4, 4, 3, 2, 1])];
    // swarm: each run emphasises a random subset of operations
    let base: Vec<u32> = O::ALL
        .iter()
        .map(|k| {
            let extra = p.ops.iter().find(|(o, _)| o == k).map_or(0, |x| x.1);
            let m = match k {
                O::Long | O::Vast | O::SharedCtl | O::Wide => return 0,
                O::Burst | O::NewArray | O::Limit | O::SeqMacro | O::ArenaNew | O::ArenaDrop | O::SeqDrop => 1,
                O::Push | O::BoxNew => 4,
                _ => 2,
            };
            m + 2 * extra
        })
        .collect();
    let ow: Vec<u32> = base
        .iter()
        .map(|&b| match r.below(6) {
            0 => 0,
            1 => b * 3,
            2 => (b + 1) / 2,
            _ => b,
        })
        .collect();
    let ow = if ow.iter().sum::<u32>() == 0 { base } else { ow };
    let clean = r.below(100) < p.clean as u64;
    let fw: Vec<u32> = p.faults.iter().map(|f| f.1 * r.below(4) as u32).collect();
    let faulty = !clean && fw.iter().sum::<u32>() > 0;
    let rate = [p.rate / 3 + 1, p.rate, (p.rate * 3 / 2).min(90)][r.below(3) as usize];
    let n = [15u64, 40, 80, 140][pick(&mut r, &[2, 5, 3, 1])];
    let n = n / 2 + r.below(n);
    let deep = [2u64, 6, 20, 2, 6, 20, 2, 6, 200][r.below(9) as usize];
    // a few operations that put something in the world before faults begin
    let warm = r.below(5);
    let mut ops = Vec::new();
    for k in 0..n {
        let kind = O::ALL[pick(&mut r, &ow)];
        let fault = faulty && k >= warm && r.below(100) < rate as u64;
        let fk = if fault { p.faults[pick(&mut r, &fw)].0 } else { F::None };
        let fnth = match fk {
            F::Alloc | F::AllocAll => r.below(4).saturating_sub(1) as u32,
            F::CbDrop => (r.below(6) + 8 * r.below(6)) as u32,
            F::Overflow => r.below(64) as u32,
            F::None => 0,
            _ => {
                let d = if r.chance(1, 2) { 3 } else { deep };
                r.below(d) as u32
            }
        };
        ops.push(OpRec {
            kind,
            w: r.below(nt) as u32,
            a: r.below(1 << 12) as u32,
            b: r.below(1 << 12) as u32,
            c: r.below(1 << 12) as u32,
            seed: r.next(),
            env: r.next(),
            fk,
            fnth,
        });
    }
    // now and then one sequence grows far beyond all others
    if r.chance(p.long as u64, 2000) && !ops.is_empty() {
        let k = r.below(ops.len() as u64) as usize;
        ops[k].kind = O::Long;
        ops[k].fk = F::None;
    }
    if r.chance(p.vast as u64, 2000) && !ops.is_empty() {
        let k = r.below(ops.len() as u64) as usize;
        ops[k].kind = O::Vast;
        ops[k].fk = [F::None, F::Overflow, F::Alloc, F::Overflow][r.below(4) as usize];
    }
    if r.chance(p.wide as u64, 2000) && !ops.is_empty() {
        let k = r.below(ops.len() as u64) as usize;
        ops[k].kind = O::Wide;
        let fk = if p.faults.is_empty() { F::None } else { p.faults[pick(&mut r, &p.faults.iter().map(|f| f.1).collect::<Vec<_>>())].0 };
        ops[k].fk = if fk == F::Overflow || r.chance(1, 3) { F::None } else { fk };
    }
    Plan { prop: prop.to_string(), seed, cap, types: tys, warm: (0, 0, 0), ops }
}
