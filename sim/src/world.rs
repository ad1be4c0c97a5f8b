//! The simulated world of one element type: live boxes, sequences, arenas, suspended drains and cursors,
//! the reference model of each, and the invariants checked after every operation.

use bumpalo::Bump;
use std::collections::VecDeque;
use std::rc::Rc;
use varlen_sim_core::elem::*;
use varlen_sim_core::heap::{heap, BState};
use varlen_sim_core::leaf::*;
use varlen_sim_core::ops::*;
use varlen_sim_core::rt::*;

use crate::plan::{FKind, OpKind, OpRec};

pub type Ty = &'static (dyn TypeOps + Sync);

/// A live value: what it must read as (tokens by instance).
#[derive(Clone, Default)]
pub struct Val {
    pub words: Vec<u64>,
    pub size: usize,
    pub parts: Rc<Parts>,
}

pub struct BoxM {
    pub h: H,
    pub val: Val,
}

pub struct ElemM {
    pub val: Val,
    /// offset at which it was appended
    pub off: usize,
    /// offsets it occupies
    pub soff: usize,
}

pub struct HandM {
    pub h: H,
    pub val: Val,
}

pub struct DrainM {
    /// null once the iterator itself is gone
    pub h: H,
    pub rest: VecDeque<ElemM>,
    pub hand: Vec<HandM>,
    pub base: usize,
}

pub struct CurM {
    pub h: H,
    pub pos: usize,
    pub end: usize,
}

pub struct SeqM {
    pub h: H,
    pub idx: bool,
    pub elems: Vec<ElemM>,
    pub occ: usize,
    pub cap: usize,
    pub blk: usize,
    pub nreq: u32,
    pub drain: Option<DrainM>,
    pub cursors: Vec<CurM>,
}

pub enum AKind {
    Owned(H),
    Leaked,
}
pub struct AValM {
    pub addr: usize,
    pub val: Val,
    pub kind: AKind,
}
pub struct ArenaM {
    pub bump: *mut Bump,
    pub tag: u32,
    pub limited: bool,
    pub vals: Vec<AValM>,
}

pub struct World {
    pub ty: Ty,
    pub info: Info,
    pub boxes: Vec<BoxM>,
    pub seqs: Vec<SeqM>,
    pub arenas: Vec<ArenaM>,
    pub cap: usize,
    next_tag: u32,
    /// blocks of boxes consumed as sources in this operation
    moved_blocks: Vec<usize>,
    /// the sequence whose drain is being finished
    draining: Option<usize>,
}

const NOBLK: usize = usize::MAX;

/// What kind of failure an operation is bound to have.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Must {
    Succeed,
    /// a source of the wrong length
    Mismatch,
    Overflow,
}

pub struct Src {
    pub h: H,
    pub expect: Vec<u64>,
    pub must: Must,
    /// size according to the layout model (saturated)
    pub size: usize,
    /// instances moved along
    pub moved: Vec<u32>,
}

/// Bookkeeping of the operation being simulated.
#[derive(Default)]
pub struct Step {
    /// tokens whose containers are being destroyed: a destructor panic may strand them
    pub doomed: Vec<u32>,
    pub doomed_blocks: Vec<usize>,
    pub mism_failed: bool,
    /// a box of this size was under construction: its storage may be stranded by a panicking initializer
    pub box_block: Option<(usize, usize)>,
    pub outcome: u32,
}

pub struct Stats {
    pub ops: [u64; 64],
    pub armed: [u64; 8],
    pub fired: [u64; 8],
    pub must: [u64; 3],
    pub tot_fail_ok: u64,
}

fn words_toks(w: &[u64]) -> impl Iterator<Item = u32> + '_ {
    w.iter().filter(|w| **w & TOKW != 0).map(|w| *w as u32)
}

/// The reading expected of a clone.
fn as_clone(w: &[u64]) -> Vec<u64> {
    w.iter()
        .map(|&w| if w & TOKW != 0 { PAYW | rt().toks[w as u32 as usize].payload as u64 } else { clone_word(w) })
        .collect()
}

fn unexpected(what: &str, f: &Fail) {
    viol("unexpected-panic", &format!("{} failed although nothing was wrong: {:?}", what, f));
}

impl World {
    pub fn new(ty: Ty, cap: usize, tag0: u32) -> World {
        World { ty, info: ty.info(), boxes: vec![], seqs: vec![], arenas: vec![], cap, next_tag: tag0, moved_blocks: vec![], draining: None }
    }

    // ------------------------------------------------------------ reading

    /// Read the value at `addr` and compare with `expect`; returns the actual words.
    fn read(&self, addr: usize, size: usize, parts: &Parts, what: &str) -> Option<Vec<u64>> {
        let al = self.info.align.max(1);
        if addr % al != 0 {
            viol("misaligned", &format!("{} ({}) lies at an address not aligned to {}", what, self.ty.name(), al));
            return None;
        }
        let mut s = Sink::new();
        s.lo = addr;
        s.hi = addr + size;
        match self.ty.read(addr, &mut s) {
            Ok(()) => {}
            Err(f) => {
                viol("content", &format!("reading {} ({}) panicked: {:?}", what, self.ty.name(), f));
                return None;
            }
        }
        if !s.ok || bad() {
            return None;
        }
        if s.parts.len() != parts.len() {
            viol("layout", &format!("{} has {} parts, expected {}", what, s.parts.len(), parts.len()));
            return None;
        }
        for (i, (&(a, n), &(o, m))) in s.parts.iter().zip(parts.iter()).enumerate() {
            if n != m || (n > 0 && a.wrapping_sub(addr) != o) {
                viol(
                    if n != m { "content" } else { "layout" },
                    &format!(
                        "part {} of {} ({}) is {} bytes at offset {}, expected {} bytes at offset {}",
                        i, what, self.ty.name(), n, a.wrapping_sub(addr) as isize, m, o
                    ),
                );
                return None;
            }
        }
        Some(s.words)
    }

    fn reported(&self, addr: usize, size: usize, what: &str) -> bool {
        match self.ty.reported(addr) {
            Ok(n) if n == size => true,
            Ok(n) => {
                viol("layout", &format!("{} ({}) reports a size of {} bytes, its fields take {}", what, self.ty.name(), n, size));
                false
            }
            Err(f) => {
                viol("layout", &format!("asking {} for its size panicked: {:?}", what, f));
                false
            }
        }
    }

    /// First reading of a value that was just built: tokens are matched by payload.
    fn adopt(&self, addr: usize, expect: &[u64], what: &str) -> Option<Val> {
        let (size, parts) = self.ty.lay(expect);
        // the header words decide where the rest lies: check the reported size first
        if !self.reported(addr, size, what) {
            return None;
        }
        let got = self.read(addr, size, &parts, what)?;
        if got.len() != expect.len() {
            viol("content", &format!("{} ({}) reads as {} words, expected {}", what, self.ty.name(), got.len(), expect.len()));
            return None;
        }
        for (i, (&g, &e)) in got.iter().zip(expect).enumerate() {
            let ok = if e & PAYW != 0 && e & TOKW == 0 {
                g & TOKW != 0 && rt().toks[g as u32 as usize].payload as u64 == e & 0xffff_ffff
            } else {
                g == e
            };
            if !ok {
                viol(
                    "content",
                    &format!("word {} of {} ({}) reads {}, expected {}", i, what, self.ty.name(), show(g), show(e)),
                );
                return None;
            }
        }
        Some(Val { words: got, size, parts: Rc::new(parts) })
    }

    /// Reading of a value the model already knows.
    fn recheck(&self, addr: usize, v: &Val, epoch: u32, what: &str) -> bool {
        if !self.reported(addr, v.size, what) {
            return false;
        }
        let Some(got) = self.read(addr, v.size, &v.parts, what) else { return false };
        if got != v.words {
            let i = (0..got.len().max(v.words.len())).find(|&i| got.get(i) != v.words.get(i)).unwrap_or(0);
            viol(
                "content",
                &format!(
                    "{} ({}) changed: word {} reads {}, expected {}",
                    what,
                    self.ty.name(),
                    i,
                    got.get(i).map_or("nothing".into(), |w| show(*w)),
                    v.words.get(i).map_or("nothing".into(), |w| show(*w))
                ),
            );
            return false;
        }
        see(&v.words, epoch, what)
    }

    // ------------------------------------------------------------ sources

    fn gen(&self, op: &OpRec) -> Gen {
        // hundreds of elements now and then
        let wide = hash2(op.seed, 77) % 150 == 0 && rt().toks.len() < 8000;
        let mut g = Gen::new(hash2(op.seed, 1), if wide { 340 } else { self.cap });
        match op.fk {
            FKind::Mismatch => g.want_mism = true,
            FKind::Overflow if self.info.big => g.want_ovf = Some(hash2(op.seed, op.fnth as u64)),
            _ => {}
        }
        g
    }

    fn src_of(&self, h: H, expect: Vec<u64>, must: Must) -> Option<Src> {
        let (size, _) = self.ty.lay(&expect);
        if must != Must::Overflow {
            match self.ty.init_size(h) {
                Ok(Some(n)) if n == size => {}
                r => {
                    viol(
                        "layout",
                        &format!("an initializer of {} announces {:?} bytes, the value has {}", self.ty.name(), r, size),
                    );
                    return None;
                }
            }
        } else if let Ok(Some(n)) = self.ty.init_size(h) {
            if n < size {
                viol("overflow", &format!("an initializer of {} announces {} bytes for a value of at least {}", self.ty.name(), n, size));
                return None;
            }
        }
        Some(Src { h, expect, must, size, moved: vec![] })
    }

    fn fresh(&self, g: &mut Gen) -> Option<Src> {
        let at = g.words.len();
        let (m0, o0) = (g.did_mism, g.did_ovf);
        let h = self.ty.init_gen(g);
        if bad() {
            return None;
        }
        let must = if g.did_ovf && !o0 {
            Must::Overflow
        } else if g.did_mism && !m0 {
            Must::Mismatch
        } else {
            Must::Succeed
        };
        let e = g.words.split_off(at);
        self.src_of(h, e, must)
    }

    /// All live values that may be read right now: (address, words).
    fn readable(&self, not_seq: Option<usize>) -> Vec<(usize, Vec<u64>)> {
        let mut v = Vec::new();
        for b in &self.boxes {
            v.push((self.ty.box_addr(b.h), b.val.words.clone()));
        }
        for (i, s) in self.seqs.iter().enumerate() {
            if let Some(d) = &s.drain {
                for o in &d.hand {
                    v.push((self.ty.own_addr(o.h), o.val.words.clone()));
                }
            } else if Some(i) != not_seq {
                for e in &s.elems {
                    if let Some(a) = self.elem_addr(s, e) {
                        v.push((a, e.val.words.clone()));
                    }
                }
            }
        }
        for a in &self.arenas {
            for x in &a.vals {
                v.push((x.addr, x.val.words.clone()));
            }
        }
        v
    }

    fn elem_addr(&self, s: &SeqM, e: &ElemM) -> Option<usize> {
        if s.blk == NOBLK {
            return None;
        }
        Some(heap().blocks[s.blk].start + e.off * self.info.align)
    }

    /// Where the value to store comes from.  `into`: the sequence it goes to, if any.
    fn source(&mut self, op: &OpRec, g: &mut Gen, into: Option<usize>) -> Option<Src> {
        let mut r = Rng::new(hash2(op.seed, 3));
        let special = matches!(op.fk, FKind::Mismatch | FKind::Overflow);
        let k = if special { 0 } else { op.c % 12 };
        match k {
            // an existing box
            5 | 6 if !self.boxes.is_empty() => {
                let i = r.below(self.boxes.len() as u64) as usize;
                let b = self.boxes.swap_remove(i);
                if let Some(k) = self.box_block(self.ty.box_addr(b.h), b.val.size) {
                    self.moved_blocks.push(k);
                }
                let h = self.ty.init_from_box(b.h);
                return self.moved(h, b.val);
            }
            // an owner: drained element or arena value
            7 | 8 => {
                let mut c = Vec::new();
                for (i, s) in self.seqs.iter().enumerate() {
                    if let Some(d) = &s.drain {
                        for j in 0..d.hand.len() {
                            c.push((true, i, j));
                        }
                    }
                }
                for (i, a) in self.arenas.iter().enumerate() {
                    for (j, v) in a.vals.iter().enumerate() {
                        if matches!(v.kind, AKind::Owned(_)) {
                            c.push((false, i, j));
                        }
                    }
                }
                if !c.is_empty() {
                    let (s, i, j) = r.pick(&c);
                    let (h, val) = if s {
                        let o = self.seqs[i].drain.as_mut().unwrap().hand.swap_remove(j);
                        (o.h, o.val)
                    } else {
                        let v = self.arenas[i].vals.swap_remove(j);
                        let AKind::Owned(h) = v.kind else { unreachable!() };
                        (h, v.val)
                    };
                    let h = self.ty.init_from_owned(h);
                    return self.moved(h, val);
                }
            }
            // a clone or copy of a living value
            9 | 10 if self.info.clone => {
                let c = self.readable(into);
                if !c.is_empty() {
                    let (a, w) = &c[r.below(c.len() as u64) as usize];
                    let h = self.ty.init_clone(*a);
                    return self.src_of(h, as_clone(w), Must::Succeed);
                }
            }
            11 if self.info.copy => {
                let c = self.readable(into);
                if !c.is_empty() {
                    let (a, w) = &c[r.below(c.len() as u64) as usize];
                    let h = self.ty.init_copy(*a);
                    return self.src_of(h, as_clone(w), Must::Succeed);
                }
            }
            _ => {}
        }
        self.fresh(g)
    }

    fn moved(&self, h: H, val: Val) -> Option<Src> {
        let moved = words_toks(&val.words).collect();
        let mut s = self.src_of(h, val.words, Must::Succeed)?;
        s.moved = moved;
        Some(s)
    }

    // ------------------------------------------------------------ running

    fn arm(&self, op: &OpRec, st: &mut Stats) {
        let r = rt();
        r.n_cb = 0;
        r.n_drop = 0;
        r.fired_cb = 0;
        r.fired_drop = 0;
        let h = heap();
        h.begin_log(op.env);
        r.armed = true;
        let x = hash2(op.env, 0xA6A1);
        if x % 8 == 0 || (matches!(op.fk, FKind::Cb | FKind::Drop) && x % 8 < 3) {
            r.again_at = ((x >> 8) % 16 * ((x >> 16) % 5) / 4) as i64;
            r.again_seed = x;
        }
        let n = op.fnth as i64;
        match op.fk {
            FKind::None => {}
            FKind::Cb => r.cb_at = n,
            FKind::Drop => r.drop_at = n,
            FKind::Alloc => h.fail_at = n,
            FKind::AllocAll => {
                h.fail_at = n;
                h.fail_persist = true
            }
            FKind::CbDrop => {
                r.cb_at = n % 8;
                r.drop_at = n / 8;
            }
            FKind::Mismatch | FKind::Overflow => {}
        }
        st.armed[op.fk as usize] += 1;
    }

    fn calm_down(&self, op: &OpRec, st: &mut Stats) {
        disarm();
        heap().disarm();
        let r = rt();
        let f = &mut st.fired;
        f[FKind::Cb as usize] += r.fired_cb as u64;
        f[FKind::Drop as usize] += r.fired_drop as u64;
        f[if op.fk == FKind::AllocAll { FKind::AllocAll } else { FKind::Alloc } as usize] += heap().fired as u64;
    }

    /// Was this failure of a building operation legitimate?  `true` if the model may go on.
    fn judge<T>(&self, what: &str, res: &R<T>, must: Must, arena_limited: bool, st: &mut Stats) -> bool {
        if bad() {
            return false;
        }
        let r = rt();
        let h = heap();
        let refused = h.fired > 0 || h.n_big > 0 || arena_limited;
        st.must[must as usize] += 1;
        match res {
            Ok(_) => {
                if r.fired_cb + r.fired_drop > 0 {
                    viol("swallowed-panic", &format!("{}: a panic of user code did not reach the caller", what));
                    return false;
                }
                match must {
                    Must::Succeed => {}
                    Must::Mismatch => {
                        viol("array", &format!("{}: an array was built from a source of another length", what));
                        return false;
                    }
                    Must::Overflow => {
                        viol("overflow", &format!("{}: a value of impossible size was built", what));
                        return false;
                    }
                }
            }
            Err(Fail::Abort) => return false,
            Err(Fail::Injected) => {
                if r.fired_cb + r.fired_drop == 0 {
                    viol("swallowed-panic", "a stale panic surfaced");
                    return false;
                }
                st.tot_fail_ok += 1;
            }
            Err(f) => {
                if r.fired_cb + r.fired_drop > 0 {
                    viol("swallowed-panic", &format!("{}: a panic of user code surfaced as {:?}", what, f));
                    return false;
                }
                if !refused && must == Must::Succeed {
                    unexpected(what, f);
                    return false;
                }
                st.tot_fail_ok += 1;
            }
        }
        true
    }

    fn overflow_rules(&self, src_size: usize) -> bool {
        let h = heap();
        if h.n_req > 0 && h.min_req < src_size {
            viol(
                "overflow",
                &format!("a request for {} bytes was made for a value of at least {} bytes", h.min_req, src_size),
            );
            return false;
        }
        true
    }

    fn doom(&self, st: &mut Step, words: &[u64]) {
        st.doomed.extend(words_toks(words));
    }

    // ------------------------------------------------------------ operations

    pub fn run(&mut self, op: &OpRec, st: &mut Step, stats: &mut Stats) {
        let mut g = self.gen(op);
        self.dispatch(op, &mut g, st, stats);
        st.doomed_blocks.append(&mut self.moved_blocks);
        disarm();
        heap().disarm();
        heap().tag = 0;
        if bad() {
            std::mem::forget(g);
            return;
        }
        // sources the library only borrowed are untouched
        for &(id, p) in &g.src_ids {
            let t = rt().toks[id as usize];
            if t.state != TState::Live || t.payload != p {
                viol("content", &format!("value #{} was only borrowed as a source but is no longer alive", id));
                std::mem::forget(g);
                return;
            }
        }
        let held = std::mem::take(&mut g.held);
        for h in held.into_iter().rev() {
            drop(h);
        }
    }

    fn dispatch(&mut self, op: &OpRec, g: &mut Gen, st: &mut Step, stats: &mut Stats) {
        let a = op.a as usize;
        match op.kind {
            OpKind::BoxNew => self.op_box_new(op, g, st, stats),
            OpKind::BoxDrop => {
                if !self.boxes.is_empty() {
                    let i = a % self.boxes.len();
                    let b = self.boxes.swap_remove(i);
                    self.drop_box(op, b, st, stats);
                }
            }
            OpKind::BoxClone => self.op_box_clone(op, st, stats),
            OpKind::BoxRaw => {
                if !self.boxes.is_empty() {
                    let i = a % self.boxes.len();
                    self.boxes[i].h = self.ty.box_raw(self.boxes[i].h);
                }
            }
            OpKind::Mutate => self.op_mutate(op, st, stats),
            OpKind::InitDrop => {
                let Some(s) = self.source(op, g, None) else { return };
                st.doomed.extend(s.moved.iter().copied());
                st.doomed.extend(g.toks.iter().copied());
                self.arm(op, stats);
                let r = self.ty.init_drop(s.h);
                self.calm_down(op, stats);
                self.judge_drop("dropping an initializer", &r);
            }
            OpKind::SeqNew => {
                if self.seqs.len() >= 4 {
                    return self.dispatch(&OpRec { kind: OpKind::Push, ..*op }, g, st, stats);
                }
                self.seq_new(op, stats);
            }
            OpKind::SeqDrop => {
                if !self.seqs.is_empty() {
                    let i = a % self.seqs.len();
                    if self.seqs[i].drain.is_some() {
                        return self.end_drain(op, i, st, stats);
                    }
                    self.drop_seq(op, i, st, stats);
                }
            }
            OpKind::Push => self.op_push(op, g, st, stats),
            OpKind::Long => self.op_long(op, st, stats),
            OpKind::Vast => {
                let mut f = varlen_sim_core::vast::Fault {
                    alloc: matches!(op.fk, FKind::Alloc | FKind::AllocAll),
                    overflow: op.fk == FKind::Overflow,
                    fired: 0,
                    judged: 0,
                };
                st.outcome = varlen_sim_core::vast::simulate(op.seed, op.env, &mut f);
                stats.fired[FKind::Alloc as usize] += f.fired as u64;
                stats.must[Must::Overflow as usize] += f.judged as u64 * (op.fk == FKind::Overflow) as u64;
                stats.tot_fail_ok += f.judged as u64;
            }
            OpKind::Wide => {
                let mut d = varlen_sim_core::wide::Deed {
                    cb: matches!(op.fk, FKind::Cb | FKind::CbDrop),
                    drop: op.fk == FKind::Drop,
                    mismatch: op.fk == FKind::Mismatch,
                    alloc: matches!(op.fk, FKind::Alloc | FKind::AllocAll),
                    ..Default::default()
                };
                st.outcome = varlen_sim_core::wide::simulate(op.seed, op.env, &mut d);
                st.box_block = d.stranded;
                st.mism_failed |= d.mism_failed;
                stats.fired[FKind::Alloc as usize] += d.fired_alloc as u64;
                stats.fired[FKind::Cb as usize] += rt().fired_cb as u64;
                stats.fired[FKind::Drop as usize] += rt().fired_drop as u64;
                stats.must[Must::Mismatch as usize] += d.mism_failed as u64;
                stats.tot_fail_ok += d.judged as u64;
            }
            OpKind::Burst => self.op_burst(op, st, stats),
            OpKind::Extend => self.op_extend(op, g, st, stats),
            OpKind::Collect => self.op_collect(op, g, st, stats, false),
            OpKind::SeqMacro => self.op_collect(op, g, st, stats, true),
            OpKind::IterMut => self.op_iter_mut(op, st, stats),
            OpKind::MutOff => self.op_mut_off(op, st, stats),
            OpKind::Probe => self.op_probe(op),
            OpKind::Take => self.op_take(op, stats),
            OpKind::DrainNext => self.op_drain_next(op, st, stats),
            OpKind::DrainEnd => {
                let c: Vec<usize> = (0..self.seqs.len()).filter(|&i| self.seqs[i].drain.is_some()).collect();
                if !c.is_empty() {
                    self.end_drain(op, c[a % c.len()], st, stats);
                }
            }
            OpKind::Hand => self.op_hand(op, st, stats),
            OpKind::Cursor => self.op_cursor(op),
            OpKind::ArenaNew => self.arena_new(op, stats),
            OpKind::ArenaDrop => {
                if !self.arenas.is_empty() {
                    let i = a % self.arenas.len();
                    self.arena_drop(op, i, st, stats);
                }
            }
            OpKind::ArenaPut => self.op_arena_put(op, g, st, stats),
            OpKind::Own => self.op_own(op, st, stats),
            OpKind::Ctl => self.op_ctl(op, g, st, stats),
            OpKind::Limit => self.op_limit(op, g, st, stats),
            OpKind::NewArray => self.op_new_array(op, g, st, stats),
            OpKind::Cycle => self.op_cycle(op, g, st, stats),
            OpKind::SharedCtl => varlen_sim_core::shared::simulate(op.a, op.b),
        }
    }

    fn judge_drop(&self, what: &str, r: &R<()>) -> bool {
        if bad() {
            return false;
        }
        match r {
            Ok(()) if rt().fired_drop > 0 => {
                viol("swallowed-panic", &format!("{}: a destructor's panic did not reach the caller", what));
                false
            }
            Ok(()) => true,
            Err(Fail::Injected) if rt().fired_drop > 0 => true,
            Err(f) => {
                unexpected(what, f);
                false
            }
        }
    }

    // -- boxes

    fn op_box_new(&mut self, op: &OpRec, g: &mut Gen, st: &mut Step, stats: &mut Stats) {
        if self.boxes.len() >= 8 {
            let b = self.boxes.swap_remove(op.a as usize % 8);
            let quiet = OpRec { fk: FKind::None, ..*op };
            self.drop_box(&quiet, b, st, stats);
            if bad() {
                return;
            }
        }
        let Some(s) = self.source(op, g, None) else { return };
        if let Some(b) = self.build_box(op, s, st, stats) {
            self.boxes.push(b);
        }
    }

    fn build_box(&mut self, op: &OpRec, s: Src, st: &mut Step, stats: &mut Stats) -> Option<BoxM> {
        st.doomed.extend(s.moved.iter().copied());
        self.arm(op, stats);
        rt().forbid_cb = s.must == Must::Overflow;
        let r = self.ty.box_new(s.h);
        self.calm_down(op, stats);
        if r.is_err() {
            st.box_block = Some((s.size, round_up(s.size, self.info.align)));
        }
        if !self.judge("building a box", &r, s.must, false, stats) {
            return None;
        }
        if s.must == Must::Overflow && !self.overflow_rules(s.size) {
            return None;
        }
        match r {
            Ok(h) => {
                let val = self.adopt_box(h, &s.expect)?;
                st.outcome = 1;
                Some(BoxM { h, val })
            }
            Err(_) => {
                st.mism_failed = s.must == Must::Mismatch;
                st.outcome = 2;
                None
            }
        }
    }

    fn adopt_box(&self, h: H, expect: &[u64]) -> Option<Val> {
        let addr = self.ty.box_addr(h);
        let (size, _) = self.ty.lay(expect);
        self.box_block(addr, size)?;
        self.adopt(addr, expect, "a new box")
    }

    /// The block holding a boxed value.
    fn box_block(&self, addr: usize, size: usize) -> Option<usize> {
        if size == 0 {
            return Some(NOBLK);
        }
        let Some(i) = heap().containing(addr, size) else {
            viol("layout", &format!("the {} bytes of a boxed {} are not inside one allocated block", size, self.ty.name()));
            return None;
        };
        let b = &heap().blocks[i];
        if b.start != addr || b.align < self.info.malign {
            viol("layout", &format!("a boxed {} was given a block of alignment {}", self.ty.name(), b.align));
            return None;
        }
        if b.size > round_up(size, self.info.align) {
            viol("layout", &format!("a boxed {} of {} bytes was given a block of {} bytes", self.ty.name(), size, b.size));
            return None;
        }
        Some(i)
    }

    fn drop_box(&mut self, op: &OpRec, b: BoxM, st: &mut Step, stats: &mut Stats) {
        self.doom(st, &b.val.words);
        if b.val.size > 0 {
            if let Some(i) = self.box_block(self.ty.box_addr(b.h), b.val.size) {
                st.doomed_blocks.push(i);
            }
        }
        self.arm(op, stats);
        let r = self.ty.box_drop(b.h);
        self.calm_down(op, stats);
        self.judge_drop("dropping a box", &r);
        st.outcome = 3 + r.is_err() as u32;
    }

    fn op_box_clone(&mut self, op: &OpRec, st: &mut Step, stats: &mut Stats) {
        if self.boxes.is_empty() || !self.info.clone {
            return;
        }
        if self.boxes.len() > 1 && (op.b & 1 == 1 || self.boxes.len() >= 9) {
            return self.op_clone_from(op, st, stats);
        }
        if self.boxes.len() >= 9 {
            return;
        }
        let i = op.a as usize % self.boxes.len();
        let expect = as_clone(&self.boxes[i].val.words);
        self.arm(op, stats);
        let r = self.ty.box_clone(self.boxes[i].h);
        self.calm_down(op, stats);
        if r.is_err() {
            let (size, _) = self.ty.lay(&expect);
            st.box_block = Some((size, round_up(size, self.info.align)));
        }
        if !self.judge("cloning a box", &r, Must::Succeed, false, stats) {
            return;
        }
        st.outcome = 5 + r.is_err() as u32;
        if let Ok(h) = r {
            if let Some(val) = self.adopt_box(h, &expect) {
                self.boxes.push(BoxM { h, val });
            }
        }
    }

    /// An existing box becomes a clone of another one.
    fn op_clone_from(&mut self, op: &OpRec, st: &mut Step, stats: &mut Stats) {
        let n = self.boxes.len();
        let i = op.a as usize % n;
        let j = (i + 1 + op.c as usize % (n - 1)) % n;
        let expect = as_clone(&self.boxes[i].val.words);
        let (size, _) = self.ty.lay(&expect);
        let d = &self.boxes[j];
        let (h, old) = (d.h, d.val.words.clone());
        if d.val.size > 0 {
            if let Some(k) = self.box_block(self.ty.box_addr(h), d.val.size) {
                st.doomed_blocks.push(k);
            }
        }
        st.box_block = Some((size, round_up(size, self.info.align)));
        self.arm(op, stats);
        let r = self.ty.box_clone_from(h, self.boxes[i].h);
        self.calm_down(op, stats);
        if !self.judge("cloning into a box", &r, Must::Succeed, false, stats) {
            return;
        }
        st.outcome = 62 + r.is_err() as u32;
        // a failure to clone leaves what was there; past that point the new value is there in any case
        if r.is_err() && rt().fired_drop == 0 {
            st.doomed_blocks.clear();
            return;
        }
        self.doom(st, &old);
        self.boxes[j].val = match self.adopt_box(h, &expect) {
            Some(v) => v,
            None => return,
        };
    }

    // -- mutation

    fn mutctx(&self, op: &OpRec, words: usize) -> MutCtx {
        let mut r = Rng::new(hash2(op.seed, 5));
        let t = if words == 0 { 0 } else { r.below(words as u64) as usize };
        MutCtx::new(t, (r.next() >> 40) as u32 | 1)
    }

    /// Apply a mutation to the model.
    fn mutated(v: &mut Val, m: &MutCtx, r: &R<()>, st: &mut Step) -> bool {
        if bad() {
            return false;
        }
        match r {
            Ok(()) if rt().fired_drop == 0 => {}
            Err(Fail::Injected) if rt().fired_drop > 0 => {}
            r => {
                viol("unexpected-panic", &format!("mutable access failed: {:?}", r));
                return false;
            }
        }
        if m.hit {
            let new = m.new.unwrap();
            if m.target >= v.words.len() {
                viol("content", "mutable access reached a part that does not exist");
                return false;
            }
            v.words[m.target] = new;
            st.outcome = 8;
        }
        true
    }

    fn op_mutate(&mut self, op: &OpRec, st: &mut Step, stats: &mut Stats) {
        if self.boxes.is_empty() {
            return;
        }
        let i = op.a as usize % self.boxes.len();
        let mut m = self.mutctx(op, self.boxes[i].val.words.len());
        self.arm(op, stats);
        let r = self.ty.box_mut(self.boxes[i].h, &mut m);
        self.calm_down(op, stats);
        m.check(&mut Vec::new());
        Self::mutated(&mut self.boxes[i].val, &m, &r, st);
    }

    fn op_iter_mut(&mut self, op: &OpRec, st: &mut Step, stats: &mut Stats) {
        let Some(i) = self.free_seq(op.a) else { return };
        self.drop_cursors(i);
        let n = self.seqs[i].elems.len();
        if op.c % 5 == 0 {
            let (how, k) = (op.seed as u32 >> 8, (op.seed >> 40) as usize % 5);
            let r = self.ty.seq_mut_adapt(self.seqs[i].h, how, k);
            self.check_addrs(i, "a mutable iterator", r, &adapt_model(n, how, k));
        }
        let limit = match op.b % 4 {
            0 => Some(op.c as usize % (n + 2)),
            _ => None,
        };
        let shown = limit.map_or(n, |l| l.min(n));
        let target = if shown == 0 { 0 } else { op.b as usize / 4 % shown };
        let words = if shown == 0 { 0 } else { self.seqs[i].elems[target].val.words.len() };
        let mut m = self.mutctx(op, words);
        self.arm(op, stats);
        let r = self.ty.seq_iter_mut(self.seqs[i].h, limit, target, &mut m);
        self.calm_down(op, stats);
        if bad() {
            return;
        }
        if let Ok(addrs) = &r {
            if addrs.len() != shown {
                viol("iter", &format!("a mutable iterator over {} elements yields {}", shown, addrs.len()));
                return;
            }
            for (k, &a) in addrs.iter().enumerate() {
                if Some(a) != self.elem_addr(&self.seqs[i], &self.seqs[i].elems[k]) && self.seqs[i].blk != NOBLK {
                    viol("iter", &format!("a mutable iterator yields element {} at a wrong place", k));
                    return;
                }
            }
        }
        if shown > 0 {
            let rr = r.map(|_| ());
            Self::mutated(&mut self.seqs[i].elems[target].val, &m, &rr, st);
        }
    }

    fn op_mut_off(&mut self, op: &OpRec, st: &mut Step, stats: &mut Stats) {
        let Some(i) = self.free_seq(op.a) else { return };
        self.drop_cursors(i);
        let s = &self.seqs[i];
        let c: Vec<usize> = (0..s.elems.len()).filter(|&k| s.elems[k].soff > 0).collect();
        if c.is_empty() {
            return;
        }
        let k = c[op.b as usize % c.len()];
        let (off, words, h) = (s.elems[k].off, s.elems[k].val.words.len(), s.h);
        let want = self.elem_addr(s, &s.elems[k]);
        let mut m = self.mutctx(op, words);
        self.arm(op, stats);
        let r = self.ty.seq_mut_off(h, off, op.c % 3 != 0, &mut m);
        self.calm_down(op, stats);
        if bad() {
            return;
        }
        if let Ok(a) = r {
            if Some(a) != want {
                viol("offset", "mutable access by offset reaches a wrong place");
                return;
            }
        }
        m.check(&mut Vec::new());
        let rr = r.map(|_| ());
        Self::mutated(&mut self.seqs[i].elems[k].val, &m, &rr, st);
    }

    // -- sequences

    /// A sequence not borrowed by a drain.
    fn free_seq(&self, a: u32) -> Option<usize> {
        let c: Vec<usize> = (0..self.seqs.len()).filter(|&i| self.seqs[i].drain.is_none()).collect();
        (!c.is_empty()).then(|| c[a as usize % c.len()])
    }

    fn drop_cursors(&mut self, i: usize) {
        for c in self.seqs[i].cursors.drain(..) {
            self.ty.cur_free(c.h);
        }
    }

    fn seq_new(&mut self, op: &OpRec, stats: &mut Stats) {
        self.arm(op, stats);
        let r = self.ty.seq_new(op.b);
        self.calm_down(op, stats);
        match r {
            Ok(h) => {
                let idx = op.b & 3 >= 2;
                let mut s = SeqM {
                    h, idx, elems: vec![], occ: 0, cap: 0, blk: NOBLK, nreq: 0, drain: None, cursors: vec![],
                };
                self.note_cap(&mut s, 0, false);
                self.seqs.push(s);
            }
            Err(f) => {
                if heap().fired == 0 {
                    unexpected("creating a sequence", &f)
                }
            }
        }
    }

    /// After an operation that may have grown the sequence: capacity rules, and which block it owns now.
    /// `needed`: the offsets that had to fit; `fits`: they fitted before.
    fn note_cap(&self, s: &mut SeqM, needed: usize, fits: bool) {
        let h = heap();
        let cap = self.ty.seq_cap(s.h);
        let al = self.info.align;
        if cap < s.cap {
            viol("growth", &format!("the capacity shrank from {} to {}", s.cap, cap));
            return;
        }
        if fits && h.n_req > 0 {
            viol("growth", &format!("memory was requested although {} offsets fit the capacity of {}", needed, s.cap));
            return;
        }
        if cap > s.cap {
            let bound = 3 * s.cap.max(needed) + 128 / al + 8;
            if cap > bound {
                viol("growth", &format!("the capacity grew from {} to {} for {} occupied offsets", s.cap, cap, needed));
                return;
            }
        }
        let stale = s.blk == NOBLK || h.blocks[s.blk].state != BState::Live;
        if cap != s.cap || (stale && cap > 0) {
            if h.last_ok == usize::MAX {
                viol("growth", "the capacity changed although no memory was obtained");
                return;
            }
            s.blk = h.last_ok;
        }
        s.nreq += h.n_ok;
        s.cap = cap;
        if cap == 0 {
            return;
        }
        let b = &h.blocks[s.blk];
        if b.state != BState::Live {
            viol("growth", "a sequence lost its storage");
            return;
        }
        let data = cap.saturating_mul(al);
        let max = if s.idx { data + cap / 8 + 1 } else { data };
        if b.size < data || b.size > max || b.align < al {
            viol(
                "growth",
                &format!("a capacity of {} offsets of {} bytes is backed by a block of {} bytes, alignment {}", cap, al, b.size, b.align),
            );
            return;
        }
        // number of requests is logarithmic in the space obtained
        let log = {
            let mut n = 0u32;
            let mut x = 32usize;
            while x < data {
                x = x + x / 4;
                n += 1;
            }
            n
        };
        if s.nreq > 8 + log {
            viol("growth", &format!("{} storage requests for a capacity of {} bytes", s.nreq, data));
        }
    }

    fn append(&self, s: &mut SeqM, expect: &[u64], what: &str) -> bool {
        let (size, _) = self.ty.lay(expect);
        let soff = round_up(size, self.info.align) / self.info.align;
        let addr = if s.blk == NOBLK {
            // only values without a size can live in a sequence without storage
            if size > 0 {
                viol("layout", "a sequence without storage holds a value that needs some");
                return false;
            }
            None
        } else {
            Some(heap().blocks[s.blk].start + s.occ * self.info.align)
        };
        if (s.occ + soff) > s.cap {
            viol("growth", &format!("{} offsets are occupied in a capacity of {}", s.occ + soff, s.cap));
            return false;
        }
        let val = match addr {
            Some(a) => match self.adopt(a, expect, what) {
                Some(v) => v,
                None => return false,
            },
            None => Val { words: expect.to_vec(), size, parts: Rc::new(self.ty.lay(expect).1) },
        };
        s.elems.push(ElemM { val, off: s.occ, soff });
        s.occ += soff;
        true
    }

    fn ensure_seq(&mut self, op: &OpRec, stats: &mut Stats) -> Option<usize> {
        if self.free_seq(op.a).is_none() && self.seqs.len() < 5 {
            let quiet = OpRec { fk: FKind::None, ..*op };
            self.seq_new(&quiet, stats);
        }
        if bad() {
            return None;
        }
        self.free_seq(op.a)
    }

    fn op_push(&mut self, op: &OpRec, g: &mut Gen, st: &mut Step, stats: &mut Stats) {
        let Some(i) = self.ensure_seq(op, stats) else { return };
        if self.seqs[i].elems.len() > 600 {
            return;
        }
        self.drop_cursors(i);
        let Some(src) = self.source(op, g, Some(i)) else { return };
        self.push(op, i, src, st, stats);
    }

    fn push(&mut self, op: &OpRec, i: usize, src: Src, st: &mut Step, stats: &mut Stats) {
        st.doomed.extend(src.moved.iter().copied());
        let soff = round_up(src.size, self.info.align) / self.info.align;
        let needed = self.seqs[i].occ.saturating_add(soff);
        let fits = needed <= self.seqs[i].cap;
        self.arm(op, stats);
        rt().forbid_cb = src.must == Must::Overflow;
        let r = self.ty.seq_push(self.seqs[i].h, src.h);
        self.calm_down(op, stats);
        if !self.judge("appending", &r, src.must, false, stats) {
            return;
        }
        if src.must == Must::Overflow {
            // storage for what is there and the new element, and one bit for each offset
            let (a, bits) = (self.info.align, if self.seqs[i].idx { needed.div_ceil(8) } else { 0 });
            if !self.overflow_rules(src.size) {
                return;
            }
            let (h, need) = (heap(), needed.saturating_mul(a).saturating_add(bits));
            if h.n_req > 0 && h.min_req < need {
                viol("alloc-overrun", &format!("a request for {} bytes was made for a sequence that is to use {}", h.min_req, need));
                return;
            }
        }
        let mut s = std::mem::replace(&mut self.seqs[i], dummy());
        let space = if src.must == Must::Overflow { s.occ } else { needed };
        self.note_cap(&mut s, space, fits);
        if r.is_ok() && !bad() {
            self.append(&mut s, &src.expect, "an appended element");
            st.outcome = 10 + !fits as u32;
        } else {
            st.mism_failed = src.must == Must::Mismatch;
            st.outcome = 12 + !fits as u32;
        }
        self.seqs[i] = s;
    }

    /// Many small appends.
    fn op_burst(&mut self, op: &OpRec, st: &mut Step, stats: &mut Stats) {
        let Some(i) = self.ensure_seq(op, stats) else { return };
        self.drop_cursors(i);
        let n = 8 + op.b % 120;
        for k in 0..n {
            if self.seqs[i].elems.len() > 400 || rt().toks.len() > 30_000 {
                return;
            }
            let mut g = Gen::new(hash2(op.seed, 100 + k as u64), 3);
            g.simple = true;
            let Some(src) = self.fresh(&mut g) else { return };
            let sub = OpRec { fk: FKind::None, env: hash2(op.env, k as u64), ..*op };
            self.push(&sub, i, src, st, stats);
            if bad() {
                std::mem::forget(g);
                return;
            }
        }
    }

    /// A sequence that grows to megabytes, and its end.
    fn op_long(&mut self, op: &OpRec, st: &mut Step, stats: &mut Stats) {
        if self.seqs.len() >= 5 {
            return;
        }
        let quiet = OpRec { fk: FKind::None, ..*op };
        self.seq_new(&quiet, stats);
        if bad() {
            return;
        }
        let i = self.seqs.len() - 1;
        let goal = [200_000, 600_000, 2_500_000][op.c as usize % 3] / self.info.align.min(8);
        let mut total = 0;
        let mut big = 4;
        for k in 0..2500u64 {
            if total > goal * self.info.align.min(8) || rt().toks.len() > 20_000 {
                break;
            }
            let mut g = Gen::new(hash2(op.seed, 100 + k), big);
            g.simple = true;
            g.long = true;
            let Some(src) = self.fresh(&mut g) else { return };
            if k == 0 {
                // tracked values are in limited supply
                big = if src.expect.iter().any(|w| w & PAYW != 0) { 40 } else { 2500 };
            }
            total += src.size;
            let sub = OpRec { fk: FKind::None, env: hash2(op.env, k), ..*op };
            self.push(&sub, i, src, st, stats);
            if bad() {
                std::mem::forget(g);
                return;
            }
        }
        // everything is still there, then goes
        if op.b & 1 == 0 {
            let (mut tz, mut h) = (0, 0);
            let e = u32::MAX - rt().op;
            if !self.verify_seq(i, e, &mut tz, &mut h) {
                return;
            }
        }
        self.drop_seq(&quiet, i, st, stats);
    }

    fn items(&mut self, op: &OpRec, g: &mut Gen, n: usize, into: Option<usize>) -> Option<Vec<Src>> {
        let mut v = Vec::new();
        let odd = hash2(op.seed, 11) as usize % n.max(1);
        let special = matches!(op.fk, FKind::Mismatch | FKind::Overflow);
        let (m, o) = (g.want_mism, g.want_ovf);
        for k in 0..n {
            if k > 0 {
                g.cap = self.cap;
            }
            if special && k != odd {
                g.want_mism = false;
                g.want_ovf = None;
                v.push(self.fresh(g)?);
                g.want_mism = m;
                g.want_ovf = o;
            } else {
                // a clone must not borrow from a value another item moves away
                let c = match (hash2(op.seed, 20 + k as u64) % 8) as u32 {
                    k @ 0..=3 => k,
                    k if hash2(op.seed, 12) & 1 == 0 => 5 + (k & 3),
                    k => 9 + (k % 3),
                };
                let sub = OpRec { c, seed: hash2(op.seed, 40 + k as u64), ..*op };
                let s = self.source(&sub, g, into)?;
                v.push(s);
            }
        }
        Some(v)
    }

    /// How many items were completed by an interrupted bulk insertion.
    fn completed(ist: &ItemStat, ok: bool, n: usize) -> usize {
        let p = ist.pulled.get();
        if ok {
            n
        } else if ist.next_failed.get() {
            p
        } else {
            p.saturating_sub(1)
        }
    }

    fn op_extend(&mut self, op: &OpRec, g: &mut Gen, st: &mut Step, stats: &mut Stats) {
        let Some(i) = self.ensure_seq(op, stats) else { return };
        if self.seqs[i].elems.len() > 400 {
            return;
        }
        self.drop_cursors(i);
        let n = op.b as usize % 9;
        let Some(items) = self.items(op, g, n, Some(i)) else { return };
        let ist = Rc::new(ItemStat::default());
        for s in &items {
            st.doomed.extend(s.moved.iter().copied());
        }
        self.arm(op, stats);
        // no callback of the impossible item may run, but those before it do: judged by requests only
        let r = self.ty.seq_extend(self.seqs[i].h, items.iter().map(|s| s.h).collect(), ist.clone(), op.c >> 4);
        self.calm_down(op, stats);
        let must = items.iter().map(|s| s.must).find(|m| *m != Must::Succeed).unwrap_or(Must::Succeed);
        if !self.judge("extending", &r, must, false, stats) {
            return;
        }
        if r.is_ok() && ist.pulled.get() != n {
            viol("iter", &format!("extending took {} of {} items", ist.pulled.get(), n));
            return;
        }
        let done = Self::completed(&ist, r.is_ok(), n);
        let al = self.info.align;
        let mut s = std::mem::replace(&mut self.seqs[i], dummy());
        let mut needed = s.occ;
        for (k, it) in items.iter().enumerate() {
            if k < done || (k == done && it.must != Must::Overflow && !ist.next_failed.get()) {
                needed = needed.saturating_add(round_up(it.size, al) / al);
            }
        }
        let fits = needed <= s.cap && must != Must::Overflow;
        self.note_cap(&mut s, needed, fits);
        for it in &items[..done.min(n)] {
            if bad() {
                break;
            }
            if it.must != Must::Succeed {
                viol("array", "an item that cannot exist was appended");
                break;
            }
            self.append(&mut s, &it.expect, "an element appended in bulk");
        }
        st.mism_failed = must == Must::Mismatch && r.is_err();
        st.outcome = 14 + r.is_err() as u32;
        self.seqs[i] = s;
    }

    fn op_collect(&mut self, op: &OpRec, g: &mut Gen, st: &mut Step, stats: &mut Stats, mac: bool) {
        if self.seqs.len() >= 5 {
            let c: Vec<usize> = (0..self.seqs.len()).filter(|&i| self.seqs[i].drain.is_none()).collect();
            if c.is_empty() {
                return;
            }
            let quiet = OpRec { fk: FKind::None, ..*op };
            self.drop_seq(&quiet, c[op.a as usize % c.len()], st, stats);
            if bad() {
                return;
            }
        }
        let n = op.b as usize % if mac { 4 } else { 9 };
        let Some(items) = self.items(op, g, n, None) else { return };
        let ist = Rc::new(ItemStat::default());
        for s in &items {
            st.doomed.extend(s.moved.iter().copied());
        }
        let idx = op.a & 1 == 1;
        self.arm(op, stats);
        let hs: Vec<H> = items.iter().map(|s| s.h).collect();
        let r = if mac {
            self.ty.seq_macro(idx, hs)
        } else {
            self.ty.seq_collect(idx, hs, ist.clone(), op.c >> 4)
        };
        self.calm_down(op, stats);
        let must = items.iter().map(|s| s.must).find(|m| *m != Must::Succeed).unwrap_or(Must::Succeed);
        if !self.judge("collecting", &r, must, false, stats) {
            return;
        }
        st.mism_failed = must == Must::Mismatch && r.is_err();
        st.outcome = 16 + r.is_err() as u32;
        let Ok(h) = r else { return };
        if !mac && ist.pulled.get() != n {
            viol("iter", &format!("collecting took {} of {} items", ist.pulled.get(), n));
            return;
        }
        let mut s = SeqM { h, idx, elems: vec![], occ: 0, cap: 0, blk: NOBLK, nreq: 0, drain: None, cursors: vec![] };
        let al = self.info.align;
        let needed = items.iter().map(|s| round_up(s.size, al) / al).sum();
        self.note_cap(&mut s, needed, false);
        for it in &items {
            if bad() {
                return;
            }
            self.append(&mut s, &it.expect, "a collected element");
        }
        self.seqs.push(s);
    }

    fn drop_seq(&mut self, op: &OpRec, i: usize, st: &mut Step, stats: &mut Stats) {
        self.drop_cursors(i);
        let s = self.seqs.swap_remove(i);
        for e in &s.elems {
            self.doom(st, &e.val.words);
        }
        if s.blk != NOBLK {
            st.doomed_blocks.push(s.blk);
        }
        self.arm(op, stats);
        let r = self.ty.seq_drop(s.h);
        self.calm_down(op, stats);
        self.judge_drop("dropping a sequence", &r);
        st.outcome = 18 + r.is_err() as u32;
    }

    /// Lookups by offset that must fail or succeed.
    fn op_probe(&mut self, op: &OpRec) {
        let Some(i) = self.free_seq(op.a) else { return };
        let s = &self.seqs[i];
        let mut r = Rng::new(hash2(op.seed, 7));
        let al = self.info.align;
        // foreign addresses are no elements
        let mut foreign: Vec<usize> = self.boxes.iter().filter(|b| b.val.size > 0).map(|b| self.ty.box_addr(b.h)).collect();
        for (j, t) in self.seqs.iter().enumerate() {
            if j != i && t.drain.is_none() {
                foreign.extend(t.elems.iter().filter(|e| e.soff > 0).filter_map(|e| self.elem_addr(t, e)));
            }
        }
        for a in &self.arenas {
            foreign.extend(a.vals.iter().filter(|v| v.val.size > 0).map(|v| v.addr));
        }
        for _ in 0..3 {
            if foreign.is_empty() {
                break;
            }
            let f = r.pick(&foreign);
            if let Ok(o) = self.ty.seq_offset_of(s.h, f) {
                viol("offset", &format!("offset_of gives {} for an element of another container", o));
                return;
            }
        }
        // nor is anything in the spare room behind the last element, or next to the storage (where another
        // container's first element may lie)
        if s.blk != NOBLK && s.cap > 0 {
            let st = heap().blocks[s.blk].start;
            for k in 0..4 {
                let o = match k {
                    0 => s.occ,
                    1 => s.cap,
                    2 => s.occ + r.below((s.cap - s.occ) as u64 + 2) as usize,
                    _ => usize::MAX - r.below(3) as usize,
                };
                if let Ok(x) = self.ty.seq_offset_of(s.h, st.wrapping_add(o.wrapping_mul(al))) {
                    viol("offset", &format!("offset_of gives {} for a place {} offsets into a sequence that occupies {}", x, o as isize, s.occ));
                    return;
                }
            }
        }
        for e in &s.elems {
            if e.soff == 0 {
                continue;
            }
            let Some(a) = self.elem_addr(s, e) else { continue };
            match self.ty.seq_offset_of(s.h, a) {
                Ok(o) if o == e.off => {}
                x => {
                    viol("offset", &format!("offset_of the element at offset {} gives {:?}", e.off, x));
                    return;
                }
            }
            match self.ty.seq_at_unchecked(s.h, e.off) {
                Ok(p) if p == a => {}
                x => {
                    viol("offset", &format!("from_offset_unchecked({}) gives {:?}", e.off, x));
                    return;
                }
            }
        }
        if !s.idx {
            return;
        }
        let is = |o: usize| s.elems.iter().any(|e| e.soff > 0 && e.off == o);
        for k in 0..10 {
            let o = match k {
                0 => s.occ,
                1 => s.occ.wrapping_sub(1),
                2 => s.cap,
                3 => usize::MAX - r.below(9) as usize,
                4 => (usize::MAX / al).wrapping_add(r.below(3) as usize),
                5 => (usize::MAX / 8).wrapping_add(r.below(3) as usize),
                6 => 1usize << r.below(64),
                _ => r.below(s.cap as u64 + 4) as usize,
            };
            let want = is(o);
            match self.ty.seq_valid(s.h, o) {
                Ok(v) if v == want => {}
                x => {
                    viol("offset", &format!("is_offset_valid({}) gives {:?}, expected {} (occupied {})", o, x, want, s.occ));
                    return;
                }
            }
            let res = if k & 1 == 0 { self.ty.seq_from_offset(s.h, o) } else { self.ty.seq_from_offset_mut(s.h, o) };
            match (res, want) {
                (Ok(p), true) if p == heap().blocks[s.blk].start + o * al => {}
                (Err(Fail::Lib(_)), false) => {}
                (x, _) => {
                    viol("offset", &format!("from_offset({}) gives {:?}, expected {}", o, x, if want { "an element" } else { "a panic" }));
                    return;
                }
            }
        }
        for e in &s.elems {
            if e.soff > 0 {
                let a = self.elem_addr(s, e);
                let x = self.ty.seq_from_offset(s.h, e.off);
                if x.as_ref().ok().copied() != a {
                    viol("offset", &format!("from_offset({}) does not give the element there: {:?}", e.off, x));
                    return;
                }
                let x = self.ty.seq_from_offset_mut(s.h, e.off);
                if x.as_ref().ok().copied() != a {
                    viol("offset", &format!("from_offset_mut({}) does not give the element there: {:?}", e.off, x));
                    return;
                }
            }
        }
    }

    // -- draining

    fn op_take(&mut self, op: &OpRec, stats: &mut Stats) {
        let Some(i) = self.free_seq(op.a) else { return };
        self.drop_cursors(i);
        self.arm(op, stats);
        let r = self.ty.take(self.seqs[i].h);
        self.calm_down(op, stats);
        match r {
            Ok(h) => {
                let s = &mut self.seqs[i];
                if heap().n_req > 0 {
                    viol("growth", "draining requested memory");
                    return;
                }
                s.occ = 0;
                let rest: VecDeque<ElemM> = s.elems.drain(..).collect();
                let base = if s.blk == NOBLK { 0 } else { heap().blocks[s.blk].start };
                s.drain = Some(DrainM { h, rest, hand: vec![], base });
                let i2 = i;
                self.drain_len(i2);
            }
            Err(f) => unexpected("draining", &f),
        }
    }

    fn drain_len(&self, i: usize) -> bool {
        let d = self.seqs[i].drain.as_ref().unwrap();
        if d.h.is_null() {
            return true;
        }
        let n = d.rest.len();
        let got = self.ty.drain_len(d.h);
        if got != (n, (n, Some(n))) {
            viol("iter", &format!("a drain with {} elements left announces {:?}", n, got));
            return false;
        }
        true
    }

    fn yielded(&mut self, i: usize, h: H, e: ElemM) -> bool {
        let addr = self.ty.own_addr(h);
        let d = self.seqs[i].drain.as_mut().unwrap();
        if e.val.size > 0 && addr != d.base + e.off * self.info.align {
            viol("iter", "a drain yields an element out of order or at a wrong place");
            return false;
        }
        d.hand.push(HandM { h, val: e.val });
        true
    }

    fn op_drain_next(&mut self, op: &OpRec, st: &mut Step, stats: &mut Stats) {
        let c: Vec<usize> = (0..self.seqs.len())
            .filter(|&i| self.seqs[i].drain.as_ref().map_or(false, |d| !d.h.is_null()))
            .collect();
        if c.is_empty() {
            return self.op_take(op, stats);
        }
        let i = c[op.a as usize % c.len()];
        let nth = if op.b % 5 == 0 { op.c as usize % 4 } else { 0 };
        let d = self.seqs[i].drain.as_mut().unwrap();
        let h = d.h;
        let skipped: Vec<ElemM> = {
            let k = nth.min(d.rest.len());
            d.rest.drain(..k).collect()
        };
        for e in &skipped {
            st.doomed.extend(words_toks(&e.val.words));
        }
        self.arm(op, stats);
        let r = self.ty.drain_next(h, nth);
        self.calm_down(op, stats);
        if bad() {
            return;
        }
        match r {
            Ok(x) => {
                if rt().fired_drop > 0 {
                    viol("swallowed-panic", "a destructor's panic did not reach the caller of a drain");
                    return;
                }
                let d = self.seqs[i].drain.as_mut().unwrap();
                let want = d.rest.pop_front();
                match (x, want) {
                    (Some(h), Some(e)) => {
                        self.yielded(i, h, e);
                        st.outcome = 20;
                    }
                    (None, None) => st.outcome = 21,
                    (Some(_), None) => viol("iter", "a drain yields more elements than there were"),
                    (None, Some(_)) => viol("iter", "a drain ended early"),
                }
            }
            Err(Fail::Injected) if rt().fired_drop > 0 => {
                // `nth` was interrupted by the destructor of one of the skipped elements: those before it and
                // itself are gone, the others are still to be yielded
                let d = self.seqs[i].drain.as_mut().unwrap();
                let n = self.ty.drain_len(h).0;
                let back = n.wrapping_sub(d.rest.len());
                if back >= skipped.len().max(1) {
                    viol("iter", "an interrupted drain announces a wrong number of elements");
                    return;
                }
                let mut keep = skipped;
                let keep = keep.split_off(keep.len() - back);
                for e in keep.into_iter().rev() {
                    d.rest.push_front(e);
                }
                st.outcome = 22;
            }
            Err(f) => unexpected("advancing a drain", &f),
        }
        if !bad() {
            self.drain_len(i);
        }
    }

    /// Finish a drain: what was yielded is dropped first, last, or the iterator is consumed in some other way.
    fn end_drain(&mut self, op: &OpRec, i: usize, st: &mut Step, stats: &mut Stats) {
        let mut d = self.seqs[i].drain.take().unwrap();
        self.draining = Some(i);
        let quiet = OpRec { fk: FKind::None, ..*op };
        let hands_first = op.b & 8 != 0;
        if hands_first {
            for o in d.hand.drain(..) {
                self.drop_hand(&quiet, o, st, stats);
                if bad() {
                    return;
                }
            }
        }
        if !d.h.is_null() {
            for e in &d.rest {
                st.doomed.extend(words_toks(&e.val.words));
            }
            let n = d.rest.len();
            let h = d.h;
            d.h = std::ptr::null_mut();
            match op.b % 8 {
                0 => {
                    // forgetting the iterator gives the rest up
                    self.ty.drain_forget(h);
                    for e in d.rest.drain(..) {
                        give_up(&e.val.words);
                    }
                    st.outcome = 23;
                }
                1 => {
                    self.arm(op, stats);
                    let r = self.ty.drain_count(h);
                    self.calm_down(op, stats);
                    d.rest.clear();
                    if !self.judge_drop("counting a drain", &r.as_ref().map(|_| ()).map_err(|f| f.clone())) {
                        return;
                    }
                    if let Ok(k) = r {
                        if k != n {
                            viol("iter", &format!("a drain of {} elements counts {}", n, k));
                            return;
                        }
                    }
                    st.outcome = 24;
                }
                2 => {
                    self.arm(op, stats);
                    let r = self.ty.drain_last(h);
                    self.calm_down(op, stats);
                    let last = d.rest.pop_back();
                    d.rest.clear();
                    if !self.judge_drop("taking the last of a drain", &r.as_ref().map(|_| ()).map_err(|f| f.clone())) {
                        return;
                    }
                    if let Ok(x) = r {
                        match (x, last) {
                            (Some(h), Some(e)) => {
                                self.seqs[i].drain = Some(d);
                                if !self.yielded(i, h, e) {
                                    return;
                                }
                                d = self.seqs[i].drain.take().unwrap();
                            }
                            (None, None) => {}
                            (x, _) => {
                                viol("iter", &format!("the last of a drain is {}", if x.is_some() { "made up" } else { "missing" }));
                                return;
                            }
                        }
                    }
                    st.outcome = 25;
                }
                6 => {
                    let (how, k) = (op.seed as u32 >> 8, (op.seed >> 40) as usize % 5);
                    let want = adapt_model(n, how, k);
                    let seen = Pulled::default();
                    self.arm(op, stats);
                    let r = self.ty.drain_adapt(h, how, k, &seen);
                    self.calm_down(op, stats);
                    let seen = seen.into_inner();
                    let rest: Vec<ElemM> = d.rest.drain(..).collect();
                    // the closure that takes the elements may have panicked as well
                    if !(r == Err(Fail::Injected) && rt().fired_cb > 0) && !self.judge_drop("using up a drain", &r) {
                        return;
                    }
                    if r.is_ok() && rt().fired_cb > 0 {
                        return viol("swallowed-panic", "using up a drain: a closure's panic did not reach the caller");
                    }
                    if seen.len() > want.len() || (r.is_ok() && seen.len() != want.len()) {
                        return viol("iter", &format!("a drain used through an adaptor shows {} elements instead of {}", seen.len(), want.len()));
                    }
                    self.seqs[i].drain = Some(d);
                    let mut want = want.into_iter().peekable();
                    let mut seen = seen.into_iter();
                    for (k, e) in rest.into_iter().enumerate() {
                        if want.peek() == Some(&k) {
                            want.next();
                            if let Some(h) = seen.next() {
                                if !self.yielded(i, h, e) {
                                    return;
                                }
                            }
                        }
                    }
                    d = self.seqs[i].drain.take().unwrap();
                    st.outcome = 45;
                }
                5 => {
                    let rest: Vec<ElemM> = d.rest.drain(..).collect();
                    if !self.drain_on(op, h, rest, st, stats) {
                        return;
                    }
                }
                _ => {
                    self.arm(op, stats);
                    let r = self.ty.drain_drop(h);
                    self.calm_down(op, stats);
                    d.rest.clear();
                    if !self.judge_drop("dropping a drain", &r) {
                        return;
                    }
                    st.outcome = 26 + r.is_err() as u32;
                }
            }
        }
        // yielded values outlive the iterator: sometimes keep them for a while
        if op.b & 16 != 0 && !d.hand.is_empty() {
            self.seqs[i].drain = Some(d);
            return;
        }
        for o in d.hand.drain(..) {
            // keep the faults of the main step from being judged against this one
            let (fc, fd) = (rt().fired_cb, rt().fired_drop);
            self.drop_hand(&quiet, o, st, stats);
            rt().fired_cb = fc;
            rt().fired_drop = fd;
            if bad() {
                return;
            }
        }
    }

    /// The rest of a drain goes straight into another sequence.
    fn drain_on(&mut self, op: &OpRec, h: H, rest: Vec<ElemM>, st: &mut Step, stats: &mut Stats) -> bool {
        let how = (op.seed >> 16) as u32;
        // faults in the direct transfer would leave no trace of how far it came
        let quiet = OpRec { fk: FKind::None, ..*op };
        let op = if how % 3 == 0 { &quiet } else { op };
        let ist = ItemStat::default();
        let n = rest.len();
        let al = self.info.align;
        // the sequence being drained keeps its place in the list: it is not a candidate
        let from = self.draining;
        let c: Vec<usize> = (0..self.seqs.len()).filter(|&j| self.seqs[j].drain.is_none() && self.seqs[j].elems.len() <= 400 && Some(j) != from).collect();
        if self.seqs.len() < 5 && (c.is_empty() || op.seed >> 50 & 1 == 0) {
            let idx = op.seed >> 51 & 1 == 0;
            self.arm(op, stats);
            let r = self.ty.drain_collect(h, idx, how, &ist);
            self.calm_down(op, stats);
            if !self.judge("collecting a drain", &r, Must::Succeed, false, stats) {
                return false;
            }
            st.outcome = 46 + r.is_err() as u32;
            let Ok(h) = r else { return true };
            let mut s = SeqM { h, idx, elems: vec![], occ: 0, cap: 0, blk: NOBLK, nreq: 0, drain: None, cursors: vec![] };
            let needed = rest.iter().map(|e| round_up(e.val.size, al) / al).sum();
            self.note_cap(&mut s, needed, false);
            for e in &rest {
                if bad() {
                    return false;
                }
                self.append(&mut s, &e.val.words, "an element collected from a drain");
            }
            self.seqs.push(s);
            return !bad();
        }
        if c.is_empty() {
            let r = self.ty.drain_drop(h);
            return self.judge_drop("dropping a drain", &r);
        }
        let j = c[(op.seed >> 52) as usize % c.len()];
        self.drop_cursors(j);
        self.arm(op, stats);
        let r = self.ty.drain_into(h, self.seqs[j].h, how, &ist);
        self.calm_down(op, stats);
        if !self.judge("moving a drain into a sequence", &r, Must::Succeed, false, stats) {
            return false;
        }
        let done = Self::completed(&ist, r.is_ok(), n).min(n);
        let mut s = std::mem::replace(&mut self.seqs[j], dummy());
        let tried = done + (r.is_err() && !ist.next_failed.get()) as usize;
        let needed = rest.iter().take(tried).fold(s.occ, |x, e| x + round_up(e.val.size, al) / al);
        let fits = needed <= s.cap;
        self.note_cap(&mut s, needed, fits);
        for e in &rest[..done] {
            if bad() {
                break;
            }
            self.append(&mut s, &e.val.words, "an element moved from a drain");
        }
        st.outcome = 48 + r.is_err() as u32;
        self.seqs[j] = s;
        !bad()
    }

    fn drop_hand(&mut self, op: &OpRec, o: HandM, st: &mut Step, stats: &mut Stats) -> bool {
        self.doom(st, &o.val.words);
        let n = heap().live.len();
        self.arm(op, stats);
        let r = self.ty.own_drop(o.h);
        self.calm_down(op, stats);
        if heap().live.len() != n {
            viol("alloc-double-free", "dropping the owner of a value freed storage that is not its own");
            return false;
        }
        self.judge_drop("dropping a drained element", &r)
    }

    fn op_hand(&mut self, op: &OpRec, st: &mut Step, stats: &mut Stats) {
        let c: Vec<usize> = (0..self.seqs.len())
            .filter(|&i| self.seqs[i].drain.as_ref().map_or(false, |d| !d.hand.is_empty()))
            .collect();
        if c.is_empty() {
            return self.op_drain_next(op, st, stats);
        }
        let i = c[op.a as usize % c.len()];
        let mut d = self.seqs[i].drain.take().unwrap();
        let j = op.b as usize % d.hand.len();
        match op.c % 5 {
            0 | 1 => {
                let mut m = self.mutctx(op, d.hand[j].val.words.len());
                self.arm(op, stats);
                let r = self.ty.own_mut(d.hand[j].h, &mut m);
                self.calm_down(op, stats);
                m.check(&mut Vec::new());
                Self::mutated(&mut d.hand[j].val, &m, &r, st);
            }
            2 => d.hand[j].h = self.ty.own_raw(d.hand[j].h),
            _ => {
                let o = d.hand.swap_remove(j);
                self.drop_hand(op, o, st, stats);
            }
        }
        if d.h.is_null() && d.hand.is_empty() {
            return;
        }
        self.seqs[i].drain = Some(d);
    }

    /// Drain completely, look at everything, refill.
    fn op_cycle(&mut self, op: &OpRec, g: &mut Gen, st: &mut Step, stats: &mut Stats) {
        let Some(i) = self.ensure_seq(op, stats) else { return };
        let quiet = OpRec { fk: FKind::None, ..*op };
        self.drop_cursors(i);
        self.arm(&quiet, stats);
        let r = self.ty.take(self.seqs[i].h);
        self.calm_down(op, stats);
        let Ok(h) = r else {
            return viol("unexpected-panic", "draining failed");
        };
        let s = &mut self.seqs[i];
        s.occ = 0;
        let rest: VecDeque<ElemM> = s.elems.drain(..).collect();
        let base = if s.blk == NOBLK { 0 } else { heap().blocks[s.blk].start };
        s.drain = Some(DrainM { h, rest, hand: vec![], base });
        let stop = op.b as usize % 8;
        for _ in 0..stop {
            if !self.drain_len(i) {
                return;
            }
            let r = self.ty.drain_next(h, 0);
            let want = self.seqs[i].drain.as_mut().unwrap().rest.pop_front();
            match (r, want) {
                (Ok(Some(h)), Some(e)) => {
                    if !self.yielded(i, h, e) {
                        return;
                    }
                }
                (Ok(None), None) => break,
                (r, _) => return viol("iter", &format!("a drain yields {:?} out of turn", r.map(|x| x.is_some()))),
            }
        }
        let end = OpRec { b: 3 + (op.c % 2) * 8, fk: if op.fk == FKind::Drop { FKind::Drop } else { FKind::None }, ..*op };
        let cap = self.seqs[i].cap;
        self.end_drain(&end, i, st, stats);
        if bad() {
            return;
        }
        if self.ty.seq_cap(self.seqs[i].h) != cap {
            return viol("growth", "draining changed the capacity");
        }
        if rt().fired_drop > 0 {
            return;
        }
        if (op.c >> 1) % 3 == 0 {
            return self.echo(op, i, st, stats);
        }
        // refill: what fitted before fits again without asking for memory
        let Some(src) = self.fresh(g) else { return };
        if src.must != Must::Succeed {
            let _ = self.ty.init_drop(src.h);
            return;
        }
        self.push(&quiet, i, src, st, stats);
    }

    /// Fill, look up, drain, fill with the same values in another order, look up the same places.
    fn echo(&mut self, op: &OpRec, i: usize, st: &mut Step, stats: &mut Stats) {
        let quiet = OpRec { fk: FKind::None, ..*op };
        let mut r = Rng::new(hash2(op.seed, 0xEC40));
        let n = 2 + r.below(8);
        let turn = r.below(n);
        let back = r.chance(1, 2);
        let mut at: Vec<usize> = vec![];
        for round in 0..2 {
            for k in 0..n {
                let k = match (round, back) {
                    (0, _) => k,
                    (_, false) => (k + turn) % n,
                    (_, true) => n - 1 - k,
                };
                let mut g = Gen::new(hash2(op.seed, 300 + k), 3);
                g.simple = true;
                let Some(src) = self.fresh(&mut g) else { return };
                if src.must != Must::Succeed {
                    let _ = self.ty.init_drop(src.h);
                    continue;
                }
                self.push(&quiet, i, src, st, stats);
                if bad() {
                    return;
                }
            }
            let s = &self.seqs[i];
            if s.blk == NOBLK {
                return;
            }
            let start = heap().blocks[s.blk].start;
            if round == 0 {
                at = s.elems.iter().filter(|e| e.soff > 0).map(|e| e.off).collect();
                if at.is_empty() {
                    return;
                }
                // the last lookup before is the first one after
                let j = r.below(at.len() as u64) as usize;
                let last = at.len() - 1;
                at.swap(j, last);
            } else {
                at.reverse();
            }
            for &o in &at {
                let want = s.elems.iter().any(|e| e.soff > 0 && e.off == o);
                let place = start + o * self.info.align;
                if !s.idx {
                    if want && self.ty.seq_at_unchecked(s.h, o) != Ok(place) {
                        return viol("offset", &format!("from_offset_unchecked({}) does not give the element there", o));
                    }
                    continue;
                }
                let way = hash2(op.seed, o as u64) % 3;
                if way == 2 {
                    match self.ty.seq_valid(s.h, o) {
                        Ok(v) if v == want => {}
                        x => return viol("offset", &format!("is_offset_valid({}) gives {:?} after a refill, expected {}", o, x, want)),
                    }
                }
                let x = if way == 1 { self.ty.seq_from_offset_mut(s.h, o) } else { self.ty.seq_from_offset(s.h, o) };
                match (x, want) {
                    (Ok(p), true) if p == place => {}
                    (Err(Fail::Lib(_)), false) => {}
                    (x, _) => {
                        let w = if want { "an element" } else { "a panic" };
                        return viol("offset", &format!("from_offset({}) gives {:?} after a refill, expected {}", o, x, w));
                    }
                }
            }
            if round == 0 {
                self.arm(&quiet, stats);
                let x = self.ty.take(self.seqs[i].h);
                self.calm_down(&quiet, stats);
                let Ok(h) = x else {
                    return viol("unexpected-panic", "draining failed");
                };
                let s = &mut self.seqs[i];
                s.occ = 0;
                let rest: VecDeque<ElemM> = s.elems.drain(..).collect();
                s.drain = Some(DrainM { h, rest, hand: vec![], base: start });
                self.end_drain(&OpRec { b: 3, ..quiet }, i, st, stats);
                if bad() || self.seqs[i].drain.is_some() {
                    return;
                }
            }
        }
    }

    // -- cursors

    fn check_addrs(&self, i: usize, what: &str, r: R<Vec<usize>>, want: &[usize]) {
        let s = &self.seqs[i];
        match r {
            Ok(a) => {
                if a.len() != want.len() {
                    return viol("iter", &format!("{} used through an adaptor shows {} elements instead of {}", what, a.len(), want.len()));
                }
                for (&a, &k) in a.iter().zip(want) {
                    if s.blk != NOBLK && Some(a) != self.elem_addr(s, &s.elems[k]) {
                        return viol("iter", &format!("{} used through an adaptor shows a wrong element in place of element {}", what, k));
                    }
                }
            }
            Err(f) => unexpected("iterating", &f),
        }
    }

    fn op_cursor(&mut self, op: &OpRec) {
        let Some(i) = self.free_seq(op.a) else { return };
        let n = self.seqs[i].elems.len();
        let k = self.seqs[i].cursors.len();
        if k == 0 || (op.b % 6 == 0 && k < 3) {
            let h = self.ty.cur_new(self.seqs[i].h);
            self.seqs[i].cursors.push(CurM { h, pos: 0, end: n });
        }
        let j = op.c as usize % self.seqs[i].cursors.len();
        let (h, pos, end) = {
            let c = &self.seqs[i].cursors[j];
            (c.h, c.pos, c.end)
        };
        let left = end - pos;
        let got = self.ty.cur_len(h);
        if got != (left, (left, Some(left))) {
            return viol("iter", &format!("an iterator with {} elements left announces {:?}", left, got));
        }
        match op.b % 7 {
            1 => {
                let lim = op.seed as usize % (left + 3);
                let lim = if op.seed & 1 << 40 != 0 { usize::MAX - lim } else { lim };
                let h2 = self.ty.cur_limit(h, lim);
                let end2 = pos + left.min(lim);
                self.seqs[i].cursors.push(CurM { h: h2, pos, end: end2 });
                let g2 = self.ty.cur_len(h2).0;
                if g2 != left.min(lim) {
                    viol("iter", &format!("an iterator over {} elements limited to {} announces {}", left, lim, g2));
                }
                if self.seqs[i].cursors.len() > 4 {
                    let c = self.seqs[i].cursors.swap_remove(0);
                    self.ty.cur_free(c.h);
                }
            }
            2 => {
                let c = self.seqs[i].cursors.swap_remove(j);
                match self.ty.cur_count(c.h) {
                    Ok(x) if x == left => {}
                    x => viol("iter", &format!("an iterator with {} elements left counts {:?}", left, x)),
                }
            }
            4 => {
                let c = self.seqs[i].cursors.swap_remove(j);
                let (how, n) = (op.seed as u32 >> 8, (op.seed >> 40) as usize % 5);
                let want: Vec<usize> = adapt_model(left, how, n).into_iter().map(|k| k + pos).collect();
                let r = self.ty.cur_adapt(c.h, how, n);
                self.check_addrs(i, "an iterator", r, &want);
            }
            _ => {
                let nth = if op.b % 7 == 3 { op.seed as usize % 4 } else { 0 };
                let want = (pos + nth < end).then(|| pos + nth);
                let waddr = want.and_then(|p| self.elem_addr(&self.seqs[i], &self.seqs[i].elems[p]));
                match self.ty.cur_next(h, nth) {
                    Ok(x) => {
                        if x.is_some() != want.is_some() || (waddr.is_some() && x != waddr) {
                            viol("iter", "a resumed iterator yields a wrong element");
                        }
                    }
                    Err(f) => unexpected("iterating", &f),
                }
                self.seqs[i].cursors[j].pos = (pos + nth + 1).min(end);
            }
        }
    }

    // -- arenas

    fn arena_new(&mut self, op: &OpRec, stats: &mut Stats) {
        if self.arenas.len() >= 3 {
            return;
        }
        let tag = self.next_tag;
        self.next_tag += 1;
        heap().tag = tag;
        let quiet = OpRec { fk: FKind::None, ..*op };
        self.arm(&quiet, stats);
        let r = lib(|| match op.b % 3 {
            0 => Bump::with_capacity(64 + op.c as usize % 600),
            _ => Bump::new(),
        });
        self.calm_down(op, stats);
        heap().tag = 0;
        match r {
            Ok(b) => {
                let limited = op.b % 5 == 4;
                if limited {
                    b.set_allocation_limit(Some(600 + (op.c as usize % 5) * 700));
                }
                self.arenas.push(ArenaM { bump: Box::into_raw(Box::new(b)), tag, limited, vals: vec![] })
            }
            Err(f) => unexpected("creating an arena", &f),
        }
    }

    fn op_arena_put(&mut self, op: &OpRec, g: &mut Gen, st: &mut Step, stats: &mut Stats) {
        if self.arenas.is_empty() {
            self.arena_new(op, stats);
            if bad() || self.arenas.is_empty() {
                return;
            }
        }
        let i = op.a as usize % self.arenas.len();
        if self.arenas[i].vals.len() > 40 {
            return;
        }
        let Some(src) = self.source(op, g, None) else { return };
        let a = &self.arenas[i];
        let (tag, limited) = (a.tag, a.limited);
        let bump: &'static Bump = unsafe { &*a.bump };
        st.doomed.extend(src.moved.iter().copied());
        heap().tag = tag;
        self.arm(op, stats);
        rt().forbid_cb = src.must == Must::Overflow;
        let r = self.ty.own_new_in(src.h, bump);
        self.calm_down(op, stats);
        heap().tag = 0;
        if !self.judge("building a value in an arena", &r, src.must, limited, stats) {
            return;
        }
        if src.must == Must::Overflow && !self.overflow_rules(src.size) {
            return;
        }
        st.outcome = 28 + r.is_err() as u32;
        st.mism_failed = src.must == Must::Mismatch && r.is_err();
        if let Ok(h) = r {
            let addr = self.ty.own_addr(h);
            if src.size > 0 {
                match heap().containing(addr, src.size) {
                    Some(b) if heap().blocks[b].tag == tag => {}
                    _ => return viol("layout", "a value created in an arena does not lie in the arena's storage"),
                }
            }
            if let Some(val) = self.adopt(addr, &src.expect, "a value in an arena") {
                self.arenas[i].vals.push(AValM { addr, val, kind: AKind::Owned(h) });
            }
        }
    }

    fn op_own(&mut self, op: &OpRec, st: &mut Step, stats: &mut Stats) {
        let c: Vec<usize> = (0..self.arenas.len()).filter(|&i| !self.arenas[i].vals.is_empty()).collect();
        if c.is_empty() {
            return;
        }
        let i = c[op.a as usize % c.len()];
        let j = op.b as usize % self.arenas[i].vals.len();
        let owned = match self.arenas[i].vals[j].kind {
            AKind::Owned(h) => Some(h),
            AKind::Leaked => None,
        };
        let (live, req) = (heap().live.len(), heap().tot_req);
        match (op.c % 6, owned) {
            (0 | 1, Some(h)) => {
                let v = self.arenas[i].vals.swap_remove(j);
                self.doom(st, &v.val.words);
                self.arm(op, stats);
                let r = self.ty.own_drop(h);
                self.calm_down(op, stats);
                self.judge_drop("dropping an arena value", &r);
                st.outcome = 30;
            }
            (2, Some(h)) => {
                self.arm(op, stats);
                let r = self.ty.own_leak(h);
                self.calm_down(op, stats);
                if bad() {
                    return;
                }
                match r {
                    Ok(a) if a == self.arenas[i].vals[j].addr => {}
                    Ok(_) => return viol("content", "leaking an owner gives a reference to another place"),
                    Err(f) => return viol("leak-value", &format!("leaking an owner did not leave the value alone: {:?}", f)),
                }
                self.arenas[i].vals[j].kind = AKind::Leaked;
                st.outcome = 31;
            }
            (3, Some(h)) => {
                let h2 = self.ty.own_raw(h);
                self.arenas[i].vals[j].kind = AKind::Owned(h2);
                if self.ty.own_addr(h2) != self.arenas[i].vals[j].addr {
                    viol("content", "an owner taken through a raw pointer is another one");
                }
            }
            (_, o) => {
                let mut m = self.mutctx(op, self.arenas[i].vals[j].val.words.len());
                let addr = self.arenas[i].vals[j].addr;
                self.arm(op, stats);
                let r = match o {
                    Some(h) => self.ty.own_mut(h, &mut m),
                    None => self.ty.mut_at(addr, &mut m),
                };
                self.calm_down(op, stats);
                m.check(&mut Vec::new());
                Self::mutated(&mut self.arenas[i].vals[j].val, &m, &r, st);
            }
        }
        if !bad() && (heap().live.len() != live || heap().tot_req != req) {
            viol("alloc-unknown-free", "handling the owner of an arena value changed the allocated storage");
        }
    }

    fn arena_drop(&mut self, op: &OpRec, i: usize, st: &mut Step, stats: &mut Stats) {
        // no owner may outlive the arena: drop some, leak or forget the others
        let quiet = OpRec { fk: FKind::None, ..*op };
        let mut a = self.arenas.swap_remove(i);
        let mut r = Rng::new(hash2(op.seed, 13));
        let mut lost = Vec::new();
        for v in a.vals.drain(..) {
            match v.kind {
                AKind::Leaked => lost.push(v.val),
                AKind::Owned(h) => match r.below(4) {
                    0 => {
                        self.ty.own_forget(h);
                        lost.push(v.val);
                    }
                    _ => {
                        self.doom(st, &v.val.words);
                        self.arm(&quiet, stats);
                        let x = self.ty.own_drop(h);
                        self.calm_down(op, stats);
                        if !self.judge_drop("dropping an arena value", &x) {
                            return;
                        }
                    }
                },
            }
        }
        let b = unsafe { Box::from_raw(a.bump) };
        self.arm(&quiet, stats);
        let b = *b;
        let x = lib(move || drop(b));
        let n = rt().n_drop;
        self.calm_down(op, stats);
        if !self.judge_drop("dropping an arena", &x) {
            return;
        }
        if n > 0 {
            return viol("double-drop", "the end of an arena ran destructors");
        }
        for v in lost {
            for id in words_toks(&v.words) {
                if !is_live(id) {
                    return viol("double-drop", &format!("value #{} was leaked in an arena but its destructor ran", id));
                }
            }
            give_up(&v.words);
        }
        let h = heap();
        if h.live.iter().any(|&j| h.blocks[j].tag == a.tag) {
            viol("leak-block", "an arena's storage outlives it");
        }
        st.outcome = 33;
    }

    // -- layout-controlling fields

    fn op_ctl(&mut self, op: &OpRec, g: &mut Gen, st: &mut Step, stats: &mut Stats) {
        if !self.info.ctl {
            return self.op_mutate(op, st, stats);
        }
        // pick any living value
        let mut c: Vec<(u8, usize, usize)> = (0..self.boxes.len()).map(|i| (0, i, 0)).collect();
        for (i, s) in self.seqs.iter().enumerate() {
            match &s.drain {
                None => c.extend((0..s.elems.len()).map(|j| (1, i, j))),
                Some(d) => c.extend((0..d.hand.len()).map(|j| (2, i, j))),
            }
        }
        for (i, a) in self.arenas.iter().enumerate() {
            c.extend((0..a.vals.len()).map(|j| (3, i, j)));
        }
        if c.is_empty() {
            return;
        }
        let (k, i, j) = c[op.a as usize % c.len()];
        if k == 1 {
            self.drop_cursors(i);
        }
        let addr = match k {
            0 => self.ty.box_addr(self.boxes[i].h),
            1 => match self.elem_addr(&self.seqs[i], &self.seqs[i].elems[j]) {
                Some(a) => a,
                None => return,
            },
            2 => self.ty.own_addr(self.seqs[i].drain.as_ref().unwrap().hand[j].h),
            _ => self.arenas[i].vals[j].addr,
        };
        let ty = self.ty;
        let val = match k {
            0 => &mut self.boxes[i].val,
            1 => &mut self.seqs[i].elems[j].val,
            2 => &mut self.seqs[i].drain.as_mut().unwrap().hand[j].val,
            _ => &mut self.arenas[i].vals[j].val,
        };
        let mut val = std::mem::take(val);
        st.doomed.extend(words_toks(&val.words));
        let r = {
            let this = &*self;
            let o2 = *op;
            let mut arm = || this.arm(&o2, stats);
            ty.ctl(addr, g, &mut arm)
        };
        self.calm_down(op, stats);
        let Some(r) = r else { return };
        st.doomed.extend(r.new.iter().filter(|(_, w)| w & TOKW != 0).map(|(_, w)| *w as u32));
        let mut new = val.words.clone();
        for &(p, w) in &r.new {
            new[p] = w;
        }
        let old = val.words.clone();
        match &r.got_ok {
            _ if bad() => return,
            Ok(_) if r.panics => {
                return viol("ctl", &format!("{}: an update was decided although an array length cannot be computed", ty.name()));
            }
            Err(Fail::Lib(_)) if r.panics => {
                // the panic came from the user's length expression: nothing may have changed
                st.outcome = 60;
                let mut s = Sink::new();
                s.lo = addr;
                s.hi = addr + val.size;
                if let Err(f) = ty.read(addr, &mut s) {
                    return viol("ctl", &format!("a struct cannot be read after a refused update: {:?}", f));
                }
                if bad() {
                    return;
                }
                if s.words != old {
                    return viol("ctl", &format!("{}: an update whose length expression panicked changed the controlling fields", ty.name()));
                }
            }
            Ok(ok) => {
                if *ok != r.expect_ok {
                    return viol(
                        "ctl",
                        &format!("{}: an update of the layout-controlling fields was {}", ty.name(), if *ok { "accepted although an array length changes" } else { "refused although no array length changes" }),
                    );
                }
                if rt().fired_drop > 0 {
                    return viol("swallowed-panic", "a destructor's panic did not reach the caller");
                }
                st.outcome = 34 + *ok as u32;
                if *ok {
                    val.words = new;
                }
            }
            Err(Fail::Injected) if rt().fired_drop > 0 => {
                st.outcome = 36;
                // all or nothing, even so
                let mut s = Sink::new();
                s.lo = addr;
                s.hi = addr + val.size;
                if let Err(f) = ty.read(addr, &mut s) {
                    return viol("ctl", &format!("a struct cannot be read after an interrupted update: {:?}", f));
                }
                if bad() {
                    return;
                }
                if r.expect_ok && s.words == new {
                    val.words = new;
                } else if s.words != old {
                    return viol("ctl", &format!("{}: an interrupted update left some controlling fields old and some new", ty.name()));
                }
            }
            Err(f) => return unexpected("updating layout-controlling fields", f),
        }
        let slot = match k {
            0 => &mut self.boxes[i].val,
            1 => &mut self.seqs[i].elems[j].val,
            2 => &mut self.seqs[i].drain.as_mut().unwrap().hand[j].val,
            _ => &mut self.arenas[i].vals[j].val,
        };
        *slot = val;
    }

    // -- array construction

    fn op_limit(&mut self, op: &OpRec, g: &mut Gen, st: &mut Step, stats: &mut Stats) {
        let at = g.words.len();
        let Some((n, must, h)) = self.ty.limit(g) else {
            return self.op_box_new(op, g, st, stats);
        };
        if h.is_some() != must {
            return viol(
                "array",
                &format!("{}: a slice of {} elements was {}", self.ty.name(), n, if must { "refused" } else { "accepted" }),
            );
        }
        let Some(h) = h else {
            st.outcome = 38;
            return;
        };
        let e = g.words.split_off(at);
        let Some(src) = self.src_of(h, e, Must::Succeed) else { return };
        st.outcome = 37;
        if let Some(b) = self.build_box(op, src, st, stats) {
            let (fc, fd, fa) = (rt().fired_cb, rt().fired_drop, heap().fired);
            let quiet = OpRec { fk: FKind::None, ..*op };
            self.drop_box(&quiet, b, st, stats);
            rt().fired_cb = fc;
            rt().fired_drop = fd;
            heap().fired = fa;
        }
    }

    fn op_new_array(&mut self, op: &OpRec, g: &mut Gen, st: &mut Step, stats: &mut Stats) {
        if op.c % 4 == 0 {
            ctor_check(op.seed);
            if bad() {
                return;
            }
        }
        let a = &NEW_ARRAYS[op.a as usize % NEW_ARRAYS.len()];
        let n = [0usize, 1, 2, 3, 5, 9, 17, 64, 130][op.b as usize % 9];
        let at = g.words.len();
        let (r, d) = {
            let this = &*self;
            let o2 = *op;
            let s2 = &mut *stats;
            let mut arm = || this.arm(&o2, s2);
            (a.run)(g, n, &mut arm)
        };
        self.calm_down(op, stats);
        if bad() {
            return;
        }
        let must = if g.did_mism { Must::Mismatch } else { Must::Succeed };
        let what = format!("new_array of {} {}", n, a.name);
        if rt().fired_drop > 0 && r.is_ok() && d.is_err() {
            return;
        }
        if !self.judge(&what, &r, must, false, stats) {
            return;
        }
        st.mism_failed = g.did_mism && r.is_err();
        st.outcome = 39 + r.is_err() as u32;
        if let Ok(w) = r {
            let e = &g.words[at..];
            let ok = w.len() == n
                && w.len() >= e.len()
                && e.iter().zip(&w).all(|(&e, &g)| {
                    if e & PAYW != 0 {
                        g & TOKW != 0 && rt().toks[g as u32 as usize].payload as u64 == e & 0xffff_ffff
                    } else {
                        e == g
                    }
                });
            if !ok {
                viol("array", &format!("{} has wrong elements", what));
            }
            if d.is_err() {
                viol("unexpected-panic", "dropping an array failed");
            }
        }
    }

    // ------------------------------------------------------------ invariants

    /// Everything reachable reads as the model says; marks the tokens and blocks it saw.
    pub fn verify(&mut self, epoch: u32, tz: &mut i64, h: &mut u64) -> bool {
        let ty = self.ty;
        if self.info.align != self.info.malign {
            viol("layout", &format!("{} declares alignment {}, its parts need {}", ty.name(), self.info.align, self.info.malign));
            return false;
        }
        for b in &self.boxes {
            let addr = ty.box_addr(b.h);
            let Some(i) = self.box_block(addr, b.val.size) else { return false };
            if !claim(i, epoch, "a box") || !self.recheck(addr, &b.val, epoch, "a boxed value") {
                return false;
            }
            count_tz(&b.val.words, tz);
            mixh(h, 1, b.val.words.len() as u64);
        }
        for k in 0..self.seqs.len() {
            if !self.verify_seq(k, epoch, tz, h) {
                return false;
            }
        }
        for a in &self.arenas {
            let hp = heap();
            for n in 0..hp.live.len() {
                let i = hp.live[n];
                if hp.blocks[i].tag == a.tag {
                    hp.blocks[i].claimed = epoch;
                }
            }
            for v in &a.vals {
                if !self.recheck(v.addr, &v.val, epoch, "an arena value") {
                    return false;
                }
                count_tz(&v.val.words, tz);
                mixh(h, 3, v.val.words.len() as u64);
            }
        }
        true
    }

    fn verify_seq(&self, k: usize, epoch: u32, tz: &mut i64, h: &mut u64) -> bool {
        let ty = self.ty;
        let s = &self.seqs[k];
        let al = self.info.align;
        if !claim(s.blk, epoch, "a sequence") {
            return false;
        }
        mixh(h, 2 + s.idx as u64, (s.elems.len() as u64) << 20 | (s.cap.next_power_of_two() as u64) << 1 | s.drain.is_some() as u64);
        if s.cap > 0 && s.blk != NOBLK && heap().blocks[s.blk].state != BState::Live {
            viol("alloc-use-after-free", "a sequence's storage was returned while it is in use");
            return false;
        }
        if let Some(d) = &s.drain {
            for o in &d.hand {
                if !self.recheck(ty.own_addr(o.h), &o.val, epoch, "a drained element") {
                    return false;
                }
                count_tz(&o.val.words, tz);
            }
            for e in &d.rest {
                if !see(&e.val.words, epoch, "an element not yet drained") {
                    return false;
                }
                for id in words_toks(&e.val.words) {
                    if !is_live(id) {
                        viol("double-drop", &format!("value #{}, not yet drained, was destroyed", id));
                        return false;
                    }
                }
                count_tz(&e.val.words, tz);
            }
            return true;
        }
        let first = s.elems.first().map_or(0, |e| e.off);
        let expect: Vec<(usize, usize)> = s.elems.iter().map(|e| ((e.off - first) * al, e.val.size)).collect();
        let mut v = SeqView::default();
        // lengths first: iterating needs them
        if let Err(f) = ty.seq_view(s.h, &expect, &mut v) {
            viol("iter", &format!("reading a sequence panicked: {:?}", f));
            return false;
        }
        if bad() {
            return false;
        }
        if v.len != s.elems.len() {
            viol("len", &format!("a sequence of {} elements reports {}", s.elems.len(), v.len));
            return false;
        }
        if v.off != s.occ {
            viol("len", &format!("a sequence occupying {} offsets reports {}", s.occ, v.off));
            return false;
        }
        if v.cap != s.cap {
            viol("growth", &format!("the capacity changed from {} to {} on its own", s.cap, v.cap));
            return false;
        }
        if let (Some(&a), true) = (v.addrs.first(), s.occ > 0) {
            let st = heap().blocks[s.blk].start;
            if a != st {
                viol("offset", &format!("the first element lies {} bytes into the storage", a.wrapping_sub(st) as isize));
                return false;
            }
        }
        for (e, &a) in s.elems.iter().zip(&v.addrs) {
            if !self.recheck(a, &e.val, epoch, "an element") {
                return false;
            }
            count_tz(&e.val.words, tz);
        }
        if v.indexed {
            let want: Vec<usize> = s.elems.iter().filter(|e| e.soff > 0).map(|e| e.off).collect();
            if v.valid != want {
                let bad = v.valid.iter().find(|o| !want.contains(o));
                let missing = want.iter().find(|o| !v.valid.contains(o));
                viol(
                    "offset",
                    &format!(
                        "of {} elements, {} offsets are reported valid; wrongly valid: {:?}, wrongly invalid: {:?}",
                        want.len(), v.valid.len(), bad, missing
                    ),
                );
                return false;
            }
        }
        true
    }

    /// Tear everything down through the public API.
    pub fn teardown(&mut self, base: &OpRec, stats: &mut Stats) {
        let q = |k: u64| OpRec {
            kind: OpKind::BoxDrop, w: 0, a: 0, b: 3, c: 0, seed: hash2(base.seed, k), env: hash2(base.env, k), fk: FKind::None, fnth: 0,
        };
        let mut st = Step::default();
        let mut k = 0;
        while !bad() && (!self.seqs.is_empty() || !self.boxes.is_empty() || !self.arenas.is_empty()) {
            k += 1;
            let op = q(k);
            if let Some(i) = (0..self.seqs.len()).find(|&i| self.seqs[i].drain.is_some()) {
                self.end_drain(&op, i, &mut st, stats);
            } else if !self.seqs.is_empty() && op.seed & 1 == 0 {
                self.drop_seq(&op, 0, &mut st, stats);
            } else if !self.arenas.is_empty() && op.seed & 2 == 0 {
                self.arena_drop(&op, 0, &mut st, stats);
            } else if let Some(b) = self.boxes.pop() {
                self.drop_box(&op, b, &mut st, stats);
            }
        }
    }
}

fn dummy() -> SeqM {
    SeqM { h: std::ptr::null_mut(), idx: false, elems: vec![], occ: 0, cap: 0, blk: NOBLK, nreq: 0, drain: None, cursors: vec![] }
}

pub fn mixh(h: &mut u64, k: u64, v: u64) {
    *h = (*h ^ hash2(k, v)).wrapping_mul(0x100000001b3);
}

fn show(w: u64) -> String {
    if w & TOKW != 0 {
        let id = w as u32;
        format!("value #{} (payload {:x})", id, rt().toks.get(id as usize).map_or(0, |t| t.payload))
    } else if w & PAYW != 0 {
        format!("a value with payload {:x}", w as u32)
    } else {
        format!("{:#x}", w)
    }
}

fn count_tz(w: &[u64], tz: &mut i64) {
    for x in w {
        if *x == TZW {
            *tz += 1;
        }
    }
}

/// Mark the instances of a value as reachable; each exactly once.
fn see(w: &[u64], epoch: u32, what: &str) -> bool {
    for id in words_toks(w) {
        let t = &mut rt().toks[id as usize];
        if t.seen == epoch {
            viol("dup", &format!("value #{} is reachable twice, the second time from {}", id, what));
            return false;
        }
        t.seen = epoch;
    }
    true
}

fn claim(i: usize, epoch: u32, what: &str) -> bool {
    if i == NOBLK {
        return true;
    }
    let b = &mut heap().blocks[i];
    if b.claimed == epoch {
        viol("dup", &format!("two containers share one block, the second is {}", what));
        return false;
    }
    b.claimed = epoch;
    true
}

/// The model says these were leaked on purpose.
fn give_up(w: &[u64]) {
    for &x in w {
        if x & TOKW != 0 {
            if is_live(x as u32) {
                leak_tok(x as u32);
            }
        } else if x == TZW {
            rt().excused_tz += 1;
        }
    }
}

/// After an operation: nothing unaccounted for exists.
pub fn conserve(epoch: u32, tz: i64, st: &Step) {
    if bad() {
        return;
    }
    let r = rt();
    let h = heap();
    if r.layouts != 0 {
        viol("contract", &format!("{} more layouts of user-defined values were computed than destroyed", r.layouts));
        return;
    }
    if r.guests != 0 {
        viol(
            if r.guests > 0 { "leak-value" } else { "double-drop" },
            &format!("{} more closures or iterators were handed over than destroyed", r.guests),
        );
        return;
    }
    let cb = r.fired_cb > 0 || st.mism_failed;
    let dr = r.fired_drop > 0;
    for &id in &st.doomed {
        r.toks[id as usize].doomed = r.op;
    }
    let mut lost = Vec::new();
    for &id in &r.live {
        let t = &r.toks[id as usize];
        if t.seen == epoch {
            continue;
        }
        let stamped = t.consumed == r.stamp;
        let ok = (cb && stamped) || (dr && (t.doomed == r.op || t.op == r.op || stamped));
        if !ok {
            viol(
                "leak-value",
                &format!("value #{} (payload {:x}, created in step {}) exists but nothing owns it", id, t.payload, t.op),
            );
            return;
        }
        lost.push(id);
    }
    for id in lost {
        leak_tok(id);
    }
    let extra = r.live_tz - r.excused_tz - tz;
    if extra != 0 {
        if extra < 0 {
            viol("double-drop", &format!("{} zero-sized values were destroyed while still reachable", -extra));
            return;
        }
        if cb || dr {
            r.excused_tz += extra;
        } else {
            viol("leak-value", &format!("{} zero-sized values exist but nothing owns them", extra));
            return;
        }
    }
    let mut excuse = Vec::new();
    let mut one = false;
    for &i in &h.live {
        let b = &h.blocks[i];
        if b.claimed == epoch {
            continue;
        }
        let fresh = b.op == r.op;
        let boxed = cb && !one && fresh && st.box_block.map_or(false, |(lo, hi)| (lo..=hi).contains(&b.size));
        one |= boxed;
        let ok = boxed || (dr && (fresh || st.doomed_blocks.contains(&i)));
        if !ok {
            viol(
                "leak-block",
                &format!("a block of {} bytes obtained in step {} is still allocated but nothing uses it", b.size, b.op),
            );
            return;
        }
        excuse.push(i);
    }
    for i in excuse {
        h.excuse(i);
    }
}
