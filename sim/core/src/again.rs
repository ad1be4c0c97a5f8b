//! What a callback or destructor does when it uses the library itself, in the middle of another operation: a
//! small history of its own containers, that must go as if nothing else were going on.

use crate::heap::heap;
use crate::rt::*;
use std::cell::Cell;
use varlen::array_init::*;
use varlen::prelude::*;
use varlen::seq::CheckedIndexing;
use varlen::tuple::{tup2, Tup2};

struct Count(Cell<i64>);
// SAFETY: the simulator runs on one thread.
unsafe impl Sync for Count {}
static LIVE: Count = Count(Cell::new(0));

struct Cnt<'a>(&'a Cell<i64>, u32);
impl<'a> Cnt<'a> {
    fn new(c: &'a Cell<i64>, v: u32) -> Self {
        c.set(c.get() + 1);
        Cnt(c, v)
    }
}
impl Clone for Cnt<'_> {
    fn clone(&self) -> Self {
        Cnt::new(self.0, self.1)
    }
}
impl Drop for Cnt<'_> {
    fn drop(&mut self) {
        self.0.set(self.0.get() - 1);
    }
}

fn text(k: u64) -> &'static str {
    let t = "seven words that are nobody's business but mine";
    &t[..(k % (t.len() as u64 + 1)) as usize]
}

type Item<'a> = Tup2<Array<Cnt<'a>, u8>, Str<u16>>;

fn item<'a>(c: &'a Cell<i64>, k: u64) -> impl Initializer<Item<'a>> {
    tup2::Init(
        SizedInit((k % 4) as u8, FillSequentially(move |i| Cnt::new(c, (k as u32).wrapping_add(i as u32)))),
        Str::<u16>::try_copy(text(k >> 8)).unwrap(),
    )
}
fn same(t: &Item, k: u64) -> bool {
    let r = t.refs();
    r.0.len() == (k % 4) as usize
        && r.0.iter().enumerate().all(|(i, c)| c.1 == (k as u32).wrapping_add(i as u32))
        && &**r.1 == text(k >> 8)
}
fn parts(k: &[u64]) -> i64 {
    k.iter().map(|k| (k % 4) as i64).sum()
}

macro_rules! want {
    ($e:expr, $c:expr, $m:expr) => {
        if !$e {
            return Some(($c, $m));
        }
    };
}

fn history(seed: u64, c: &'static Cell<i64>) -> Option<(&'static str, &'static str)> {
    let mut r = Rng::new(seed);
    let n = 1 + r.below(12) as usize;
    let keys: [u64; 12] = std::array::from_fn(|_| r.next());
    let keys = &keys[..n];
    match r.below(3) {
        0 => {
            let mut s: Seq<Item> = Seq::new();
            for &k in keys {
                s.push(item(c, k));
            }
            want!(s.len() == n && s.iter().zip(keys).all(|(t, &k)| same(t, k)), "content", "a sequence built inside a callback is wrong");
            want!(c.get() == parts(keys), "leak-value", "a sequence built inside a callback holds another number of parts");
            let m = r.below(n as u64 + 1) as usize;
            let mut two: Seq<Item> = Seq::new();
            let mut d = s.take_elems();
            for _ in 0..m {
                match d.next() {
                    Some(o) => two.push(o),
                    None => return Some(("iter", "a drain inside a callback ended early")),
                }
            }
            drop(d);
            want!(c.get() == parts(&keys[..m]), "leak-value", "a drain inside a callback left another number of parts");
            want!(s.len() == 0 && two.len() == m, "len", "a drained sequence inside a callback has elements");
            s.push(item(c, keys[0]));
            want!(two.iter().zip(keys).all(|(t, &k)| same(t, k)), "content", "moved elements inside a callback are wrong");
            want!(s.iter().all(|t| same(t, keys[0])), "content", "an element pushed after a drain inside a callback is wrong");
        }
        1 => {
            let mut s: Seq<Item, CheckedIndexing> = keys.iter().map(|&k| item(c, k)).collect();
            let mut at = [0; 12];
            for (i, t) in s.iter().enumerate() {
                at[i] = s.offset_of(t);
            }
            for i in 0..n {
                want!(same(s.from_offset(at[i]), keys[i]), "offset", "a lookup inside a callback gives something else");
                want!(same(&*s.from_offset_mut(at[i]), keys[i]), "offset", "a lookup inside a callback gives something else");
            }
            for o in 0..s.offset() {
                want!(s.is_offset_valid(o) == at[..n].contains(&o), "offset", "an offset inside a callback is judged wrongly");
            }
        }
        _ => {
            let k = keys[0];
            let b: VBox<Array<Cnt, u8>> = VBox::new(SizedInit(n as u8, FillSequentially(|i| Cnt::new(c, k as u32 ^ i as u32))));
            let d = b.clone();
            want!(c.get() == 2 * n as i64, "leak-value", "a clone inside a callback made another number of parts");
            want!(d.iter().enumerate().all(|(i, x)| x.1 == k as u32 ^ i as u32), "content", "a clone inside a callback is wrong");
            drop(b);
            let mut s: Seq<Array<Cnt, u8>> = Seq::new();
            s.push(d);
            want!(c.get() == n as i64, "leak-value", "moving a box inside a callback lost or doubled parts");
            want!(s.iter().all(|a| a.iter().enumerate().all(|(i, x)| x.1 == k as u32 ^ i as u32)), "content", "a moved box inside a callback is wrong");
            let a: [Cnt; 5] = new_array(FillSequentially(|i| Cnt::new(c, i as u32)));
            want!(a.iter().enumerate().all(|(i, x)| x.1 == i as u32), "content", "an array inside a callback is wrong");
        }
    }
    None
}

pub fn simulate(seed: u64) {
    let h = heap();
    if h.exhausted || bad() {
        return;
    }
    let old = (h.fail_at, h.fail_persist, h.fired, h.n_req, h.n_ok, h.n_big, h.min_req, h.last_ok, h.log_on, h.tot_req, h.limit);
    h.fail_at = -1;
    h.limit = usize::MAX;
    let n = h.live.len();
    let r = rt();
    let lib = std::mem::replace(&mut r.in_lib, true);
    let out = std::panic::catch_unwind(move || {
        LIVE.0.set(0);
        let out = history(seed, &LIVE.0);
        match out {
            None if LIVE.0.get() != 0 => Some(("leak-value", "parts made inside a callback outlive it")),
            out => out,
        }
    });
    let r = rt();
    r.in_lib = lib;
    let h = heap();
    (h.fail_at, h.fail_persist, h.fired, h.n_req, h.n_ok, h.n_big, h.min_req, h.last_ok, h.log_on, h.tot_req, h.limit) = old;
    if h.exhausted {
        return;
    }
    match out {
        Ok(Some((c, m))) => viol(c, m),
        Ok(None) if h.live.len() != n => viol("leak-block", "a callback that used the library left blocks behind"),
        Ok(None) => {}
        Err(e) => {
            std::mem::forget(e);
            viol("unexpected-panic", "the library panicked when used inside a callback")
        }
    }
}
