//! The simulator: runs plans derived from seeds, replays recorded traces.
//!
//!   sim run --prop C01 --from 0 --count 1000 --base SEED [--progress FILE] [--out FILE] [--states FILE]
//!   sim plan --prop C01 --seed N          print the plan of one run
//!   sim replay FILE                        execute a trace
//!   sim types

mod plan;
mod types;
mod world;

use plan::*;
use std::collections::HashSet;
use varlen_sim_core::heap::{self, heap};
use varlen_sim_core::rt::{self, *};
use world::*;

#[global_allocator]
static A: varlen_sim_core::heap::SimAlloc = varlen_sim_core::heap::SimAlloc;

struct Totals {
    stats: Stats,
    steps: u64,
    runs: u64,
    inconclusive: u64,
    other: u64,
    states: Vec<u64>,
    trans: HashSet<u32>,
    run_hashes: Vec<u64>,
    nontrivial: u64,
    reqs: u64,
    cbs: u64,
    drops: u64,
    values: u64,
    moved: u64,
    inplace: u64,
    types: HashSet<String>,
    max_live: usize,
}

impl Totals {
    fn new() -> Totals {
        Totals {
            stats: Stats { ops: [0; 64], armed: [0; 8], fired: [0; 8], must: [0; 3], tot_fail_ok: 0 },
            steps: 0,
            runs: 0,
            inconclusive: 0,
            other: 0,
            states: vec![0; 1 << 18],
            trans: HashSet::new(),
            run_hashes: Vec::new(),
            nontrivial: 0,
            reqs: 0,
            cbs: 0,
            drops: 0,
            values: 0,
            moved: 0,
            inplace: 0,
            types: HashSet::new(),
            max_live: 0,
        }
    }
}

/// The run in progress, named if the harness itself fails.
static CUR_SEED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

struct Outcome {
    viol: Option<(String, String)>,
    at: usize,
    hash: u64,
    faults: bool,
    inconclusive: bool,
}

fn run_plan(p: &Plan, tys: &[Ty], t: &mut Totals, verbose: bool) -> Outcome {
    rt::reset();
    CUR_SEED.store(p.seed, std::sync::atomic::Ordering::Relaxed);
    let hseed = hash2(p.seed, 0x4ea9);
    heap().reset(hseed);
    arm_timer(CPU_LIMIT_S);
    let mut worlds: Vec<World> = Vec::new();
    for (i, n) in p.types.iter().enumerate() {
        let ty = tys.iter().find(|t| t.name() == n).copied();
        let Some(ty) = ty else {
            eprintln!("unknown element type {}", n);
            std::process::exit(3);
        };
        t.types.insert(n.clone());
        worlds.push(World::new(ty, p.cap, 1 + 1000 * i as u32));
    }
    let needs = profile(&p.prop).needs;
    let mut hash = hseed;
    let mut epoch = 0u32;
    let mut at = 0;
    let mut inconclusive = false;
    let mut happened = [false; 8];
    let mut ran = 0u32;
    let fired0 = t.stats.fired;
    let mut finish = |worlds: &mut Vec<World>, st: &Step, kind: u64, t: &mut Totals, hash: &mut u64| {
        if bad() {
            return;
        }
        epoch += 1;
        rt().seen_epoch = epoch;
        let (mut tz, mut h) = (0i64, 0u64);
        for w in worlds.iter_mut() {
            if !w.verify(epoch, &mut tz, &mut h) {
                return;
            }
        }
        conserve(epoch, tz, st);
        if bad() {
            return;
        }
        heap().check();
        *hash = hash2(*hash ^ h, kind ^ (st.outcome as u64) << 8 ^ (heap().cur as u64) << 20);
        let b = (h % (1 << 24)) as usize;
        t.states[b >> 6] |= 1 << (b & 63);
        t.max_live = t.max_live.max(rt().live.len());
    };
    for (k, op) in p.ops.iter().enumerate() {
        at = k;
        let r = rt();
        r.op = k as u32 + 1;
        r.stamp += 1;
        r.fired_cb = 0;
        r.fired_drop = 0;
        let h = heap();
        h.op = r.op;
        h.fired = 0;
        sink_u64(1, k as u64);
        if r.toks.len() > 40_000 || h.exhausted {
            inconclusive = true;
            break;
        }
        if op.kind == OpKind::Vast {
            arm_timer(6 * CPU_LIMIT_S);
        }
        let mut st = Step::default();
        let w = op.w as usize % worlds.len();
        t.stats.ops[op.kind as usize] += 1;
        let must0 = t.stats.must;
        let f0 = t.stats.fired;
        worlds[w].run(op, &mut st, &mut t.stats);
        for i in 0..8 {
            happened[i] |= t.stats.fired[i] > f0[i];
        }
        happened[FKind::Mismatch as usize] |= t.stats.must[1] > must0[1];
        happened[FKind::Overflow as usize] |= t.stats.must[2] > must0[2];
        // a fired fault of a combined kind
        if op.fk == FKind::CbDrop && (happened[FKind::Cb as usize]) {
            happened[FKind::CbDrop as usize] = true;
        }
        if heap().exhausted {
            inconclusive = true;
            break;
        }
        ran += (st.outcome != 0) as u32;
        t.trans.insert((op.kind as u32) << 16 | st.outcome << 8 | (op.fk as u32) << 4 | (rt().fired_cb + rt().fired_drop + heap().fired).min(3));
        finish(&mut worlds, &st, op.kind as u64, t, &mut hash);
        t.steps += 1;
        if verbose {
            println!(
                "step {:3} {:?} -> outcome {} faults cb={} drop={} alloc={} requests={} {}",
                k, op, st.outcome, rt().fired_cb, rt().fired_drop, heap().fired, heap().n_req,
                rt().viol.as_ref().map_or(String::new(), |v| format!("VIOLATES {}: {}", v.0, v.1))
            );
        }
        if bad() {
            break;
        }
    }
    if !bad() && !inconclusive {
        at = p.ops.len();
        rt().op += 1;
        heap().op = rt().op;
        let base = OpRec {
            kind: OpKind::BoxDrop, w: 0, a: 0, b: 0, c: 0,
            seed: hash2(p.seed, 91), env: hash2(p.seed, 92), fk: FKind::None, fnth: 0,
        };
        for w in worlds.iter_mut() {
            if !bad() {
                w.teardown(&base, &mut t.stats);
            }
        }
        rt().fired_cb = 0;
        rt().fired_drop = 0;
        finish(&mut worlds, &Step::default(), 99, t, &mut hash);
        if !bad() {
            heap().check_all();
        }
    }
    inconclusive |= rt().viol.as_ref().map_or(false, |v| v.0 == SPENT);
    if bad() || inconclusive {
        // whatever is left may be broken: never run its destructors
        std::mem::forget(worlds);
    }
    let viol = if inconclusive { None } else { rt().viol.take() };
    t.runs += 1;
    t.inconclusive += inconclusive as u64;
    t.nontrivial += (ran >= 5) as u64;
    t.run_hashes.push(hash);
    t.reqs += std::mem::take(&mut heap().tot_req);
    t.cbs += std::mem::take(&mut rt().tot_cb);
    t.drops += std::mem::take(&mut rt().tot_drop);
    t.values += std::mem::take(&mut rt().created) as u64;
    t.moved += std::mem::take(&mut heap().tot_moved);
    t.inplace += std::mem::take(&mut heap().tot_inplace);
    let _ = fired0;
    let faults = needs.is_empty() || needs.iter().any(|&f| happened[f as usize]);
    Outcome { viol, at, hash, faults, inconclusive }
}

const CPU_LIMIT_S: i64 = 20;

fn arm_timer(secs: i64) {
    unsafe {
        let t = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: secs, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut());
    }
}
extern "C" fn on_timer(_: libc::c_int) {
    unsafe { libc::_exit(4) }
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn main() {
    // A panic of the harness itself (library panics are caught where the library is called): say so.
    if std::panic::catch_unwind(real_main).is_err() {
        eprintln!("harness panic (seed {}): {}", CUR_SEED.load(std::sync::atomic::Ordering::Relaxed), rt().last_panic);
        std::process::exit(5);
    }
}

fn real_main() {
    // one simulated thread; the address space does not matter because storage addresses are simulated
    let a: Vec<String> = std::env::args().collect();
    heap::init();
    rt::init();
    unsafe {
        libc::signal(libc::SIGPROF, on_timer as *const () as libc::sighandler_t);
    }
    let tys = types::types();
    match a.get(1).map(|s| s.as_str()) {
        Some("types") => {
            for t in &tys {
                let i = t.info();
                println!("{}\talign {} clone {} copy {} big {} ctl {}", t.name(), i.align, i.clone, i.copy, i.big, i.ctl);
            }
        }
        Some("plan") => {
            let infos: Vec<_> = tys.iter().map(|t| (t.name(), t.info())).collect();
            let p = generate(&arg(&a, "--prop").unwrap(), arg(&a, "--seed").unwrap().parse().unwrap(), &infos);
            print!("{}", p.write());
        }
        Some("replay") => {
            let s = std::fs::read_to_string(&a[2]).unwrap_or_else(|e| {
                eprintln!("{}: {}", a[2], e);
                std::process::exit(3)
            });
            let p = Plan::parse(&s).unwrap_or_else(|e| {
                eprintln!("{}", e);
                std::process::exit(3)
            });
            open_progress(&a);
            let mut t = Totals::new();
            if p.warm.2 > 0 {
                let infos: Vec<_> = tys.iter().map(|t| (t.name(), t.info())).collect();
                for i in p.warm.1..p.warm.1 + p.warm.2 {
                    let q = generate(&p.prop, hash2(p.warm.0, i), &infos);
                    if let Some((c, m)) = run_plan(&q, &tys, &mut t, false).viol {
                        println!("RESULT\twarm-{}\tfalse\t0\t-\t{}", c, m);
                        std::process::exit(1)
                    }
                }
            }
            let o = run_plan(&p, &tys, &mut t, a.iter().any(|x| x == "-v"));
            match o.viol {
                Some((c, m)) if o.faults => {
                    println!("RESULT\t{}\t{}\t{}\t{:016x}\t{}", c, accepts(&p.prop, &c), o.at, o.hash, m);
                    std::process::exit(1)
                }
                Some((c, m)) => {
                    println!("RESULT\t{}\tfalse\t{}\t{:016x}\t{}", c, o.at, o.hash, m);
                    std::process::exit(1)
                }
                None => println!("RESULT\tok\t{}\t{}\t{:016x}\t", o.inconclusive, o.at, o.hash),
            }
        }
        Some("run") => run(&a, &tys),
        _ => {
            eprintln!("usage: sim run|plan|replay|types");
            std::process::exit(2);
        }
    }
}

fn open_progress(a: &[String]) {
    if let Some(f) = arg(a, "--progress") {
        unsafe {
            let c = std::ffi::CString::new(f).unwrap();
            let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT, 0o644);
            if fd < 0 || libc::ftruncate(fd, 4096) != 0 {
                eprintln!("cannot open the progress file");
                std::process::exit(3);
            }
            let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            set_sink(p as *mut u8);
        }
    }
}

fn run(a: &[String], tys: &[Ty]) {
    let prop = arg(a, "--prop").unwrap();
    let base: u64 = arg(a, "--base").unwrap().parse().unwrap();
    let from: u64 = arg(a, "--from").unwrap().parse().unwrap();
    let count: u64 = arg(a, "--count").unwrap().parse().unwrap();
    let secs: f64 = arg(a, "--secs").map_or(1e9, |s| s.parse().unwrap());
    open_progress(a);
    let infos: Vec<_> = tys.iter().map(|t| (t.name(), t.info())).collect();
    let mut t = Totals::new();
    let t0 = std::time::Instant::now();
    let mut found = String::from("null");
    let mut next = from;
    let mut dirty = false;
    let mut slowest = 0f64;
    for i in from..from + count {
        if t0.elapsed().as_secs_f64() > secs {
            break;
        }
        let seed = hash2(base, i);
        sink_u64(0, i);
        sink_u64(2, seed);
        let p = generate(&prop, seed, &infos);
        let t1 = std::time::Instant::now();
        let o = run_plan(&p, tys, &mut t, false);
        slowest = slowest.max(t1.elapsed().as_secs_f64());
        next = i + 1;
        if let Some((c, m)) = o.viol {
            let mine = o.faults && accepts(&prop, &c);
            if !mine {
                t.other += 1;
            }
            found = format!(
                "{{\"seed\":{},\"index\":{},\"class\":{},\"msg\":{},\"at\":{},\"mine\":{}}}",
                seed, i, jstr(&c), jstr(&m), o.at, mine
            );
            // the process may be damaged: let the supervisor start a fresh one
            dirty = true;
            break;
        }
    }
    let st = &t.stats;
    let mut ops: Vec<String> = Vec::new();
    for k in OpKind::ALL {
        ops.push(format!("\"{}\":{}", k.name(), st.ops[*k as usize]));
    }
    let f = |x: &[u64; 8]| {
        FKind::ALL.iter().skip(1).map(|k| format!("\"{}\":{}", k.name(), x[*k as usize])).collect::<Vec<_>>().join(",")
    };
    if let Some(p) = arg(a, "--states") {
        let mut v: Vec<u8> = Vec::new();
        v.extend((t.states.len() as u64).to_le_bytes());
        for x in &t.states {
            v.extend(x.to_le_bytes());
        }
        for x in &t.run_hashes {
            v.extend(x.to_le_bytes());
        }
        let _ = std::fs::write(p, v);
    }
    let mut digest = 0u64;
    for x in &t.run_hashes {
        digest = hash2(digest, *x);
    }
    let mut trans: Vec<u32> = t.trans.iter().copied().collect();
    trans.sort();
    println!(
        "{{\"next\":{},\"runs\":{},\"steps\":{},\"inconclusive\":{},\"other\":{},\"nontrivial\":{},\"ops\":{{{}}},\"armed\":{{{}}},\"fired\":{{{}}},\"must\":[{},{},{}],\"failures_judged\":{},\"requests\":{},\"callbacks\":{},\"destructors\":{},\"again\":{},\"values\":{},\"moved\":{},\"inplace\":{},\"fenced\":{},\"max_live\":{},\"types\":[{}],\"trans\":[{}],\"digest\":\"{:016x}\",\"secs\":{:.3},\"slowest\":{:.2},\"dirty\":{},\"found\":{}}}",
        next, t.runs, t.steps, t.inconclusive, t.other, t.nontrivial, ops.join(","), f(&st.armed), f(&st.fired),
        st.must[0], st.must[1], st.must[2], st.tot_fail_ok, t.reqs, t.cbs, t.drops, std::mem::take(&mut rt().tot_again), t.values, t.moved, t.inplace, std::mem::take(&mut heap().tot_fenced), t.max_live,
        t.types.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
        trans.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        digest, t0.elapsed().as_secs_f64(), slowest, dirty, found
    );
    if t0.elapsed().as_secs_f64() < 0.0 {
        std::process::exit(9);
    }
}
