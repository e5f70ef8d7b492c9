//! Explores the interleavings of concurrent programs on the real library
//! (C19, C20): every schedule and, when the crate is built with its
//! verification hook, every value the C11 memory model lets a read return
//! (as far as release/acquire views describe it).
//!
//! threads PROGRAM MAX sc|ra SEED: systematic depth-first exploration, at most
//! MAX executions; then random ones.  Every execution runs in its own process.
use colorz_driver::thr::{perform, Program};
use colorz_driver::{clean_env, in_child, quiet_panics, Rng, HOOK, SUPPORT};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::sync::atomic::Ordering;
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

colorz_driver::seam!();

const MAX: usize = 6;
const OUTSIDE: usize = usize::MAX;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(OUTSIDE) };
    /// the thread was just given the baton for the first time
    static FIRST: Cell<bool> = const { Cell::new(false) };
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Ready,
    /// has the baton but does not come back: blocked in some lock
    Stuck,
    Done,
}

type View = Vec<usize>;
fn join(a: &mut View, b: &View) {
    if a.len() < b.len() {
        a.resize(b.len(), 0)
    }
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y)
    }
}
fn at(v: &View, l: usize) -> usize {
    v.get(l).copied().unwrap_or(0)
}
fn raise(v: &mut View, l: usize, n: usize) {
    if v.len() <= l {
        v.resize(l + 1, 0)
    }
    v[l] = v[l].max(n)
}

#[allow(dead_code)]
struct Msg {
    val: u64,
    view: View,
}

struct World {
    // scheduling
    parallel: bool,
    cur: usize,
    st: [St; MAX],
    /// waiting for the baton (so certainly not blocked in the library)
    waiting: [bool; MAX],
    n: usize,
    ticks: u64,
    /// accesses of the thread that runs, since the last switch
    streak: usize,
    fresh: bool,
    // choices
    prefix: Vec<u8>,
    log: Vec<(u8, u8)>,
    rng: Option<Rng>,
    // memory
    weak: bool,
    cells: Vec<(usize, Vec<Msg>)>,
    cur_view: Vec<View>,
    acq_view: Vec<View>,
    rel_view: Vec<View>,
    sc_view: View,
    // history
    hist: String,
}

impl World {
    fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let k = self.log.len();
        let c = if k < self.prefix.len() {
            (self.prefix[k] as usize).min(n - 1)
        } else {
            match &mut self.rng {
                Some(r) => r.below(n),
                None => 0,
            }
        };
        self.log.push((c as u8, n as u8));
        c
    }
    /// who goes on: `t` first, if it can
    fn next(&mut self, t: usize) -> Option<usize> {
        let mut can: Vec<usize> = (1..=self.n).filter(|&u| self.st[u] == St::Ready).collect();
        if let Some(i) = can.iter().position(|&u| u == t) {
            can.remove(i);
            can.insert(0, t);
        }
        if can.is_empty() {
            return None;
        }
        self.streak += 1;
        if self.streak > 60 && can.len() > 1 {
            // it seems to be waiting for another one (round robin, no choice)
            self.streak = 0;
            return can.iter().copied().filter(|&u| u > t).chain(can.iter().copied()).find(|&u| u != t);
        }
        let c = self.choose(can.len());
        Some(can[c])
    }
}

static WORLD: Mutex<Option<World>> = Mutex::new(None);
static CV: [Condvar; MAX] = [const { Condvar::new() }; MAX];

fn world() -> MutexGuard<'static, Option<World>> {
    WORLD.lock().unwrap_or_else(|e| e.into_inner())
}

/// waits for the baton
fn wait(mut g: MutexGuard<'static, Option<World>>, t: usize) {
    g.as_mut().unwrap().waiting[t] = true;
    while g.as_ref().unwrap().cur != t {
        g = CV[t].wait(g).unwrap_or_else(|e| e.into_inner());
    }
    let w = g.as_mut().unwrap();
    w.waiting[t] = false;
    w.ticks += 1;
}

/// A point where another thread may go on.
fn point(start: bool) {
    let t = ME.with(|m| m.get());
    if t == OUTSIDE || t == 0 {
        return;
    }
    let mut g = world();
    let w = g.as_mut().unwrap();
    w.ticks += 1;
    if w.st[t] == St::Stuck {
        w.st[t] = St::Ready;
        if w.cur == t || w.cur == 0 {
            w.cur = t
        }
        return wait(g, t);
    }
    if w.fresh && !start {
        // the first access of an operation: the choice was just made
        w.fresh = false;
        return;
    }
    w.fresh = start;
    if FIRST.with(|f| f.replace(false)) {
        return;
    }
    let u = w.next(t).unwrap();
    if u != t {
        w.cur = u;
        w.streak = 0;
        CV[u].notify_one();
        wait(g, t);
        world().as_mut().unwrap().fresh = start;
    }
}

/// passes the baton for good
fn finish(t: usize) {
    let mut g = world();
    let w = g.as_mut().unwrap();
    w.ticks += 1;
    w.st[t] = St::Done;
    if w.cur == t {
        let u = w.next(t).unwrap_or(0);
        w.cur = u;
        CV[u].notify_one();
    }
    CV[0].notify_one();
}

fn note(s: &str) {
    let mut g = world();
    let w = g.as_mut().unwrap();
    w.hist.push_str(s);
    w.hist.push(' ');
}

fn run_ops(t: usize, ops: &[String]) {
    for (k, op) in ops.iter().enumerate() {
        point(true);
        note(&format!("c{t}:{k}"));
        let r = std::panic::catch_unwind(|| perform(op)).unwrap_or_else(|_| "panic".into());
        note(&format!("r{t}:{k}:{r}"));
    }
}

#[cfg(colorz_verif)]
mod memory {
    use super::*;
    use colorz::verif_sync::{install, Location, Memory};

    pub struct Sim;
    static SIM: Sim = Sim;
    pub fn start() -> bool {
        install(&SIM)
    }

    fn acquires(o: Ordering) -> bool {
        matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
    }
    fn releases(o: Ordering) -> bool {
        matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
    }

    fn cell(w: &mut World, l: Location) -> usize {
        if let Some(i) = w.cells.iter().position(|c| c.0 == l.address) {
            return i;
        }
        w.cells.push((l.address, vec![Msg { val: l.initial, view: vec![] }]));
        w.cells.len() - 1
    }
    fn enter(w: &mut World, t: usize, o: Ordering) {
        if o == Ordering::SeqCst {
            let s = w.sc_view.clone();
            join(&mut w.cur_view[t], &s);
        }
    }
    fn leave(w: &mut World, t: usize, o: Ordering) {
        if o == Ordering::SeqCst {
            let v = w.cur_view[t].clone();
            join(&mut w.sc_view, &v);
        }
    }
    fn read(w: &mut World, t: usize, c: usize, i: usize, o: Ordering) -> u64 {
        raise(&mut w.cur_view[t], c, i);
        let (val, view) = {
            let m = &w.cells[c].1[i];
            (m.val, m.view.clone())
        };
        join(&mut w.acq_view[t], &view);
        if acquires(o) {
            join(&mut w.cur_view[t], &view)
        }
        val
    }
    fn write(w: &mut World, t: usize, c: usize, val: u64, o: Ordering, base: Option<View>) {
        let i = w.cells[c].1.len();
        raise(&mut w.cur_view[t], c, i);
        let cur = w.cur_view[t].clone();
        join(&mut w.acq_view[t], &cur);
        let mut view = if releases(o) { cur } else { w.rel_view[t].clone() };
        raise(&mut view, c, i);
        if let Some(b) = base {
            join(&mut view, &b)
        }
        w.cells[c].1.push(Msg { val, view });
    }
    fn me() -> usize {
        match ME.with(|m| m.get()) {
            OUTSIDE => 0,
            t => t,
        }
    }

    impl Memory for Sim {
        fn load(&self, l: Location, o: Ordering) -> u64 {
            point(false);
            let t = me();
            let mut g = world();
            let w = g.as_mut().unwrap();
            let c = cell(w, l);
            enter(w, t, o);
            let (lo, hi) = (at(&w.cur_view[t], c), w.cells[c].1.len() - 1);
            let i = if w.weak { hi - w.choose(hi - lo + 1) } else { hi };
            let v = read(w, t, c, i, o);
            leave(w, t, o);
            v
        }
        fn store(&self, l: Location, val: u64, o: Ordering) {
            point(false);
            let t = me();
            let mut g = world();
            let w = g.as_mut().unwrap();
            let c = cell(w, l);
            enter(w, t, o);
            write(w, t, c, val, o, None);
            leave(w, t, o);
        }
        fn update(&self, l: Location, success: Ordering, failure: Ordering, f: &mut dyn FnMut(u64) -> Option<u64>) -> u64 {
            point(false);
            let t = me();
            let mut g = world();
            let w = g.as_mut().unwrap();
            let c = cell(w, l);
            let i = w.cells[c].1.len() - 1;
            let old = w.cells[c].1[i].val;
            match f(old) {
                Some(new) => {
                    enter(w, t, success);
                    read(w, t, c, i, success);
                    let base = w.cells[c].1[i].view.clone();
                    write(w, t, c, new, success, Some(base));
                    leave(w, t, success);
                }
                None => {
                    enter(w, t, failure);
                    read(w, t, c, i, failure);
                    leave(w, t, failure);
                }
            }
            old
        }
        fn fence(&self, o: Ordering) {
            // (no other thread can tell when a fence happens)
            let t = me();
            let mut g = world();
            let w = g.as_mut().unwrap();
            if acquires(o) {
                let v = w.acq_view[t].clone();
                join(&mut w.cur_view[t], &v);
            }
            enter(w, t, o);
            leave(w, t, o);
            if releases(o) {
                w.rel_view[t] = w.cur_view[t].clone();
            }
        }
    }
}

/// one execution (in a process of its own)
fn execute(p: &Program, prefix: Vec<u8>, weak: bool, rng: Option<Rng>) -> Vec<u8> {
    SUPPORT[0].store(p.support[0], Ordering::SeqCst);
    SUPPORT[1].store(p.support[1], Ordering::SeqCst);
    let n = p.threads.len();
    let views = || vec![View::new(); MAX];
    *world() = Some(World {
        parallel: false,
        cur: 0,
        st: [St::Done; MAX],
        waiting: [false; MAX],
        n,
        ticks: 0,
        streak: 0,
        fresh: false,
        prefix,
        log: vec![],
        rng,
        weak,
        cells: vec![],
        cur_view: views(),
        acq_view: views(),
        rel_view: views(),
        sc_view: vec![],
        hist: String::new(),
    });
    let _ = HOOK.set(|_| point(false));
    #[cfg(colorz_verif)]
    assert!(memory::start());
    ME.with(|m| m.set(0));
    run_ops(0, &p.before);
    note("fork");
    {
        let mut g = world();
        let w = g.as_mut().unwrap();
        w.parallel = true;
        for t in 1..=n {
            w.st[t] = St::Ready;
            w.cur_view[t] = w.cur_view[0].clone();
            w.acq_view[t] = w.cur_view[0].clone();
        }
    }
    std::thread::scope(|s| {
        for t in 1..=n {
            let ops = &p.threads[t - 1];
            s.spawn(move || {
                ME.with(|m| m.set(t));
                FIRST.with(|m| m.set(true));
                wait(world(), t);
                run_ops(t, ops);
                finish(t);
            });
        }
        let mut g = world();
        {
            let w = g.as_mut().unwrap();
            let u = w.next(0).unwrap();
            w.cur = u;
            CV[u].notify_one();
        }
        // watch: a thread that keeps the baton without going on is blocked
        let mut seen = (0, Instant::now());
        loop {
            let w = g.as_mut().unwrap();
            if (1..=n).all(|t| w.st[t] == St::Done) {
                break;
            }
            if w.ticks != seen.0 {
                seen = (w.ticks, Instant::now())
            } else if seen.1.elapsed() > Duration::from_millis(40) && w.cur != 0 && w.st[w.cur] == St::Ready {
                let t = w.cur;
                if w.waiting[t] {
                    // it has the baton, but the system has not run it yet
                    CV[t].notify_one();
                } else {
                    w.st[t] = St::Stuck;
                    match w.next(t) {
                        Some(u) => {
                            w.cur = u;
                            CV[u].notify_one();
                        }
                        None => w.cur = 0,
                    }
                }
                seen = (w.ticks, Instant::now());
            } else if w.cur == 0 {
                // nobody runs: whoever comes back first goes on
                if let Some(t) = (1..=n).find(|&t| w.st[t] == St::Ready) {
                    w.cur = t;
                    CV[t].notify_one();
                }
            }
            g = CV[0].wait_timeout(g, Duration::from_millis(10)).unwrap_or_else(|e| e.into_inner()).0;
        }
    });
    {
        let mut g = world();
        let w = g.as_mut().unwrap();
        w.parallel = false;
        for t in 1..=n {
            let v = w.cur_view[t].clone();
            join(&mut w.cur_view[0], &v);
        }
    }
    note("join");
    run_ops(0, &p.after);
    let g = world();
    let w = g.as_ref().unwrap();
    let mut out = String::new();
    for (c, n) in &w.log {
        out.push_str(&format!("{c}/{n} "));
    }
    out.push(';');
    out.push_str(w.hist.trim_end());
    out.into_bytes()
}

/// an execution that runs out of time gets a second chance
fn one(p: &Program, prefix: &[u8], weak: bool, rng: Option<Rng>) -> Result<(Vec<(u8, u8)>, String), i32> {
    let seed = rng.map(|r| r.0);
    match attempt(p, prefix, weak, seed.map(Rng), 20) {
        Err(14) => attempt(p, prefix, weak, seed.map(Rng), 60),
        r => r,
    }
}
fn attempt(p: &Program, prefix: &[u8], weak: bool, rng: Option<Rng>, seconds: u32) -> Result<(Vec<(u8, u8)>, String), i32> {
    let mut ends = [0i32; 2];
    extern "C" {
        fn pipe(e: *mut i32) -> i32;
        fn close(fd: i32) -> i32;
    }
    assert!(unsafe { pipe(ends.as_mut_ptr()) } == 0);
    let st = in_child(ends[1], seconds, || execute(p, prefix.to_vec(), weak, rng));
    unsafe { close(ends[1]) };
    let mut f: std::fs::File = unsafe { std::os::fd::FromRawFd::from_raw_fd(ends[0]) };
    let mut s = String::new();
    f.read_to_string(&mut s).unwrap();
    if st != 0 {
        return Err(st);
    }
    let (c, h) = s.split_once(';').unwrap();
    let log = c
        .split_whitespace()
        .map(|x| {
            let (a, b) = x.split_once('/').unwrap();
            (a.parse().unwrap(), b.parse().unwrap())
        })
        .collect();
    Ok((log, h.to_string()))
}

fn main() {
    clean_env();
    quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let p = Program::parse(&a[1]);
    let max: usize = a[2].parse().unwrap();
    let weak = a[3] == "ra";
    let seed: u64 = a[4].parse().unwrap();
    let secs: u64 = a[5].parse().unwrap();
    let t0 = Instant::now();
    let mut found: BTreeMap<String, (usize, Vec<u8>)> = BTreeMap::new();
    let mut prefix: Vec<u8> = vec![];
    let mut n = 0;
    let mut complete = false;
    let mut bad = HashSet::new();
    while n < max && t0.elapsed().as_secs() < secs {
        n += 1;
        match one(&p, &prefix, weak, None) {
            Ok((log, h)) => {
                let e = found.entry(h).or_insert((0, log.iter().map(|x| x.0).collect()));
                e.0 += 1;
                // the next prefix in depth-first order
                let mut k = log.len();
                loop {
                    if k == 0 {
                        complete = true;
                        break;
                    }
                    k -= 1;
                    if log[k].0 + 1 < log[k].1 {
                        break;
                    }
                }
                if complete {
                    break;
                }
                prefix = log[..k].iter().map(|x| x.0).collect();
                prefix.push(log[k].0 + 1);
            }
            Err(st) => {
                bad.insert((st, prefix.clone()));
                break;
            }
        }
    }
    let mut random = 0;
    if !complete && bad.is_empty() {
        let mut rng = Rng(seed);
        while random < max / 2 && t0.elapsed().as_secs() < secs * 3 / 2 {
            random += 1;
            match one(&p, &[], weak, Some(Rng(rng.next()))) {
                Ok((log, h)) => found.entry(h).or_insert((0, log.iter().map(|x| x.0).collect())).0 += 1,
                Err(st) => {
                    bad.insert((st, vec![]));
                    break;
                }
            }
        }
    }
    let out = std::io::stdout();
    let mut out = out.lock();
    writeln!(out, "STAT {n} {random} {complete} {}", cfg!(colorz_verif)).unwrap();
    for (st, p) in bad {
        writeln!(out, "BAD {st} {p:?}").unwrap();
    }
    for (h, (n, c)) in found {
        let c: Vec<String> = c.iter().map(|x| x.to_string()).collect();
        writeln!(out, "H {n} {} {h}", if c.is_empty() { "-".into() } else { c.join(".") }).unwrap();
    }
}
