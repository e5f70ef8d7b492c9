//! Runs concurrent programs on free running threads and records their
//! histories (C19, C20).  Meant for Miri, which picks schedules and lets reads
//! return what the C11 memory model allows; also runs natively.
//!
//! miri_threads ROUNDS PROGRAM...
use colorz::mode::{self, Mode, Stream};
use colorz_driver::thr::{Op, Program};
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Barrier, Mutex};

/// orders the events without synchronising the threads
static SEQ: AtomicUsize = AtomicUsize::new(0);

fn tick() -> usize {
    SEQ.fetch_add(1, Ordering::Relaxed)
}

/// (before, after, thread, operation, result)
type Event = (usize, usize, u8, u8, u8);

fn run_ops(t: usize, ops: &[Op], ev: &mut Vec<Event>) {
    for (k, op) in ops.iter().enumerate() {
        let a = tick();
        let r = op.perform();
        ev.push((a, tick(), t as u8, k as u8, r));
    }
}

/// what detection of this stream finds
fn support(fd: i32) -> usize {
    #[cfg(feature = "supports-color")]
    {
        let s = if fd == 1 { supports_color::Stream::Stdout } else { supports_color::Stream::Stderr };
        supports_color::on(s).map_or(0, |l| l.has_basic as usize + l.has_256 as usize + l.has_16m as usize)
    }
    #[cfg(not(feature = "supports-color"))]
    {
        use std::io::IsTerminal;
        3 * (if fd == 1 { std::io::stdout().is_terminal() } else { std::io::stderr().is_terminal() }) as usize
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let rounds: usize = a[1].parse().unwrap();
    let parse = |v: &Vec<String>| -> Vec<Op> { v.iter().map(|o| Op::parse(o)).collect() };
    // thread 0 before, threads, thread 0 after
    let programs: Vec<Vec<Vec<Op>>> = a[2..]
        .iter()
        .map(|x| {
            let p = Program::parse(x);
            std::iter::once(&p.before).chain(&p.threads).chain(std::iter::once(&p.after)).map(parse).collect()
        })
        .collect();
    // every process starts with another program: only the first one detects
    let first = (&SEQ as *const _ as usize / 16) % programs.len();
    let n = programs.iter().map(|p| p.len() - 2).max().unwrap();
    let gate = Barrier::new(n + 1);
    let results: Vec<Mutex<Vec<Event>>> = (0..n).map(|_| Mutex::new(vec![])).collect();
    let order = || (0..rounds * programs.len()).map(|i| (first + i) % programs.len());
    let mut out = std::io::stdout();
    let support = [support(1), support(2)];
    std::thread::scope(|s| {
        for t in 1..=n {
            let (gate, results, programs) = (&gate, &results, &programs);
            s.spawn(move || {
                for k in order() {
                    gate.wait();
                    let mut ev = Vec::with_capacity(8);
                    if t + 1 < programs[k].len() {
                        run_ops(t, &programs[k][t], &mut ev)
                    }
                    *results[t - 1].lock().unwrap() = ev;
                    gate.wait();
                }
            });
        }
        for (i, k) in order().enumerate() {
            let p = &programs[k];
            if i > 0 {
                // the initial state, known to every thread
                mode::set_coloring_mode(Mode::Detect);
                mode::set_default_stream(Stream::AlwaysColor);
            }
            let base = tick();
            let mut ev = vec![];
            run_ops(0, &p[0], &mut ev);
            let fork = tick();
            gate.wait();
            gate.wait();
            let join = tick();
            for r in &results {
                ev.append(&mut r.lock().unwrap())
            }
            run_ops(0, p.last().unwrap(), &mut ev);
            // numbers as characters from '0' on
            let mut line = Vec::with_capacity(300);
            let mut put = |x: usize| line.push(b'0' + x as u8);
            put(k);
            put(support[0]);
            put(support[1]);
            put(fork - base);
            put(join - base);
            for (a, b, t, k, r) in ev {
                put(a - base);
                put(b - base);
                put(t as usize);
                put(k as usize);
                put(r as usize);
            }
            line.push(b'\n');
            out.write_all(&line).unwrap();
        }
    });
    out.flush().unwrap();
}
