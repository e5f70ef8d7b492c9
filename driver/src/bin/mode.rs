//! Replays operation histories of ColorMode.tla on the real library.
//!
//! stdin: one script per line: `op[=expected] op[=expected] ...`
//! stdout: one line per script: the results, separated by spaces.  With
//! `--quiet`, only scripts with a result that differs from what is expected.
//! Every script runs in a process of its own, so it starts from the initial
//! state of the library.
use colorz::mode::{self, ColorKind, Mode, Stream};
use colorz::{ansi, css, rgb, xterm, Color, OptionalColor, Style, StyledValue};
use colorz_driver::*;
use std::fmt::Write as _;
use std::io::{Read, Write as _};
use std::os::unix::ffi::OsStringExt;
use std::sync::atomic::Ordering;

seam!();

fn mode_of(s: &str) -> Mode {
    match s {
        "Detect" => Mode::Detect,
        "Always" => Mode::Always,
        "Never" => Mode::Never,
        _ => panic!("mode {s}"),
    }
}
fn stream_of(s: &str) -> Option<Stream> {
    Some(match s {
        "Stdout" => Stream::Stdout,
        "Stderr" => Stream::Stderr,
        "AlwaysColor" => Stream::AlwaysColor,
        "NeverColor" => Stream::NeverColor,
        "None" => return None,
        _ => panic!("stream {s}"),
    })
}
fn mode_name(m: Mode) -> &'static str {
    match m {
        Mode::Detect => "Detect",
        Mode::Always => "Always",
        Mode::Never => "Never",
    }
}
fn stream_name(s: Stream) -> &'static str {
    match s {
        Stream::Stdout => "Stdout",
        Stream::Stderr => "Stderr",
        Stream::AlwaysColor => "AlwaysColor",
        Stream::NeverColor => "NeverColor",
        _ => "unknown",
    }
}
fn kind_of(c: u8) -> ColorKind {
    match c {
        b'A' => ColorKind::Ansi,
        b'X' => ColorKind::Xterm,
        b'R' | b'C' => ColorKind::Rgb,
        b'N' => ColorKind::NoColor,
        _ => panic!("kind {c}"),
    }
}
fn color_of(c: u8) -> Option<Color> {
    Some(match c {
        b'A' => Color::Ansi(ansi::AnsiColor::Red),
        b'X' => Color::Xterm(xterm::XtermColor::from_code(99)),
        b'R' => Color::Rgb(rgb::RgbColor { red: 1, green: 20, blue: 255 }),
        b'C' => Color::Css(css::CssColor::Tomato),
        b'N' => return None,
        _ => panic!("kind {c}"),
    })
}

/// asks the library whether this style is colored on this stream
fn ask<F: OptionalColor, B: OptionalColor, U: OptionalColor>(
    st: Style<F, B, U>,
    stream: Option<Stream>,
    how: u8,
) -> &'static str {
    match how {
        b's' => yes(al(|| st.should_color(stream))),
        _ => {
            let st = st.italics();
            let v = StyledValue::new(3, st, stream);
            let mut got = Buf::<256>::new();
            let r = match how {
                b'd' => al(|| write!(got, "{v:?}")),
                b'x' => al(|| write!(got, "{v:x}")),
                _ => al(|| write!(got, "{v}")),
            };
            if r.is_err() {
                return "error";
            }
            let mut full = Buf::<256>::new();
            write!(full, "{}3{}", st.apply(), st.clear()).unwrap();
            if got.bytes() == b"3" {
                "no"
            } else if got.bytes() == full.bytes() {
                "yes"
            } else {
                "garbled"
            }
        }
    }
}
fn yes(b: bool) -> &'static str {
    if b {
        "yes"
    } else {
        "no"
    }
}

macro_rules! by_type {
    ($k:expr, $st:ident, $set:ident, $next:expr) => {
        match $k {
            b'A' => $next($st.$set(ansi::BrightBlue)),
            b'X' => $next($st.$set(xterm::Gold)),
            b'R' => $next($st.$set(rgb::Rgb::<9, 88, 177>)),
            b'C' => $next($st.$set(css::Salmon)),
            _ => $next($st.$set(colorz::NoColor)),
        }
    };
}

fn typed(k: [u8; 3], stream: Option<Stream>, how: u8) -> &'static str {
    fn ul<F: OptionalColor, B: OptionalColor>(st: Style<F, B, colorz::NoColor>, k: [u8; 3], stream: Option<Stream>, how: u8) -> &'static str {
        by_type!(k[2], st, underline_color, |st| ask(st, stream, how))
    }
    fn bg<F: OptionalColor>(st: Style<F, colorz::NoColor, colorz::NoColor>, k: [u8; 3], stream: Option<Stream>, how: u8) -> &'static str {
        by_type!(k[1], st, bg, |st| ul(st, k, stream, how))
    }
    let st = Style::new();
    by_type!(k[0], st, fg, |st| bg(st, k, stream, how))
}

fn query(stream: &str, kinds: &str, how: u8) -> &'static str {
    let stream = stream_of(stream);
    let ks = kinds.as_bytes();
    match how {
        // the bare question, any number of kinds
        b'm' => {
            let v: Vec<ColorKind> = ks.iter().map(|&c| kind_of(c)).collect();
            yes(al(|| mode::should_color(stream, &v)))
        }
        _ => {
            let mut k = [b'N'; 3];
            k[..ks.len()].copy_from_slice(ks);
            match how {
                // lower case: runtime style; upper case: statically typed
                b's' | b'f' | b'd' | b'x' => ask(
                    Style::new().fg(color_of(k[0])).bg(color_of(k[1])).underline_color(color_of(k[2])),
                    stream,
                    how,
                ),
                b'S' | b'F' | b'D' => typed(k, stream, how.to_ascii_lowercase()),
                _ => panic!("how {how}"),
            }
        }
    }
}

/// what detection of this stream would find right now
fn snapshot(fd: i32) -> i32 {
    #[cfg(feature = "supports-color")]
    {
        let s = if fd == 1 { supports_color::Stream::Stdout } else { supports_color::Stream::Stderr };
        supports_color::on(s).map_or(0, |l| l.has_basic as i32 + l.has_256 as i32 + l.has_16m as i32)
    }
    #[cfg(not(feature = "supports-color"))]
    {
        SUPPORT[(fd - 1) as usize].load(Ordering::SeqCst)
    }
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn step(op: &str) -> String {
    if let Some(ops) = op.strip_prefix("REP@") {
        // some operations over and over again; all their results must be the same
        let mut ops = ops.split('@');
        let n: usize = ops.next().unwrap().parse().unwrap();
        let ops: Vec<&str> = ops.collect();
        let mut last = String::new();
        for k in 0..n {
            let r = step(ops[k % ops.len()]);
            if k > 0 && r != last {
                return format!("{last}/{r}");
            }
            last = r;
        }
        return last;
    }
    let p: Vec<&str> = op.split(':').collect();
    match p[0] {
        "SM" => {
            let m = mode_of(p[1]);
            al(|| mode::set_coloring_mode(m));
            "ok".into()
        }
        "GM" => mode_name(al(mode::get_coloring_mode)).into(),
        "SD" => {
            let s = stream_of(p[1]).unwrap();
            al(|| mode::set_default_stream(s));
            "ok".into()
        }
        "GD" => stream_name(al(mode::get_default_stream)).into(),
        "Q" => query(p[1], p[2], p[3].as_bytes()[0]).into(),
        // environment
        "R" => {
            let i = if p[1] == "Stdout" { 0 } else { 1 };
            SUPPORT[i].store(p[2].parse().unwrap(), Ordering::SeqCst);
            "ok".into()
        }
        "SV" => {
            if p[2] == "-" {
                std::env::remove_var(p[1])
            } else {
                std::env::set_var(p[1], std::ffi::OsString::from_vec(unhex(p[2])))
            }
            "ok".into()
        }
        "SNAP" => format!("{},{}", snapshot(1), snapshot(2)),
        // a styled value whose formatting fails / panics / is written to a
        // destination that fails: it must leave no trace
        "BAD" => bad(p[1]).into(),
        // the raw escapes of a style: used to compare builds
        "ESC" => escapes(),
        #[cfg(feature = "std")]
        "ER" => Mode::from_env().map_or("None", mode_name).into(),
        #[cfg(feature = "std")]
        "ES" => {
            mode::set_coloring_mode_from_env();
            "ok".into()
        }
        _ => panic!("op {op}"),
    }
}

struct Bad(u8);
impl std::fmt::Display for Bad {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.0 {
            b'e' => {
                f.write_str("partial")?;
                Err(std::fmt::Error)
            }
            b'p' => panic!("value panics"),
            _ => f.write_str("fine"),
        }
    }
}
struct Failing(usize);
impl std::fmt::Write for Failing {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        if self.0 == 0 {
            return Err(std::fmt::Error);
        }
        self.0 -= 1;
        Ok(())
    }
}
fn bad(how: &str) -> &'static str {
    let h = how.as_bytes()[0];
    let style = Style::new().fg(ansi::Red).bold().italics();
    let r = std::panic::catch_unwind(|| {
        if h == b'w' {
            let n: usize = how[1..].parse().unwrap();
            write!(Failing(n), "{}", StyledValue::new(Bad(b'x'), style, Some(Stream::AlwaysColor)))
        } else {
            let mut b = Buf::<256>::new();
            write!(b, "{}", StyledValue::new(Bad(h), style, Some(Stream::AlwaysColor)))
        }
    });
    match r {
        Err(_) => "panicked",
        Ok(Err(_)) => "failed",
        Ok(Ok(())) => "fine",
    }
}

fn escapes() -> String {
    let mut s = String::new();
    let st = Style::new().fg(ansi::Red).bg(rgb::Rgb::<1, 2, 3>).underline_color(xterm::Gold).bold().underline();
    write!(s, "{}|{}|{}", st.apply(), st.clear(), Style::clear_all()).unwrap();
    let st = st.into_runtime_style();
    write!(s, "|{}|{}", st.apply(), st.clear()).unwrap();
    let e = colorz::Effect::Bold;
    write!(s, "|{}|{}", e.apply_escape(), e.clear_escape()).unwrap();
    s.replace('\x1b', "^").replace(' ', "_")
}

fn main() {
    let quiet = std::env::args().any(|a| a == "--quiet");
    // with `--allocs`, every result is followed by `@` and the number of allocations of the operation
    let allocs = std::env::args().any(|a| a == "--allocs");
    let timing: u32 = 20;
    clean_env();
    quiet_panics();
    let mut input = String::new();
    std::io::stdin().read_to_string(&mut input).unwrap();
    let scripts: Vec<&str> = input.lines().collect();
    // children are forked from single-threaded workers
    let workers = 8;
    let mut files = vec![];
    for w in 0..workers {
        let mut ends = [0i32; 2];
        extern "C" {
            fn pipe(e: *mut i32) -> i32;
            fn fork() -> i32;
            fn close(fd: i32) -> i32;
            fn _exit(c: i32) -> !;
        }
        unsafe {
            assert!(pipe(ends.as_mut_ptr()) == 0);
            let pid = fork();
            assert!(pid >= 0);
            if pid == 0 {
                close(ends[0]);
                for (i, s) in scripts.iter().enumerate().skip(w).step_by(workers) {
                    let st = in_child(ends[1], timing, || run_script(i, s, quiet, allocs));
                    if st != 0 {
                        write_all(ends[1], format!("{i} crash({st})\n").as_bytes());
                    }
                }
                _exit(0)
            }
            close(ends[1]);
            files.push(std::os::fd::FromRawFd::from_raw_fd(ends[0]));
        }
    }
    let handles: Vec<_> = files
        .into_iter()
        .map(|mut f: std::fs::File| {
            std::thread::spawn(move || {
                let mut s = vec![];
                f.read_to_end(&mut s).unwrap();
                s
            })
        })
        .collect();
    let out = std::io::stdout();
    for h in handles {
        out.lock().write_all(&h.join().unwrap()).unwrap();
    }
}

fn run_script(i: usize, script: &str, quiet: bool, allocs: bool) -> Vec<u8> {
    let mut out = format!("{i}");
    let mut differs = false;
    for opx in script.split(' ').filter(|s| !s.is_empty()) {
        let (op, want) = match opx.rsplit_once('=') {
            Some((a, b)) => (a, Some(b)),
            None => (opx, None),
        };
        let got = std::panic::catch_unwind(|| step(op)).unwrap_or_else(|_| "panic".into());
        differs |= want.is_some_and(|w| w != got);
        out.push(' ');
        out.push_str(&got);
        let n = spent();
        if allocs {
            write!(out, "@{n}").unwrap()
        }
        if differs && quiet {
            break;
        }
    }
    out.push('\n');
    if quiet && !differs {
        return vec![];
    }
    out.into_bytes()
}
