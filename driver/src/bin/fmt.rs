//! Formatting of styled values, for Fmt.tla.
//!   fmt replay FILE PROP          behaviours exported by MCFmt.tla
//!   fmt record PROP SEED N LEN    random formattings, for TraceFmt.tla
//!   fmt options SEED N FILE       every combination of format options
#![feature(formatting_options)]
use colorz::mode::{self, ColorKind, Mode};
use colorz::Effect;
use colorz_driver::pal::*;
use colorz_driver::rend::*;
use colorz_driver::*;
use std::cell::RefCell;
use std::fmt::{self, Alignment, DebugAsHex, Formatter, FormattingOptions, Sign};

seam!();

// ------------------------------------------------------------------ traits

const TRAITS: [&str; 9] =
    ["Display", "Debug", "Binary", "Octal", "Pointer", "LowerExp", "UpperExp", "LowerHex", "UpperHex"];
/// the value was called through fmt_with
const WITH: usize = 9;

macro_rules! each_trait {
    ($m:ident) => {
        $m! { 0 Display; 1 Debug; 2 Binary; 3 Octal; 4 Pointer; 5 LowerExp; 6 UpperExp; 7 LowerHex; 8 UpperHex }
    };
}
macro_rules! all_bound {
    ($($i:literal $t:ident);*) => {
        trait All: $(fmt::$t +)* {}
        impl<T: $(fmt::$t +)*> All for T {}
        fn call<T: All + ?Sized>(t: usize, v: &T, f: &mut Formatter<'_>) -> fmt::Result {
            match t { $($i => fmt::$t::fmt(v, f),)* _ => unreachable!() }
        }
    };
}
each_trait!(all_bound);

fn show_opts(o: FormattingOptions) -> String {
    format!(
        "{:?} {:?} {:?} {} {} {:?} {:?} {:?}",
        o.get_fill(),
        o.get_align(),
        o.get_sign(),
        o.get_alternate(),
        o.get_sign_aware_zero_pad(),
        o.get_width(),
        o.get_precision(),
        o.get_debug_as_hex()
    )
}

fn options(fill: char, align: usize, sign: usize, alt: bool, zero: bool, hex: usize, width: Option<u16>, prec: Option<u16>) -> FormattingOptions {
    let mut o = FormattingOptions::new();
    o.fill(fill)
        .align([None, Some(Alignment::Left), Some(Alignment::Right), Some(Alignment::Center)][align])
        .sign([None, Some(Sign::Plus), Some(Sign::Minus)][sign])
        .alternate(alt)
        .sign_aware_zero_pad(zero)
        .debug_as_hex([None, Some(DebugAsHex::Lower), Some(DebugAsHex::Upper)][hex])
        .width(width)
        .precision(prec);
    o
}
fn random_options(r: &mut Rng) -> FormattingOptions {
    let num = |r: &mut Rng| match r.below(4) {
        0 | 1 => None,
        2 => Some(r.below(20) as u16),
        _ => Some([0, 1, 255, 256, 3000][r.below(5)]),
    };
    options(
        [' ', ' ', '*', '0', 'é', '\u{1F600}'][r.below(6)],
        r.below(4),
        r.below(3),
        r.below(2) == 0,
        r.below(2) == 0,
        r.below(3),
        num(r),
        num(r),
    )
}

// ------------------------------------------------------- the styles of layers

/// the style of layer n, as one of several types
macro_rules! with_style {
    ($n:expr, $st:ident => $e:expr) => {{
        let n: usize = $n;
        match n % 7 {
            0 => { let $st = Style::new().fg(rgb::RgbColor { red: n as u8, green: 200, blue: 3 }).bold(); $e }
            1 => { let $st = Style::new().bg(xterm::XtermColor::from_code(n as u8)); $e }
            2 => {
                let $st = Style::new().fg(color(any_of(n))).bg(color(any_of(n + 1))).underline_color(color(any_of(n + 2)))
                    .italics().underline().into_runtime_style();
                $e
            }
            3 => { let $st = Style::new().effects_array([Effect::Blink, Effect::Hidden]).with(EFFECTS[n % 13]); $e }
            4 => { let $st = Style::new().fg(css::Tomato).bg(ansi::AnsiColor::BrightGreen).reverse(); $e }
            5 => { let $st = Style::new().fg(ansi::Red).underline_color(rgb::Rgb::<1, 2, 3>).double_underline(); $e }
            _ => { let $st = Style::new().superscript(); $e }
        }
    }};
}
fn any_of(n: usize) -> colorz_driver::eng::Lc {
    any_color(&mut Rng(n as u64 * 77 + 5))
}
const KIND_NAMES: [&str; 4] = ["Ansi", "Xterm", "Rgb", "NoColor"];
fn kind_name(k: ColorKind) -> &'static str {
    KIND_NAMES[match k {
        ColorKind::Ansi => 0,
        ColorKind::Xterm => 1,
        ColorKind::Rgb => 2,
        _ => 3,
    }]
}
fn kinds_of<F: OptionalColor, G: OptionalColor, U: OptionalColor>(st: &Style<F, G, U>) -> String {
    let k = [st.foreground.color_kind(), st.background.color_kind(), st.underline_color.color_kind()];
    format!("[\"{}\",\"{}\",\"{}\"]", kind_name(k[0]), kind_name(k[1]), kind_name(k[2]))
}
fn open_of<F: OptionalColor, G: OptionalColor, U: OptionalColor>(st: &Style<F, G, U>) -> Vec<u8> {
    st.apply().to_string().into_bytes()
}
fn close_of<F: OptionalColor, G: OptionalColor, U: OptionalColor>(st: &Style<F, G, U>) -> Vec<u8> {
    st.clear().to_string().into_bytes()
}

fn mode_of(s: &str) -> Mode {
    match s {
        "Detect" => Mode::Detect,
        "Always" => Mode::Always,
        "Never" => Mode::Never,
        _ => panic!("mode {s}"),
    }
}
const STREAM_NAMES: [&str; 5] = ["AlwaysColor", "NeverColor", "Stdout", "Stderr", "None"];
fn stream_of(s: &str) -> Option<Stream> {
    match s {
        "Stdout" => Some(Stream::Stdout),
        "Stderr" => Some(Stream::Stderr),
        "AlwaysColor" => Some(Stream::AlwaysColor),
        "NeverColor" => Some(Stream::NeverColor),
        _ => None,
    }
}

// ------------------------------------------------- replaying MCFmt behaviours

#[derive(Default)]
struct Play {
    steps: Vec<(bool, u8, String)>,
    pos: usize,
    armed: bool,
    unused_fault: bool,
    out: Vec<u8>,
    ended: Vec<(usize, bool)>,
    trait_: usize,
}
thread_local! { static PLAY: RefCell<Play> = RefCell::default(); }
fn play<R>(f: impl FnOnce(&mut Play) -> R) -> R {
    PLAY.with(|p| f(&mut p.borrow_mut()))
}

/// the destination
struct PlayOut;
impl fmt::Write for PlayOut {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        play(|p| {
            if std::thread::panicking() {
                return Ok(());
            }
            if !s.is_empty() && std::mem::take(&mut p.armed) {
                return Err(fmt::Error);
            }
            p.out.extend_from_slice(s.as_bytes());
            Ok(())
        })
    }
}

struct Player;
fn text(n: usize) -> String {
    format!("<{n}>")
}
impl Player {
    fn run(&self, f: &mut Formatter<'_>) -> fmt::Result {
        loop {
            let (n, (fault, op, arg)) = play(|p| {
                p.unused_fault |= std::mem::take(&mut p.armed);
                p.pos += 1;
                (p.pos, p.steps.get(p.pos - 1).cloned().unwrap_or((false, b'O', String::new())))
            });
            play(|p| p.armed = fault);
            match op {
                b'B' => start(n, &arg, f),
                b'T' => {
                    let _ = f.write_str(&text(n));
                }
                b'M' => mode::set_coloring_mode(mode_of(&arg)),
                b'D' => mode::set_default_stream(stream_of(&arg).unwrap()),
                b'O' => return Ok(()),
                b'X' => return Err(fmt::Error),
                b'P' => panic!("value panics"),
                _ => panic!("step"),
            }
        }
    }
}
fn start(n: usize, stream: &str, f: &mut Formatter<'_>) {
    let t = play(|p| p.trait_);
    let r = with_style!(n, st => {
        let sv = StyledValue::new(Player, st, stream_of(stream));
        if t == WITH { sv.fmt_with(f, |p, f| p.run(f)) } else { call(t, &sv, f) }
    });
    play(|p| {
        p.unused_fault |= std::mem::take(&mut p.armed);
        p.ended.push((n, r.is_ok()))
    });
}
macro_rules! player_traits {
    ($($i:literal $t:ident);*) => { $(impl fmt::$t for Player {
        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
            self.run(f)
        }
    })* };
}
each_trait!(player_traits);

fn replay_line(k: usize, line: &str) -> Option<String> {
    let parts: Vec<&str> = line.split('|').collect();
    let words = |i: usize| parts[i].split(' ').filter(|s| !s.is_empty());
    let set: Vec<&str> = words(0).collect();
    let steps: Vec<(bool, u8, String)> = words(1)
        .map(|w| match w.strip_prefix('!') {
            Some(x) => (true, x.as_bytes()[0], x[1..].to_string()),
            None => (false, w.as_bytes()[0], w[1..].to_string()),
        })
        .collect();
    mode::set_coloring_mode(mode_of(set[0]));
    mode::set_default_stream(stream_of(set[1]).unwrap());
    let mut want = vec![];
    for tok in words(2) {
        let n: usize = tok[1..].parse().unwrap();
        match tok.as_bytes()[0] {
            b't' => want.extend_from_slice(text(n).as_bytes()),
            b'o' => want.extend(with_style!(n, st => open_of(&st))),
            _ => want.extend(with_style!(n, st => close_of(&st))),
        }
    }
    let panics = steps.last().unwrap().1 == b'P';
    play(|p| *p = Play { steps: steps.clone(), pos: 1, armed: steps[0].0, trait_: k % 10, ..Default::default() });
    let r = std::panic::catch_unwind(|| {
        let mut o = PlayOut;
        let mut f = Formatter::new(&mut o, FormattingOptions::new());
        start(1, &steps[0].2, &mut f);
    });
    let (out, ended, unused) = play(|p| (std::mem::take(&mut p.out), p.ended.clone(), p.unused_fault));
    let got_ended: Vec<String> = ended.iter().map(|(n, ok)| format!("{n}{}", if *ok { "+" } else { "-" })).collect();
    let got_ended = got_ended.join(" ");
    let m = match mode::get_coloring_mode() {
        Mode::Detect => "Detect",
        Mode::Always => "Always",
        Mode::Never => "Never",
    };
    let d = STREAM_NAMES.iter().find(|n| stream_of(n) == Some(mode::get_default_stream())).unwrap();
    let settings = format!("{m} {d}");
    let what = if r.is_err() != panics {
        "panics"
    } else if out != want {
        "writes something else"
    } else if got_ended != parts[3] {
        "reports something else"
    } else if unused {
        "never made the write that was to be rejected"
    } else if settings != parts[4] {
        "leaves other settings behind"
    } else {
        return None;
    };
    Some(format!(
        "{{\"what\":\"{what}\",\"trait\":\"{}\",\"behaviour\":\"{line}\",\"wrote\":\"{}\",\"expected\":\"{}\",\"results\":\"{got_ended}\",\"settings\":\"{settings}\"}}",
        TRAITS.get(k % 10).unwrap_or(&"fmt_with"),
        show(&out),
        show(&want)
    ))
}

fn replay(file: &str, prop: &str) {
    let data = std::fs::read_to_string(file).unwrap();
    let lines: Vec<&str> = data.lines().map(|l| l.trim_matches('"')).collect();
    parallel(|w, n| {
        let mut out = String::new();
        let (mut done, mut bad) = (0, 0);
        for (k, l) in lines.iter().enumerate().skip(w).step_by(n) {
            done += 1;
            if let Some(s) = replay_line(k / n + w, l) {
                bad += 1;
                if bad <= 2 {
                    out += &format!("BAD {prop} {s}\n");
                }
            }
        }
        out + &format!("STAT replayed {done}\nSTAT different {bad}\n")
    })
}

/// runs the work in 8 processes (settings are process-wide)
fn parallel(f: impl Fn(usize, usize) -> String) {
    use std::io::Read;
    extern "C" {
        fn pipe(e: *mut i32) -> i32;
        fn fork() -> i32;
        fn close(fd: i32) -> i32;
        fn _exit(c: i32) -> !;
        fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    }
    let n = 8;
    let mut kids = vec![];
    for w in 0..n {
        let mut ends = [0i32; 2];
        unsafe {
            assert!(pipe(ends.as_mut_ptr()) == 0);
            let pid = fork();
            if pid == 0 {
                close(ends[0]);
                write_all(ends[1], f(w, n).as_bytes());
                _exit(0)
            }
            close(ends[1]);
            kids.push((pid, ends[0]));
        }
    }
    let mut dead = 0;
    let handles: Vec<_> = kids
        .into_iter()
        .map(|(pid, fd)| {
            std::thread::spawn(move || {
                let mut f: std::fs::File = unsafe { std::os::fd::FromRawFd::from_raw_fd(fd) };
                let mut s = String::new();
                f.read_to_string(&mut s).unwrap();
                let mut st = 0;
                unsafe { while waitpid(pid, &mut st, 0) < 0 {} }
                (s, st)
            })
        })
        .collect();
    for h in handles {
        let (s, st) = h.join().unwrap();
        print!("{s}");
        if st != 0 {
            dead = st
        }
    }
    if dead == 0 {
        println!("DONE");
    } else {
        println!("a worker died with {dead}");
    }
}

// -------------------------------------------------- recording for TraceFmt

#[derive(Default)]
struct Recd {
    evs: Vec<String>,
    rng: u64,
    steps_left: usize,
    depth: usize,
    /// how deep values are nested
    deepest: usize,
    faults: bool,
    changes: bool,
    opts: bool,
    /// reject one write in this many
    reject: usize,
    propagate: bool,
}
thread_local! { static REC: RefCell<Recd> = RefCell::default(); }
fn rec<R>(f: impl FnOnce(&mut Recd) -> R) -> R {
    REC.with(|p| f(&mut p.borrow_mut()))
}
fn ev(s: String) {
    rec(|r| r.evs.push(s))
}
fn below(n: usize) -> usize {
    rec(|r| {
        let mut g = Rng(r.rng);
        let x = g.below(n);
        r.rng = g.0;
        x
    })
}
struct RecOut;
impl fmt::Write for RecOut {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if std::thread::panicking() {
            return Ok(());
        }
        if s.is_empty() {
            return Ok(());
        }
        let n = rec(|r| r.reject);
        let ok = n == 0 || below(n) > 0;
        ev(format!("{{\"o\":\"W\",\"b\":{},\"ok\":{ok}}}", json_bytes(s.as_bytes())));
        // a destination, too, can change settings
        if rec(|r| r.changes) && below(8) == 0 {
            change()
        }
        if ok {
            Ok(())
        } else {
            Err(fmt::Error)
        }
    }
}
fn change() {
    if below(2) == 0 {
        let m = ["Detect", "Detect", "Always", "Never"][below(4)];
        mode::set_coloring_mode(mode_of(m));
        ev(format!("{{\"o\":\"SM\",\"a\":\"{m}\"}}"));
    } else {
        let s = STREAM_NAMES[below(4)];
        mode::set_default_stream(stream_of(s).unwrap());
        ev(format!("{{\"o\":\"SD\",\"a\":\"{s}\"}}"));
    }
}
fn q(t: usize, o: FormattingOptions) -> String {
    format!("\"{} {}\"", TRAITS.get(t).unwrap_or(&"fmt_with"), show_opts(o).replace('"', "'").replace('\\', "/"))
}
fn layer<F: OptionalColor, G: OptionalColor, U: OptionalColor>(st: &Style<F, G, U>, s: usize) -> String {
    format!(
        "{{\"st\":\"{}\",\"k\":{},\"op\":{},\"cl\":{},\"d\":{}}}",
        STREAM_NAMES[s],
        kinds_of(st),
        json_bytes(&open_of(st)),
        json_bytes(&close_of(st)),
        st.should_color(stream_of(STREAM_NAMES[s]))
    )
}
fn begin(ls: &[String], t: usize, o: FormattingOptions) {
    ev(format!("{{\"o\":\"begin\",\"ls\":[{}],\"q\":{}}}", ls.join(","), q(t, o)))
}

/// formats something styled through `f`, with a random trait and options
fn styled(f: &mut Formatter<'_>) -> fmt::Result {
    let o = if rec(|r| r.opts) && below(2) == 0 {
        let mut g = Rng(below(1 << 30) as u64);
        random_options(&mut g)
    } else {
        f.options()
    };
    let mut f = f.with_options(o);
    let f = &mut f;
    let t = below(10);
    let (n, s) = (below(250), below(5));
    let stream = stream_of(STREAM_NAMES[s]);
    let node = Node;
    macro_rules! go {
        ($sv:expr) => {{
            let sv = $sv;
            if t == WITH {
                sv.fmt_with(f, |_, f| node.run(WITH, f))
            } else {
                call(t, &sv, f)
            }
        }};
    }
    // the destination must not change settings between directly nested layers
    let direct = !rec(|r| r.changes) && t != WITH;
    let r = with_style!(n, st => match below(6) {
        0 if direct => {
            let s2 = below(5);
            let st2 = Style::new().bg(ansi::AnsiColor::Red).on_blue_like(n);
            begin(&[layer(&st2, s2), layer(&st, s)], t, o);
            let inner = StyledValue::new(Node, st, stream);
            if t == 4 {
                // a reference prints its own address
                go!(StyledValue::new(inner, st2, stream_of(STREAM_NAMES[s2])))
            } else {
                go!(StyledValue::new(&inner, st2, stream_of(STREAM_NAMES[s2])))
            }
        }
        1 if direct => {
            let st2 = Style::new().hide();
            let st3 = Style::new().fg(xterm::Gold);
            let (s2, s3) = (below(5), below(5));
            begin(&[layer(&st3, s3), layer(&st2, s2), layer(&st, s)], t, o);
            let v = StyledValue::new(Node, st, stream).into_style().hide().stream_opt(stream_of(STREAM_NAMES[s2]));
            let v = v.into_style().fg(xterm::Gold).stream_opt(stream_of(STREAM_NAMES[s3]));
            go!(v)
        }
        _ => {
            begin(&[layer(&st, s)], t, o);
            go!(StyledValue::new(Node, st, stream))
        }
    });
    ev(format!("{{\"o\":\"end\",\"ok\":{}}}", r.is_ok()));
    r
}
trait OnBlueLike {
    fn on_blue_like(self, n: usize) -> Self;
}
impl<F: OptionalColor, G: OptionalColor, U: OptionalColor> OnBlueLike for Style<F, G, U> {
    fn on_blue_like(self, n: usize) -> Self {
        self.with(EFFECTS[n % 13])
    }
}

struct Node;
impl Node {
    fn run(&self, t: usize, f: &mut Formatter<'_>) -> fmt::Result {
        ev(format!("{{\"o\":\"enter\",\"q\":{}}}", q(t, f.options())));
        rec(|r| r.depth += 1);
        let depth = rec(|r| r.depth);
        // some values catch the panics of what they format
        let r = if rec(|r| r.faults) && below(4) == 0 {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.body(f))) {
                Ok(r) => r,
                Err(_) => {
                    rec(|r| r.depth = depth);
                    ev(format!("{{\"o\":\"caught\",\"d\":{depth}}}"));
                    Ok(())
                }
            }
        } else {
            self.body(f)
        };
        rec(|r| r.depth -= 1);
        ev(format!("{{\"o\":\"ret\",\"ok\":{}}}", r.is_ok()));
        r
    }
    fn body(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let propagate = rec(|r| r.propagate) || below(3) > 0;
        // a long chain of values within values
        let chain = rec(|r| r.deepest > 4 && r.depth < r.deepest);
        for _ in 0..below(7) + chain as usize {
            if rec(|r| {
                r.steps_left = r.steps_left.saturating_sub(1);
                r.steps_left == 0
            }) {
                break;
            }
            let x = if chain && below(4) > 0 { 50 } else { below(100) };
            let r = if x < 45 {
                let texts = ["a", "plain text", "\x1b[31mraw\x1b[0m", "é\u{1F600}", "line\nline", "\x1b", ";m", "0"];
                let s = texts[below(texts.len())];
                ev(format!("{{\"o\":\"emit\",\"b\":{}}}", json_bytes(s.as_bytes())));
                let r = match below(3) {
                    0 => f.write_str(s),
                    1 => f.write_fmt(format_args!("{s}")),
                    _ => fmt::Write::write_str(f, s),
                };
                ev(format!("{{\"o\":\"emitted\",\"ok\":{}}}", r.is_ok()));
                r
            } else if x < 75 && rec(|r| r.depth < r.deepest) {
                styled(f)
            } else if x < 90 {
                if rec(|r| r.changes) {
                    change()
                }
                Ok(())
            } else if rec(|r| r.faults) && x < 94 {
                return Err(fmt::Error);
            } else if rec(|r| r.faults) && x < 97 {
                panic!("value panics")
            } else {
                Ok(())
            };
            if propagate {
                r?
            }
        }
        Ok(())
    }
}
macro_rules! node_traits {
    ($($i:literal $t:ident);*) => { $(impl fmt::$t for Node {
        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
            self.run($i, f)
        }
    })* };
}
each_trait!(node_traits);

/// all settings and decisions, as the library reports them
fn base(fresh: bool) {
    let mut v = vec![format!("{:?}", mode::get_coloring_mode()), format!("{:?}", mode::get_default_stream())];
    for s in STREAM_NAMES {
        for k in [&[ColorKind::Ansi][..], &[ColorKind::Xterm], &[ColorKind::Rgb], &[]] {
            v.push(format!("{}", mode::should_color(stream_of(s), k)))
        }
    }
    v.push(format!("{}", DETECTIONS[0].load(Ordering::SeqCst)));
    v.push(format!("{}", DETECTIONS[1].load(Ordering::SeqCst)));
    let v: Vec<String> = v.iter().map(|x| format!("\"{x}\"")).collect();
    ev(format!("{{\"o\":\"base\",\"r\":[{}],\"fresh\":{fresh}}}", v.join(",")));
}

fn record_one(prop: &str, seed: u64, len: usize) -> String {
    let mut g = Rng(seed);
    let faults = prop == "C15";
    let changes = prop == "C14";
    rec(|r| {
        *r = Recd { rng: g.next(), faults, changes, opts: prop == "C13", ..Default::default() };
    });
    let level = |g: &mut Rng| if cfg!(feature = "supports-color") { g.below(4) } else { [0, 3][g.below(2)] } as i32;
    let sup = [level(&mut g), level(&mut g)];
    for i in 0..2 {
        SUPPORT[i].store(sup[i], Ordering::SeqCst);
    }
    if !cfg!(any(feature = "std", feature = "supports-color")) {
        ev("{\"o\":\"SUP\",\"a\":[0,0]}".into())
    } else {
        ev(format!("{{\"o\":\"SUP\",\"a\":[{},{}]}}", sup[0], sup[1]))
    }
    let _ = mode::should_color(Some(Stream::Stdout), &[ColorKind::Ansi]);
    let _ = mode::should_color(Some(Stream::Stderr), &[ColorKind::Ansi]);
    let settings = |g: &mut Rng| {
        let m = ["Detect", "Detect", "Detect", "Always", "Never"][g.below(5)];
        mode::set_coloring_mode(mode_of(m));
        ev(format!("{{\"o\":\"SM\",\"a\":\"{m}\"}}"));
        let s = STREAM_NAMES[g.below(4)];
        mode::set_default_stream(stream_of(s).unwrap());
        ev(format!("{{\"o\":\"SD\",\"a\":\"{s}\"}}"));
        base(true);
    };
    settings(&mut g);
    if faults {
        // detecting again would now give other answers
        for i in 0..2 {
            SUPPORT[i].store(if sup[i] == 0 { 3 } else { 0 }, Ordering::SeqCst);
        }
    }
    while rec(|r| r.evs.len()) < len {
        rec(|r| {
            let chain = g.below(8) == 0;
            r.steps_left = if chain { 20 + g.below(80) } else { 4 + g.below(14) };
            r.deepest = if chain { 100 } else { 4 };
            r.depth = 0;
            r.propagate = g.below(3) > 0;
            r.reject = if faults && g.below(2) == 0 { 3 + g.below(12) } else { 0 };
        });
        let r = std::panic::catch_unwind(|| {
            let mut o = RecOut;
            let mut f = Formatter::new(&mut o, FormattingOptions::new());
            let _ = styled(&mut f);
        });
        if r.is_err() {
            ev("{\"o\":\"caught\",\"d\":0}".into())
        }
        if !changes {
            base(false);
            if g.below(4) == 0 {
                settings(&mut g)
            }
        }
    }
    rec(|r| r.evs.join(","))
}

fn record(prop: &str, seed: u64, num: usize, len: usize) {
    parallel(|w, n| {
        use std::io::Read;
        let mut out = String::new();
        for k in (w..num).step_by(n) {
            // a process of its own: detection starts anew
            let mut ends = [0i32; 2];
            extern "C" {
                fn pipe(e: *mut i32) -> i32;
                fn close(fd: i32) -> i32;
            }
            unsafe { assert!(pipe(ends.as_mut_ptr()) == 0) };
            let t = std::thread::scope(|s| {
                let rd = s.spawn(move || {
                    let mut f: std::fs::File = unsafe { std::os::fd::FromRawFd::from_raw_fd(ends[0]) };
                    let mut v = String::new();
                    f.read_to_string(&mut v).unwrap();
                    v
                });
                let st = in_child(ends[1], 20, || record_one(prop, seed.wrapping_mul(1000003) + k as u64, len).into_bytes());
                unsafe { close(ends[1]) };
                let v = rd.join().unwrap();
                if st == 0 {
                    format!("TRACE [{v}]\n")
                } else {
                    format!("BAD {prop} {{\"what\":\"the process died ({st}) while formatting\",\"trace\":{k}}}\n")
                }
            });
            out += &t;
        }
        out
    })
}

// ------------------------------------------------------------- all options

thread_local! { static SEEN: RefCell<Vec<(usize, FormattingOptions)>> = const { RefCell::new(vec![]) }; }
/// a value that notes how it is formatted
struct Probe;
macro_rules! probe_traits {
    ($($i:literal $t:ident);*) => { $(impl fmt::$t for Probe {
        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
            SEEN.with(|s| s.borrow_mut().push(($i, f.options())));
            f.write_str("v")
        }
    })* };
}
each_trait!(probe_traits);

type Big = Buf<120000>;
fn fmt_into<T: All + ?Sized>(b: &mut Big, t: usize, o: FormattingOptions, v: &T) -> bool {
    b.len = 0;
    let mut f = Formatter::new(b, o);
    call(t, v, &mut f).is_ok()
}

/// the reference: what a colored layer must print
struct Manual<T>(String, T, String);
macro_rules! manual_traits {
    ($($i:literal $t:ident);*) => { $(impl<T: fmt::$t> fmt::$t for Manual<T> {
        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
            f.write_str(&self.0)?;
            fmt::$t::fmt(&self.1, f)?;
            f.write_str(&self.2)
        }
    })* };
}
each_trait!(manual_traits);

struct Sweep {
    rep: colorz_driver::eng::Report,
    recs: std::collections::HashSet<String>,
    pairs: std::collections::HashMap<(usize, usize, bool, bool, String, String, String, String), std::collections::BTreeSet<(String, String)>>,
    n: usize,
    rng: Rng,
    keep: usize,
}

fn js(s: &[u8]) -> String {
    let mut o = String::from("\"");
    for c in String::from_utf8_lossy(s).chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn one_style<F: OptionalColor + Copy, G: OptionalColor + Copy, U: OptionalColor + Copy>(
    sw: &mut Sweep,
    st: Style<F, G, U>,
    all: &[FormattingOptions],
    values: bool,
) {
    let (open, close) = (st.apply().to_string(), st.clear().to_string());
    let mut b = Big::new();
    for stream in [Stream::AlwaysColor, Stream::NeverColor] {
        let on = st.should_color(stream);
        let v = StyledValue::new(Probe, st, Some(stream));
        for (t, &o) in (0..9).flat_map(|t| all.iter().map(move |o| (t, o))) {
            SEEN.with(|s| {
                s.borrow_mut().clear();
                s.borrow_mut().reserve(8)
            });
            let n = allocs();
            let ok = fmt_into(&mut b, t, o, &v);
            let n = allocs() - n;
            sw.n += 1;
            if n > 0 {
                sw.rep.bad("C21", || format!("{{\"what\":\"formatting a styled value allocates {n} times\",\"trait\":\"{}\",\"options\":\"{}\"}}", TRAITS[t], show_opts(o)))
            }
            let seen = SEEN.with(|s| s.borrow().clone());
            let text = String::from_utf8_lossy(b.bytes()).into_owned();
            let (pre, post) = match text.split_once('v') {
                Some((a, c)) => (a.to_string(), c.to_string()),
                None => (text.clone(), "?".into()),
            };
            let got = seen.first().copied();
            let gt = if seen.len() == 1 { got.map_or(99, |g| g.0) } else { 90 + seen.len() };
            sw.pairs
                .entry((t, gt, on, ok, open.clone(), close.clone(), pre, post))
                .or_default()
                .insert((show_opts(o), got.map_or(String::new(), |g| show_opts(g.1))));
        }
        if !values {
            continue;
        }
        // real values: the same text as the bare value between the sequences
        let mut bare = Big::new();
        for (t, &o) in (0..9).flat_map(|t| all.iter().map(move |o| (t, o))) {
            macro_rules! val {
                ($T:ident $v:expr) => {{
                    let v = $v;
                    let ok = { bare.len = 0; let mut f = Formatter::new(&mut bare, o); fmt::$T::fmt(&v, &mut f).is_ok() };
                    let n0 = allocs();
                    let ok2 = { b.len = 0; let mut f = Formatter::new(&mut b, o); fmt::$T::fmt(&StyledValue::new($v, st, Some(stream)), &mut f).is_ok() };
                    let n0 = allocs() - n0;
                    if n0 > 0 {
                        sw.rep.bad("C21", || format!("{{\"what\":\"formatting a styled value allocates {n0} times\",\"options\":\"{}\"}}", show_opts(o)))
                    }
                    sw.n += 1;
                    let (x, y, z) = if on { (open.as_bytes(), bare.bytes(), close.as_bytes()) } else { (&b""[..], bare.bytes(), &b""[..]) };
                    let g = b.bytes();
                    let same = g.len() == x.len() + y.len() + z.len() && g.starts_with(x) && g.ends_with(z) && &g[x.len()..x.len() + y.len()] == y;
                    if ok != ok2 || !same {
                        sw.rep.bad("C13", || format!(
                            "{{\"what\":\"a styled value prints something else than its bare value between the sequences\",\"value\":\"{}\",\"trait\":\"{}\",\"options\":{},\"colored\":{on},\"bare\":{},\"printed\":{}}}",
                            stringify!($v).replace('"', "'").replace('\\', "/"), stringify!($T), js(show_opts(o).as_bytes()), js(bare.bytes()), js(g)))
                    }
                    if sw.rng.below(sw.keep) == 0 {
                        sw.recs.insert(format!("{{\"on\":{on},\"op\":{},\"cl\":{},\"bare\":{},\"got\":{}}}", js(open.as_bytes()), js(close.as_bytes()), js(bare.bytes()), js(g)));
                    }
                }};
            }
            match t {
                0 => { val!(Display "héllo"); val!(Display -42i32); val!(Display 3.75f64); val!(Display 'x'); val!(Display true); val!(Display 1e21f32); val!(Display "") }
                1 => { val!(Debug "a\"b"); val!(Debug [1u8, 200]); val!(Debug Some(255)); val!(Debug -0.0f64); val!(Debug ("t", 'c')); val!(Debug ()) }
                2 => { val!(Binary 5u8); val!(Binary -5i64) }
                3 => { val!(Octal 511u16) }
                4 => { val!(Pointer 0x7f01usize as *const u8) }
                5 => { val!(LowerExp 12345.678f64); val!(LowerExp 700u32) }
                6 => { val!(UpperExp 1.5e-9f64) }
                7 => { val!(LowerHex 0xabcdu32); val!(LowerHex -1i8) }
                _ => { val!(UpperHex 0xabcdu64) }
            }
        }
    }
    // styled values inside other values
    #[derive(Debug)]
    #[allow(dead_code)]
    struct Outer<T> {
        first: T,
        list: Vec<T>,
        pair: (T, Option<T>),
    }
    for stream in [Stream::AlwaysColor, Stream::NeverColor] {
        let on = st.should_color(stream);
        let wrap = |s: &str| if on { s.to_string() } else { String::new() };
        let sv = |x: i32| StyledValue::new(x, st, Some(stream));
        let mv = |x: i32| Manual(wrap(&open), x, wrap(&close));
        let a = Outer { first: sv(1), list: vec![sv(2), sv(300)], pair: (sv(4), Some(sv(-5))) };
        let c = Outer { first: mv(1), list: vec![mv(2), mv(300)], pair: (mv(4), Some(mv(-5))) };
        for &o in all.iter().step_by(7) {
            let mut x = Big::new();
            b.len = 0;
            let r1 = { let mut f = Formatter::new(&mut b, o); fmt::Debug::fmt(&a, &mut f) };
            let got = b.bytes().to_vec();
            let r2 = { let mut f = Formatter::new(&mut x, o); fmt::Debug::fmt(&c, &mut f) };
            sw.n += 1;
            if got[..] != x.bytes()[..] || r1.is_ok() != r2.is_ok() {
                sw.rep.bad("C13", || format!("{{\"what\":\"styled values inside a container print something else\",\"options\":{},\"printed\":{},\"expected\":{}}}",
                    js(show_opts(o).as_bytes()), js(&got), js(x.bytes())))
            }
        }
    }
}

fn sweep(seed: u64, keep: usize, file: &str, dense: bool) {
    let mut all = vec![];
    let widths: &[Option<u16>] =
        if dense { &[None, Some(0), Some(1), Some(7), Some(30), Some(65)] } else { &[None, Some(0), Some(30)] };
    let precs: &[Option<u16>] =
        if dense { &[None, Some(0), Some(1), Some(2), Some(12)] } else { &[None, Some(0), Some(2)] };
    let fills: &[char] = if dense { &[' ', '*', '0', 'é', '\u{1F600}'] } else { &[' ', '0', 'é'] };
    for &fill in fills {
        for k in 0..4 * 3 * 2 * 2 * 3 {
            for &w in widths {
                for &p in precs {
                    all.push(options(fill, k % 4, k / 4 % 3, k / 12 % 2 == 0, k / 24 % 2 == 0, k / 48, w, p))
                }
            }
        }
    }
    all.push(options('#', 3, 1, true, true, 2, Some(8000), Some(8000)));
    // any other numbers
    let mut r = Rng(seed ^ 77);
    let mut number = |r: &mut Rng| match r.below(6) {
        0 => None,
        1 => Some([1, 63, 64, 127, 128, 255, 256, 257, 999, 1000, 1023, 1024, 2047, 2048][r.below(14)]),
        2 => Some(r.below(2200) as u16),
        _ => Some(r.below(140) as u16),
    };
    for _ in 0..if dense { 3000 } else { 400 } {
        let fill = ['\0', '\n', '\x1b', '#', '-', '1', 'm', '\u{7f}', 'ß', '\u{301}', '\u{10ffff}', ' '][r.below(12)];
        let (w, p) = (number(&mut r), number(&mut r));
        all.push(options(fill, r.below(4), r.below(3), r.below(2) == 0, r.below(2) == 0, r.below(3), w, p))
    }
    mode::set_coloring_mode(Mode::Detect);
    let mut sw = Sweep { rep: Default::default(), recs: Default::default(), pairs: Default::default(), n: 0, rng: Rng(seed), keep };
    let mut v: Vec<(usize, Sweep)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8)
            .map(|w| {
                let all = &all;
                s.spawn(move || {
                    let mut sw = Sweep { rep: Default::default(), recs: Default::default(), pairs: Default::default(), n: 0, rng: Rng(seed + w as u64), keep };
                    let _ = allocs();
                    if w < 7 {
                        let n = w + 7 * (seed as usize % 30);
                        with_style!(n, st => one_style(&mut sw, st, all, w % 3 == (seed % 3) as usize || dense));
                    } else {
                        // no style at all, and a style without anything to show
                        one_style(&mut sw, Style::new(), all, true);
                        one_style(&mut sw, Style::new().underline_color(ansi::Red), all, false);
                    }
                    (w, sw)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (_, x) in v.drain(..) {
        sw.n += x.n;
        sw.recs.extend(x.recs);
        for (k, p) in x.pairs {
            sw.pairs.entry(k).or_default().extend(p)
        }
        sw.rep.merge(x.rep);
    }
    // pairs are the same for nearly every key: write each set once
    let mut sets: std::collections::BTreeMap<String, Vec<String>> = Default::default();
    for (k, p) in &sw.pairs {
        let list: Vec<String> = p.iter().map(|(a, b)| format!("[{},{}]", js(a.as_bytes()), js(b.as_bytes()))).collect();
        sets.entry(list.join(",")).or_default().push(format!(
            "{{\"t\":\"{}\",\"gt\":\"{}\",\"on\":{},\"ok\":{},\"op\":{},\"cl\":{},\"pre\":{},\"post\":{}}}",
            TRAITS[k.0],
            TRAITS.get(k.1).map_or_else(|| format!("{} calls", k.1 as i32 - 90), |s| s.to_string()),
            k.2,
            k.3,
            js(k.4.as_bytes()),
            js(k.5.as_bytes()),
            js(k.6.as_bytes()),
            js(k.7.as_bytes())
        ));
    }
    let mut o = String::from("[");
    for (i, (p, ks)) in sets.iter().enumerate() {
        o += &format!("{}{{\"how\":\"probe\",\"calls\":[{}],\"pairs\":[{}]}}", if i > 0 { ",\n" } else { "" }, ks.join(","), p);
    }
    let mut recs: Vec<&String> = sw.recs.iter().collect();
    recs.sort();
    for c in recs.chunks(500) {
        let c: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
        o += &format!(",\n{{\"how\":\"values\",\"recs\":[{}]}}", c.join(","));
    }
    o += "]";
    std::fs::write(file, o).unwrap();
    for l in &sw.rep.lines {
        println!("{l}")
    }
    println!("STAT formattings {}\nSTAT option_combinations {}\nSTAT values {}\nDONE", sw.n, all.len(), recs.len());
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    clean_env();
    if std::env::args().nth(1).as_deref() != Some("options") {
        quiet_panics();
    }
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    match a[1].as_str() {
        "replay" => replay(&a[2], &a[3]),
        "record" => record(&a[2], num(3), num(4) as usize, num(5) as usize),
        "options" => sweep(num(2), num(3) as usize, &a[4], a.get(5).is_some()),
        _ => panic!("command"),
    }
}
