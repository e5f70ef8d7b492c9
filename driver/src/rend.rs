//! The rendering checks (C01-C04, C21), shared by the render drivers.
use crate::eng::*;
use crate::pal::*;
use crate::*;
pub use colorz::mode::{ColorKind, Stream};
pub use colorz::{ansi, css, rgb, xterm, Color, ComptimeColor, EffectFlags, NoColor, OptionalColor, Style, StyledValue};
use std::fmt;
pub use std::fmt::Write as _;
pub use std::sync::atomic::{AtomicUsize, Ordering};
pub use std::sync::Mutex;

pub trait Form {
    type T: OptionalColor + Copy + Send;
    const NAME: &'static str;
    fn make(r: &mut Rng) -> (Self::T, Lc);
}

/// an index below `n`; half of the time one of a few, so that layers often
/// have the same value, and values at the edges of the palette come up often
pub fn pick(r: &mut Rng, n: usize) -> usize {
    const FEW: [usize; 8] = [0, 1, 7, 8, 15, 16, 146, 255];
    match r.below(4) {
        0 => FEW[r.below(8)] % n,
        1 => r.below(n.min(4)),
        _ => r.below(n),
    }
}
pub fn any_color(r: &mut Rng) -> Lc {
    thread_local!(static LAST: std::cell::Cell<Lc> = const { std::cell::Cell::new(Lc::None) });
    let c = match r.below(9) {
        0 => related(r, LAST.get()),
        x => match x % 4 {
            0 => Lc::Ansi(pick(r, 17) as u8),
            1 => Lc::Xterm(pick(r, 256) as u8),
            2 => Lc::Css(pick(r, 147) as u8),
            _ => any_rgb(r),
        },
    };
    LAST.set(c);
    c
}
/// a color that has something in common with another
fn related(r: &mut Rng, c: Lc) -> Lc {
    let near = |r: &mut Rng, [x, y, z]: [u8; 3]| match r.below(6) {
        0 => Lc::Rgb(x, y, z),
        1 => Lc::Rgb(x, y, r.below(256) as u8),
        2 => Lc::Rgb(x, r.below(256) as u8, z),
        3 => Lc::Rgb(r.below(256) as u8, y, z),
        4 => Lc::Rgb(z, y, x),
        _ => Lc::Rgb(x, y, z ^ 1),
    };
    match (c, r.below(3)) {
        (Lc::Ansi(i), 0) | (Lc::Xterm(i), 0) => Lc::Xterm(i),
        (Lc::Ansi(i), 1) | (Lc::Xterm(i), 1) => Lc::Ansi(i % 17),
        (Lc::Ansi(i), _) => Lc::Ansi((i + 8) % 16),
        (Lc::Xterm(i), _) => Lc::Css(i % 147),
        (Lc::Css(i), 0) => Lc::Css(i),
        (Lc::Css(i), _) => {
            let c = CSS[i as usize].rgb();
            near(r, [c.red, c.green, c.blue])
        }
        (Lc::Rgb(x, y, z), _) => near(r, [x, y, z]),
        (Lc::None, _) => Lc::Ansi(16),
    }
}
pub fn any_rgb(r: &mut Rng) -> Lc {
    let mut c = || match r.below(4) {
        0 => r.below(10) as u8,
        1 => r.below(100) as u8,
        _ => r.below(256) as u8,
    };
    let (x, y, z) = (c(), c(), c());
    match r.below(8) {
        0 => Lc::Rgb(x, x, x),
        1 => [Lc::Rgb(0, 0, 0), Lc::Rgb(255, 255, 255), Lc::Rgb(0, 0, 255), Lc::Rgb(255, 0, 0)][r.below(4)],
        // the colors of the 256-color cube and of the compile-time forms
        2 => {
            let mut c = || [0, 95, 135, 175, 215, 255][r.below(6)];
            Lc::Rgb(c(), c(), c())
        }
        3 => [Lc::Rgb(0, 10, 255), Lc::Rgb(240, 248, 255), Lc::Rgb(99, 100, 9)][r.below(3)],
        _ => Lc::Rgb(x, y, z),
    }
}

macro_rules! form {
    ($F:ident, $T:ty, |$r:ident| $e:expr) => {
        pub struct $F;
        impl Form for $F {
            type T = $T;
            const NAME: &'static str = stringify!($F);
            fn make($r: &mut Rng) -> (Self::T, Lc) {
                $e
            }
        }
    };
}
form!(FNone, NoColor, |_r| (NoColor, Lc::None));
form!(FOptColor, Option<Color>, |r| {
    let l = if r.below(5) == 0 { Lc::None } else { any_color(r) };
    (color(l), l)
});
form!(FColor, Color, |r| {
    let l = any_color(r);
    (color(l).unwrap(), l)
});
form!(FAnsi, ansi::AnsiColor, |r| {
    let i = pick(r, 17);
    (ANSI[i], Lc::Ansi(i as u8))
});
form!(FXterm, xterm::XtermColor, |r| {
    let i = pick(r, 256);
    (XTERM[i], Lc::Xterm(i as u8))
});
form!(FCss, css::CssColor, |r| {
    let i = pick(r, 147);
    (CSS[i], Lc::Css(i as u8))
});
form!(FRgb, rgb::RgbColor, |r| {
    let l = any_rgb(r);
    match l {
        Lc::Rgb(red, green, blue) => (rgb::RgbColor { red, green, blue }, l),
        _ => unreachable!(),
    }
});
form!(FSAnsi, ansi::BrightCyan, |_r| (ansi::BrightCyan, Lc::Ansi(14)));
form!(FSAnsiDefault, ansi::Default, |_r| (ansi::Default, Lc::Ansi(16)));
form!(FSXterm, xterm::Gray93, |_r| (xterm::Gray93, Lc::Xterm(255)));
form!(FSCss, css::AliceBlue, |_r| (css::AliceBlue, Lc::Css(0)));
form!(FSRgb, rgb::Rgb<0, 10, 255>, |_r| (rgb::Rgb, Lc::Rgb(0, 10, 255)));
form!(FOptAnsi, Option<ansi::AnsiColor>, |r| {
    let i = r.below(18);
    if i == 17 {
        (None, Lc::None)
    } else {
        (Some(ANSI[i]), Lc::Ansi(i as u8))
    }
});
form!(FOptSRgb, Option<rgb::Rgb<99, 100, 9>>, |r| if r.below(3) == 0 {
    (None, Lc::None)
} else {
    (Some(rgb::Rgb), Lc::Rgb(99, 100, 9))
});
form!(FOptOpt, Option<Option<Color>>, |r| match r.below(4) {
    0 => (None, Lc::None),
    1 => (Some(None), Lc::None),
    _ => {
        let l = any_color(r);
        (Some(color(l)), l)
    }
});
form!(FOptNone, Option<NoColor>, |r| if r.below(2) == 0 { (None, Lc::None) } else { (Some(NoColor), Lc::None) });

form!(FOptXterm, Option<xterm::XtermColor>, |r| if r.below(3) == 0 {
    (None, Lc::None)
} else {
    let i = pick(r, 256);
    (Some(XTERM[i]), Lc::Xterm(i as u8))
});
form!(FOptNever, Option<std::convert::Infallible>, |_r| (None, Lc::None));

pub struct Cx {
    pub t: Tables,
    pub flags: Vec<EffectFlags>,
    pub seed: u64,
    pub values: usize,
    pub renders: AtomicUsize,
    pub distinct: AtomicUsize,
    pub report: Mutex<Report>,
}

pub type B = Buf<512>;

/// everything observable about one style: the only generic code of the sweep
/// (it is instantiated for every combination of color types)
pub struct Raw {
    pub open: B,
    pub close: B,
    pub plain: bool,
    /// decisions without a stream, for stdout, for stderr
    pub dec: [bool; 3],
    pub allocs: u64,
}
impl Raw {
    pub fn new() -> Raw {
        Raw { open: B::new(), close: B::new(), plain: false, dec: [false; 3], allocs: 0 }
    }
}
#[inline(never)]
pub fn raw<F: OptionalColor, G: OptionalColor, U: OptionalColor>(st: Style<F, G, U>, o: &mut Raw) {
    let n = allocs();
    o.open.len = 0;
    o.close.len = 0;
    if write!(o.open, "{}", st.apply()).is_err() | write!(o.close, "{}", st.clear()).is_err() {
        let _ = o.open.write_str("<error>");
    }
    o.plain = st.is_plain();
    o.dec = [st.should_color(None), st.should_color(Stream::Stdout), st.should_color(Stream::Stderr)];
    o.allocs = allocs() - n;
}

pub fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).replace('\x1b', "^")
}

/// all C01-C03 obligations for one style and what it wrote
pub fn judge(cx: &Cx, rep: &mut Report, ls: &Ls, open: &[u8], close: &[u8], plain: bool, ty: &dyn Fn() -> String) {
    let t = &cx.t;
    let d = t.run(open);
    let e = t.run(close);
    let desc = |w: &str| {
        format!(
            "{{\"what\":\"{w}\",\"types\":\"{}\",\"style\":{},\"open\":\"{}\",\"close\":\"{}\",\"plain\":{plain}}}",
            ty(),
            ls.json(&CSS_NAMES, &EFFECT_NAMES),
            show(open),
            show(close)
        )
    };
    let strip_text = |d: Delta| Delta { text: 0, ..d };
    if strip_text(d) != ls.applied(t) {
        rep.bad("C01", || desc("the opening sequence does not do what the style asks for"))
    }
    if strip_text(e) != ls.cleared(t) {
        rep.bad("C02", || desc("the closing sequence does not undo the style"))
    }
    if d.bad || d.text > 0 || d.reset || e.bad || e.text > 0 || e.reset {
        rep.bad("C03", || desc("not only complete, well-formed escapes without reset"))
    }
    if plain != open.is_empty() || (plain && !close.is_empty()) {
        rep.bad("C03", || desc("is_plain does not agree with what is written"))
    }
    if plain != ls.is_plain() {
        rep.bad("C03", || desc("is_plain is wrong"))
    }
}

/// all obligations for one style, given what was observed of it
pub fn one(cx: &Cx, rep: &mut Report, ls: &Ls, o: &Raw, canon: &mut Raw, ty: &str) {
    judge(cx, rep, ls, o.open.bytes(), o.close.bytes(), o.plain, &|| ty.to_string());
    // C04: the same as the fully dynamic style
    raw(
        Style::new().fg(color(ls.fg)).bg(color(ls.bg)).underline_color(color(ls.ul)).effect_flags(cx.flags[ls.eff as usize]),
        canon,
    );
    same(rep, "differs from the runtime style", ls, o, canon, ty);
    if o.allocs > 0 {
        rep.bad("C21", || format!("{{\"what\":\"allocates {} times\",\"types\":\"{ty}\",\"style\":{}}}", o.allocs, ls.json(&CSS_NAMES, &EFFECT_NAMES)))
    }
    cx.renders.fetch_add(1, Ordering::Relaxed);
    if !o.plain {
        cx.distinct.fetch_add(1, Ordering::Relaxed);
    }
}
pub fn same(rep: &mut Report, what: &str, ls: &Ls, o: &Raw, c: &Raw, ty: &str) {
    if c.open.bytes() != o.open.bytes() || c.close.bytes() != o.close.bytes() || o.plain != c.plain || o.dec != c.dec {
        rep.bad("C04", || {
            format!(
                "{{\"what\":\"{what}\",\"types\":\"{ty}\",\"style\":{},\"this\":\"{} {} {} {:?}\",\"other\":\"{} {} {} {:?}\"}}",
                ls.json(&CSS_NAMES, &EFFECT_NAMES), show(o.open.bytes()), show(o.close.bytes()), o.plain, o.dec,
                show(c.open.bytes()), show(c.close.bytes()), c.plain, c.dec
            )
        })
    }
}

pub fn guarded(cx: &Cx, ty: &str, f: &mut dyn FnMut(&mut Report)) {
    let mut rep = Report::default();
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut rep))).is_err() {
        for p in ["C01", "C02", "C03", "C04", "C21"] {
            rep.bad(p, || format!("{{\"what\":\"the library panics\",\"types\":\"{ty}\"}}"))
        }
    }
    cx.report.lock().unwrap().merge(rep);
}

pub fn combo<F: Form, G: Form, U: Form>(cx: &Cx) {
    let ty = [F::NAME, G::NAME, U::NAME].join("/");
    combo_loop(cx, &ty, &mut |r, eff, o| {
        let ((f, lf), (g, lg), (u, lu)) = (F::make(r), G::make(r), U::make(r));
        raw(Style::new().fg(f).bg(g).underline_color(u).effect_flags(cx.flags[eff as usize]), o);
        Ls { fg: lf, bg: lg, ul: lu, eff }
    })
}
pub fn combo_loop(cx: &Cx, ty: &str, f: &mut dyn FnMut(&mut Rng, u16, &mut Raw) -> Ls) {
    let mut r = Rng(cx.seed ^ fnv(ty));
    let (mut o, mut c) = (Raw::new(), Raw::new());
    guarded(cx, ty, &mut |rep| {
        for eff in 0..8192u16 {
            for _ in 0..cx.values {
                let ls = f(&mut r, eff, &mut o);
                one(cx, rep, &ls, &o, &mut c, ty);
            }
        }
    })
}

/// erasing a style's types changes nothing (C04)
pub fn erase<F: Form, G: Form, U: Form>(cx: &Cx)
where
    F::T: Into<Option<Color>>,
    G::T: Into<Option<Color>>,
    U::T: Into<Option<Color>>,
{
    let ty = ["into_runtime_style", F::NAME, G::NAME, U::NAME].join("/");
    erase_loop(cx, &ty, 48, &mut |r, eff, o| {
        let ((f, lf), (g, lg), (u, lu)) = (F::make(r), G::make(r), U::make(r));
        let st = Style::new().fg(f).bg(g).underline_color(u).effect_flags(cx.flags[eff as usize]);
        raw(st, o);
        let n = allocs();
        let e = st.into_runtime_style();
        (Ls { fg: lf, bg: lg, ul: lu, eff }, e, allocs() - n)
    })
}
pub fn const_erase<F: Form, G: Form, U: Form>(cx: &Cx)
where
    F::T: ComptimeColor,
    G::T: ComptimeColor,
    U::T: ComptimeColor,
{
    let ty = ["const_into_runtime_style", F::NAME, G::NAME, U::NAME].join("/");
    erase_loop(cx, &ty, 24, &mut |r, eff, o| {
        let ((f, lf), (g, lg), (u, lu)) = (F::make(r), G::make(r), U::make(r));
        let st = Style::new().fg(f).bg(g).underline_color(u).effect_flags(cx.flags[eff as usize]);
        raw(st, o);
        let n = allocs();
        let e = st.const_into_runtime_style();
        (Ls { fg: lf, bg: lg, ul: lu, eff }, e, allocs() - n)
    })
}
pub const SPECIAL: [u16; 16] = [0, 1, 8, 16, 9, 24, 25, 8191, 4096, 4097, 2048, 3, 2, 4, 32, 64];
pub fn erase_loop(cx: &Cx, ty: &str, n: usize, f: &mut dyn FnMut(&mut Rng, u16, &mut Raw) -> (Ls, Style, u64)) {
    let mut r = Rng(cx.seed ^ fnv(ty));
    let (mut o, mut c) = (Raw::new(), Raw::new());
    guarded(cx, ty, &mut |rep| {
        for k in 0..n {
            let eff = if k < 16 { SPECIAL[k] } else { r.below(8192) as u16 };
            let (ls, er, spent) = f(&mut r, eff, &mut o);
            same_style(cx, rep, ls, er, spent, &o, &mut c, ty);
        }
    })
}
#[allow(clippy::too_many_arguments)]
pub fn same_style(cx: &Cx, rep: &mut Report, ls: Ls, er: Style, spent: u64, o: &Raw, c: &mut Raw, ty: &str) {
    let got = Ls {
        fg: logical(er.foreground),
        bg: logical(er.background),
        ul: logical(er.underline_color),
        eff: (0..13).map(|i| (er.effects.is(EFFECTS[i]) as u16) << i).sum(),
    };
    raw(er, c);
    same(rep, "erasing the types changes the behaviour", &ls, o, c, ty);
    // which representation the erased style has is its own business (a CSS
    // color may become its RGB value): its output is compared above
    let none = |l: Ls| (l.fg == Lc::None, l.bg == Lc::None, l.ul == Lc::None, l.eff);
    if none(got) != none(ls) {
        rep.bad("C04", || {
            format!("{{\"what\":\"erasing the types changes the style\",\"types\":\"{ty}\",\"style\":{},\"erased\":{}}}",
                ls.json(&CSS_NAMES, &EFFECT_NAMES), got.json(&CSS_NAMES, &EFFECT_NAMES))
        })
    }
    if spent > 0 {
        rep.bad("C21", || format!("{{\"what\":\"{ty} allocates {spent} times\"}}"))
    }
    cx.renders.fetch_add(1, Ordering::Relaxed);
}

/// the number of format specifications
pub const SPECS: usize = 14 + 6 * 81;
const NUMBERS: [usize; 9] = [0, 1, 2, 7, 16, 63, 64, 100, 160];
/// writes it under one of many format specifications
pub fn show_as(b: &mut dyn fmt::Write, spec: usize, d: &dyn fmt::Display, g: &dyn fmt::Debug) -> fmt::Result {
    match spec {
        0 => write!(b, "{d}"),
        1 => write!(b, "{g:?}"),
        2 => write!(b, "{g:#?}"),
        3 => write!(b, "{d:#}"),
        4 => write!(b, "{d:12}"),
        5 => write!(b, "{d:.0}"),
        6 => write!(b, "{d:*^40.3}"),
        7 => write!(b, "{d:>#012.2}"),
        8 => write!(b, "{d:+}"),
        9 => write!(b, "{d:-.1}"),
        10 => write!(b, "{g:é<30.1?}"),
        11 => write!(b, "{g:08x?}"),
        12 => write!(b, "{g:+#X?}"),
        13 => write!(b, "{d:w$}", w = 20),
        _ => {
            let (w, p) = (NUMBERS[spec % 9], NUMBERS[spec / 9 % 9]);
            match (spec - 14) / 81 {
                0 => write!(b, "{d:w$.p$}"),
                1 => write!(b, "{d:0w$.p$}"),
                2 => write!(b, "{g:#0w$.p$?}"),
                3 => write!(b, "{d:^+w$}"),
                4 => write!(b, "{g:m<w$.p$?}"),
                _ => write!(b, "{d:#.p$}"),
            }
        }
    }
}

pub fn show_in(b: &mut B, spec: usize, d: &dyn fmt::Display, g: &dyn fmt::Debug) -> fmt::Result {
    b.len = 0;
    show_as(b, spec, d, g)
}

pub fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

pub type Job = (fn(&Cx), &'static str);

#[macro_export]
macro_rules! jobs_u {
    ($jobs:ident, $f:ident, $F:ident, $G:ident, [$($U:ident)*]) => { $($jobs.push(($f::<$F, $G, $U> as fn(&Cx), stringify!($f)));)* };
}
#[macro_export]
macro_rules! jobs_g {
    ($jobs:ident, $f:ident, $F:ident, [$($G:ident)*], $us:tt) => { $($crate::jobs_u!($jobs, $f, $F, $G, $us);)* };
}
#[macro_export]
macro_rules! jobs {
    ($jobs:ident, $f:ident, [$($F:ident)*], $gs:tt, $us:tt) => { $($crate::jobs_g!($jobs, $f, $F, $gs, $us);)* };
}


/// runs the jobs on all cores
pub fn run_jobs(cx: &Cx, jobs: &[Job]) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| {
                let _ = allocs();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= jobs.len() {
                        break;
                    }
                    (jobs[i].0)(cx)
                }
            });
        }
    });
    println!("STAT jobs {}", jobs.len());
}

/// `BIN TABLES SEED VALUES`
pub fn context(a: &[String]) -> Cx {
    // detection answers differ between the streams, so decisions are told apart
    SUPPORT[0].store(2, Ordering::SeqCst);
    SUPPORT[1].store(1, Ordering::SeqCst);
    let _ = colorz::mode::should_color(Some(Stream::Stdout), &[ColorKind::Ansi]);
    let _ = colorz::mode::should_color(Some(Stream::Stderr), &[ColorKind::Ansi]);
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    Cx {
        t: Tables::read(&a[0]),
        flags: (0..8192).map(flags).collect(),
        seed: num(1),
        values: num(2) as usize,
        renders: AtomicUsize::new(0),
        distinct: AtomicUsize::new(0),
        report: Mutex::new(Report::default()),
    }
}
pub fn finish(cx: &Cx) {
    let rep = cx.report.lock().unwrap();
    for l in &rep.lines {
        println!("{l}")
    }
    for (k, n) in &rep.seen {
        println!("STAT bad-{k} {n}")
    }
    println!("STAT renders {}", cx.renders.load(Ordering::SeqCst));
    println!("STAT nonplain {}", cx.distinct.load(Ordering::SeqCst));
    println!("DONE");
}
