//! Constant expressions (C22).  `COLORZ_GEN` names a file of programs generated
//! from MCConst.tla; every program is evaluated at compile time (unless the
//! feature `noconst` is on) and at run time.
#![allow(unused)]
use colorz::mode::{Mode, Stream};
use colorz::{ansi, css, rgb, xterm, Color, ComptimeColor, Effect, EffectFlags, NoColor, Style, StyledValue};
use colorz_driver::acc::Rec;
use colorz_driver::eng::{Lc, Report};
use colorz_driver::lay::*;
use colorz_driver::pal::*;
use colorz_driver::*;
use std::hint::black_box;

seam!();

/// at compile time
#[cfg(not(feature = "noconst"))]
macro_rules! cst { ($e:expr) => { const { $e } } }
#[cfg(feature = "noconst")]
macro_rules! cst { ($e:expr) => { $e } }

#[allow(dead_code)]
fn leak<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}

trait Shows {
    fn shows(&self) -> String;
}
impl<F: Col, B: Col, U: Col> Shows for Style<F, B, U> {
    fn shows(&self) -> String {
        format!("[{}]", layer(self, None).json())
    }
}
impl<T: Inner, F: Col, B: Col, U: Col> Shows for StyledValue<T, F, B, U> {
    fn shows(&self) -> String {
        let t: Vec<String> = self.inner().iter().map(|l| l.json()).collect();
        let same = self.id() == VALUE.id();
        format!("[{}]{}", t.join(","), if same { "" } else { " another value" })
    }
}
impl Shows for EffectFlags {
    fn shows(&self) -> String {
        let i: Vec<usize> = self.iter().map(effect_index).collect();
        let want: Vec<usize> = (0..13).filter(|k| mask(*self) >> k & 1 == 1).collect();
        format!("{}{}", mask(*self), if i == want { "" } else { " iterates differently" })
    }
}
static VALUE: &str = "value";

struct Run {
    rep: Report,
    n: usize,
}
impl Run {
    fn prog(&mut self, text: &str, want: &str, c: impl Shows, r: impl Shows) {
        self.n += 1;
        let (c, r) = (c.shows(), r.shows());
        if c != want {
            self.rep.bad("constant", || format!("{text:?} evaluates to {c}, not {want}"));
        }
        if c != r {
            self.rep.bad("runtime", || format!("{text:?} evaluates to {c} in a constant expression, to {r} at run time"));
        }
    }
    fn same<T: PartialEq + std::fmt::Debug>(&mut self, text: &str, c: T, r: T) {
        self.n += 1;
        if c != r {
            self.rep.bad("runtime", || format!("{text} is {c:?} in a constant expression, {r:?} at run time"));
        }
    }
}

fn effects(run: &mut Run) {
    macro_rules! each { ($(($i:literal $n:ident $m:ident $im:ident))*) => { $({
        const E: Effect = Effect::$n;
        macro_rules! q { ($e:expr, $r:expr) => { run.same(concat!(stringify!($e), " of ", stringify!($n)), cst!($e), $r) } }
        let e = black_box(E);
        q!(E.apply_args(), e.apply_args());
        q!(E.clear_args(), e.clear_args());
        q!(E.apply_escape(), e.apply_escape());
        q!(E.clear_escape(), e.clear_escape());
        q!(EffectFlags::new().with(E).is(E), true);
        q!(EffectFlags::all().is(E), true);
        q!(EffectFlags::all().without(E).is(E), false);
        q!(EffectFlags::all().toggled(E).is(E), false);
        q!(EffectFlags::new().toggled(E).is(E), true);
        q!(EffectFlags::new().with(E).is_plain(), false);
        q!(EffectFlags::new().with(E).without(E).is_plain(), true);
        q!(EffectFlags::new().with(E).is_any(EffectFlags::all()), true);
        q!(EffectFlags::new().with(E).is_any(EffectFlags::all().without(E)), false);
        q!(EffectFlags::from_array([E, E, Effect::Bold]).is(E), true);
        q!(Style::new().$m().is(E), true);
        q!(Style::new().effect_flags(EffectFlags::all()).without(E).is(E), false);
        q!(Style::new().effects_array([E]).effects.is(E), true);
        run.same("iter", cst!(EffectFlags::new().with(E).iter()).collect::<Vec<_>>(), vec![e]);
    })* } }
    effect_names!(each);
    run.same("all", cst!(EffectFlags::all().iter()).collect::<Vec<_>>(), EFFECTS.to_vec());
}

/// every palette entry, evaluated at compile time, as records for Colors.tla
fn palette(run: &mut Run) -> Vec<Rec> {
    let mut out = vec![];
    macro_rules! six { ($r:ident, $via:expr, $v:expr, $v2:expr) => { {
        let x = black_box($v2);
        $r.text("args", "fg", $via.into(), cst!($v.foreground_args()));
        $r.text("args", "bg", $via.into(), cst!($v.background_args()));
        $r.text("args", "ul", $via.into(), cst!($v.underline_args()));
        $r.text("escape", "fg", $via.into(), cst!($v.foreground_escape()));
        $r.text("escape", "bg", $via.into(), cst!($v.background_escape()));
        $r.text("escape", "ul", $via.into(), cst!($v.underline_escape()));
        run.same($via, cst!($v.foreground_args()), x.foreground_args());
        run.same($via, cst!($v.background_args()), x.background_args());
        run.same($via, cst!($v.underline_args()), x.underline_args());
        run.same($via, cst!($v.foreground_escape()), x.foreground_escape());
        run.same($via, cst!($v.background_escape()), x.background_escape());
        run.same($via, cst!($v.underline_escape()), x.underline_escape());
    } } }
    macro_rules! ansis { ($(($i:tt $n:ident))*) => { $({
        let mut r = Rec::new(Lc::Ansi($i));
        let via = concat!("const AnsiColor::", stringify!($n));
        six!(r, via, ansi::AnsiColor::$n, ansi::AnsiColor::$n);
        r.conv("xterm", via.into(), cst!(ansi::AnsiColor::$n.to_xterm()));
        r.conv("same", via.into(), cst!(<ansi::$n as ComptimeColor>::VALUE));
        r.conv("same", via.into(), cst!(ansi::$n::DYNAMIC));
        r.text("args", "fg", via.into(), cst!(ansi::$n::FOREGROUND_ARGS));
        r.text("args", "bg", via.into(), cst!(ansi::$n::BACKGROUND_ARGS));
        r.text("escape", "fg", via.into(), cst!(ansi::$n::FOREGROUND_ESCAPE));
        r.text("escape", "bg", via.into(), cst!(ansi::$n::BACKGROUND_ESCAPE));
        out.push(r);
    })* } }
    ansi_names!(ansis);
    macro_rules! xterms { ($(($i:tt $n:ident))*) => { $({
        let mut r = Rec::new(Lc::Xterm($i));
        let via = concat!("const XtermColor::", stringify!($n));
        six!(r, via, xterm::XtermColor::from_code($i), xterm::XtermColor::from_code($i));
        r.text("raw", "fg", via.into(), cst!(xterm::XtermColor::from_code($i).args()));
        r.conv("same", via.into(), cst!(xterm::XtermColor::from_code($i)));
        run.same(via, cst!(xterm::XtermColor::from_code($i)), xterm::XtermColor::from_code(black_box($i)));
        r.conv("same", via.into(), cst!(<xterm::$n as ComptimeColor>::VALUE));
        r.text("escape", "fg", via.into(), cst!(xterm::$n::FOREGROUND_ESCAPE));
        out.push(r);
    })* } }
    xterm_names!(xterms);
    macro_rules! csss { ($(($i:tt $n:ident))*) => { $({
        let mut r = Rec::new(Lc::Css($i));
        let via = concat!("const CssColor::", stringify!($n));
        six!(r, via, css::CssColor::$n, css::CssColor::$n);
        r.text("raw", "fg", via.into(), cst!(css::CssColor::$n.args()));
        r.conv("rgb", via.into(), cst!(css::CssColor::$n.rgb()));
        r.conv("same", via.into(), cst!(<css::$n as ComptimeColor>::VALUE));
        r.text("escape", "ul", via.into(), cst!(css::$n::UNDERLINE_ESCAPE));
        out.push(r);
    })* } }
    css_names!(csss);
    macro_rules! rgbs { ($(($a:literal $b:literal $c:literal))*) => { $({
        let mut r = Rec::new(Lc::Rgb($a, $b, $c));
        let via = concat!("const Rgb<", $a, ",", $b, ",", $c, ">");
        type C = rgb::Rgb<$a, $b, $c>;
        r.text("args", "fg", via.into(), cst!(C::FOREGROUND_ARGS));
        r.text("args", "bg", via.into(), cst!(C::BACKGROUND_ARGS));
        r.text("args", "ul", via.into(), cst!(C::UNDERLINE_ARGS));
        r.text("escape", "fg", via.into(), cst!(C::FOREGROUND_ESCAPE));
        r.text("escape", "bg", via.into(), cst!(C::BACKGROUND_ESCAPE));
        r.text("escape", "ul", via.into(), cst!(C::UNDERLINE_ESCAPE));
        r.text("raw", "fg", via.into(), cst!(C::ARGS));
        r.conv("same", via.into(), cst!(C::DYNAMIC));
        r.conv("same", via.into(), cst!(<C as ComptimeColor>::VALUE));
        out.push(r);
    })* } }
    rgbs!((0 0 0) (255 255 255) (1 22 133) (200 10 9) (99 100 101) (9 99 199) (110 20 0) (5 250 55));
    let mut none = Rec::new(Lc::None);
    none.conv("same", "const NoColor".into(), cst!(<NoColor as ComptimeColor>::VALUE));
    out.push(none);
    out
}

fn parse_rec(out: &mut Vec<String>, mc: &str, s: &[u8], r: &str) {
    let r = if r.is_empty() { "[\"error\"]".into() } else { format!("[\"ok\",\"{r}\"]") };
    out.push(format!("{{\"mc\":\"{mc}\",\"s\":{},\"r\":{r},\"e\":{r}}}", json_bytes(s)));
}
#[allow(unreachable_patterns)]
fn mode_word<E>(m: Result<Mode, E>) -> &'static str {
    match m {
        Ok(Mode::Detect) => "Detect",
        Ok(Mode::Always) => "Always",
        Ok(Mode::Never) => "Never",
        Ok(_) => "?",
        Err(_) => "",
    }
}
#[allow(unreachable_patterns)]
fn stream_word<E>(m: Result<Stream, E>) -> &'static str {
    match m {
        Ok(s) => stream_name(Some(s)),
        Err(_) => "",
    }
}
macro_rules! text { ($run:ident, $out:ident, $t:literal) => {
    let (c, r) = (mode_word(cst!(Mode::from_ascii_bytes($t))), mode_word(Mode::from_ascii_bytes(black_box($t))));
    $run.same(concat!("Mode from ", stringify!($t)), c, r);
    parse_rec($out, "mode", $t, c);
    let (c, r) = (stream_word(cst!(Stream::from_ascii_bytes($t))), stream_word(Stream::from_ascii_bytes(black_box($t))));
    $run.same(concat!("Stream from ", stringify!($t)), c, r);
    parse_rec($out, "stream", $t, c);
} }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut run = Run { rep: Report::default(), n: 0 };
    programs(&mut run);
    let n = run.n;
    effects(&mut run);
    let recs: Vec<String> = palette(&mut run).iter().map(|r| r.json()).collect();
    let mut parses = vec![];
    texts(&mut run, &mut parses);
    std::fs::write(&a[1], format!("[{}]", recs.join(",\n"))).unwrap();
    std::fs::write(&a[2], format!("[{}]", parses.join(",\n"))).unwrap();
    for l in &run.rep.lines {
        println!("{l}");
    }
    println!("STAT programs {n}\nSTAT compared {}\nDONE", run.n);
}

include!(env!("COLORZ_GEN"));
