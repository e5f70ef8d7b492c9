//! Programs that use the library as a whole, for TraceSystem.tla.
//!   system SEED N STEPS LEVELS OUT
//! Every program runs in a process of its own.
#![feature(formatting_options)]
use colorz::mode::{self, Mode, Stream};
use colorz::{css, rgb, Color, Colorize, Effect, NoColor, Style, StyledValue};
use colorz_driver::eng::Lc;
use colorz_driver::lay::*;
use colorz_driver::pal::*;
use colorz_driver::rend::{any_color, pick};
use colorz_driver::*;
use std::cell::{Cell, RefCell};
use std::fmt::{self, Formatter, FormattingOptions};
use std::sync::atomic::Ordering;

seam!();

// ------------------------------------------------------------------ the record

thread_local! {
    static EVENTS: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    static RNG: Cell<u64> = const { Cell::new(0) };
    /// the sinks being printed to: the two terminals, or strings
    static PRINTING: RefCell<Vec<usize>> = const { RefCell::new(vec![]) };
    static STRINGS: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    /// the spans that were opened
    static SPANS: RefCell<Vec<(usize, Style, String)>> = const { RefCell::new(vec![]) };
}
const SINKS: [&str; 3] = ["Stdout", "Stderr", "string"];
fn ev(s: String) {
    EVENTS.with(|e| e.borrow_mut().push(s))
}
/// the program's own random numbers (also used while a value is printed)
fn with_rng<R>(f: impl FnOnce(&mut Rng) -> R) -> R {
    let mut g = Rng(RNG.get());
    let r = f(&mut g);
    RNG.set(g.0);
    r
}
fn below(n: usize) -> usize {
    with_rng(|g| g.below(n))
}

// ------------------------------------------------------------------ settings

const MODES: [(Mode, &str); 3] = [(Mode::Detect, "Detect"), (Mode::Always, "Always"), (Mode::Never, "Never")];
/// a word in any case, or something that is no such word
fn word(words: &[&str]) -> String {
    let w = words[below(words.len())];
    let junk = below(6) == 0;
    let mut s: String = w.chars().map(|c| if below(4) == 0 { c.to_ascii_uppercase() } else { c }).collect();
    if junk {
        match below(4) {
            0 => s.push(' '),
            1 => drop(s.pop()),
            2 => s.insert(0, '\u{212a}'),
            _ => s.push_str(w),
        }
    }
    s
}
fn change() {
    match below(8) {
        0..=1 => {
            let s = word(&["detect", "always", "never"]);
            if let Ok(m) = s.parse::<Mode>() {
                mode::set_coloring_mode(m)
            }
            ev(format!("{{\"o\":\"SM\",\"a\":[\"text\",{}]}}", json_bytes(s.as_bytes())));
        }
        2 => {
            let s = word(&["stdout", "stderr", "always", "never"]);
            if let Ok(m) = s.parse::<Stream>() {
                mode::set_default_stream(m)
            }
            ev(format!("{{\"o\":\"SD\",\"a\":[\"text\",{}]}}", json_bytes(s.as_bytes())));
        }
        3..=5 => {
            let (m, n) = MODES[[0, 0, 1, 2][below(4)]];
            mode::set_coloring_mode(m);
            ev(format!("{{\"o\":\"SM\",\"a\":[\"is\",\"{n}\"]}}"));
        }
        _ => {
            let s = STREAMS[1 + below(4)];
            mode::set_default_stream(s.unwrap());
            ev(format!("{{\"o\":\"SD\",\"a\":[\"is\",\"{}\"]}}", stream_name(s)));
        }
    }
}
fn report() {
    let m = mode::get_coloring_mode();
    ev(format!("{{\"o\":\"GM\",\"r\":\"{}\"}}", MODES.iter().find(|x| x.0 == m).unwrap().1));
    ev(format!("{{\"o\":\"GD\",\"r\":\"{}\"}}", stream_name(Some(mode::get_default_stream()))));
}

// ------------------------------------------------------------------ the nine traits

macro_rules! each_trait {
    ($m:ident) => {
        $m! { 0 Display; 1 Debug; 2 Binary; 3 Octal; 4 Pointer; 5 LowerExp; 6 UpperExp; 7 LowerHex; 8 UpperHex }
    };
}
macro_rules! all_bound {
    ($($i:literal $t:ident);*) => {
        trait All: $(fmt::$t +)* {}
        impl<T: $(fmt::$t +)*> All for T {}
        fn call<T: All + ?Sized>(t: usize, v: &T, f: &mut Formatter<'_>) -> fmt::Result {
            match t { $($i => fmt::$t::fmt(v, f),)* _ => unreachable!() }
        }
        $(impl fmt::$t for Node {
            fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
                self.run($i, f)
            }
        })*
    };
}
each_trait!(all_bound);
/// through `fmt_with`
const WITH: usize = 9;

// ------------------------------------------------------------------ values

/// something that can be printed
trait Shown {
    fn show(&self, t: usize, f: &mut Formatter<'_>) -> fmt::Result;
}
enum Item {
    Text(String, usize),
    Change,
    Child(Box<dyn Shown>, usize),
    /// ... and if it fails or panics, never mind
    Try(Box<dyn Shown>, usize),
    /// printed to somewhere else
    Print(Box<dyn Shown>),
    /// a string made earlier
    Paste,
    Ask,
    Span,
    Err,
    Panic,
}
struct Node(Vec<Item>);
/// what is written to it and where it begins
struct Noted<'a, 'b>(&'a mut Formatter<'b>);
impl fmt::Write for Noted<'_, '_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        ev(format!("{{\"o\":\"text\",\"b\":{}}}", json_bytes(s.as_bytes())));
        self.0.write_str(s)
    }
}
impl Node {
    fn run(&self, t: usize, f: &mut Formatter<'_>) -> fmt::Result {
        for x in &self.0 {
            match x {
                Item::Text(s, how) => {
                    let o = f.options();
                    let mut out = Noted(f);
                    match how {
                        0 => fmt::Write::write_str(&mut out, s)?,
                        1 => fmt::Write::write_fmt(&mut out, format_args!("{s}"))?,
                        2 => s.chars().try_for_each(|c| fmt::Write::write_char(&mut out, c))?,
                        3 => fmt::Display::fmt(s.as_str(), &mut Formatter::new(&mut out, o))?,
                        4 => fmt::Debug::fmt(s.as_str(), &mut Formatter::new(&mut out, o))?,
                        // numbers with the options that reached the value
                        _ => {
                            let n = 1000 * s.len() as u32 + 7;
                            let f = &mut Formatter::new(&mut out, o);
                            match t {
                                2 => fmt::Binary::fmt(&n, f)?,
                                3 => fmt::Octal::fmt(&n, f)?,
                                5 => fmt::LowerExp::fmt(&n, f)?,
                                6 => fmt::UpperExp::fmt(&n, f)?,
                                7 => fmt::LowerHex::fmt(&n, f)?,
                                8 => fmt::UpperHex::fmt(&n, f)?,
                                _ => fmt::Display::fmt(&n, f)?,
                            }
                        }
                    }
                }
                Item::Change => change(),
                Item::Child(c, t) => c.show(*t, f)?,
                Item::Try(c, t) => drop(try_show(&**c, *t, f)),
                Item::Print(c) => print(free_sink(), &**c),
                Item::Paste => {
                    let n = STRINGS.with(|s| s.borrow().len());
                    if n > 0 {
                        let k = below(n);
                        ev(format!("{{\"o\":\"paste\",\"k\":{}}}", k + 1));
                        let s = STRINGS.with(|s| s.borrow()[k].clone());
                        f.write_str(&s)?
                    }
                }
                Item::Ask => ask(STREAMS[below(5)]),
                Item::Span => span(below(2)),
                Item::Err => return Err(fmt::Error),
                Item::Panic => panic!("a value that panics"),
            }
        }
        Ok(())
    }
}
impl Shown for Node {
    fn show(&self, t: usize, f: &mut Formatter<'_>) -> fmt::Result {
        call(t % 9, self, f)
    }
}
/// a styled value is left by an error or a panic
struct Fails;
impl Drop for Fails {
    fn drop(&mut self) {
        ev("{\"o\":\"fail\"}".into())
    }
}
fn try_show(d: &dyn Shown, t: usize, f: &mut Formatter<'_>) -> fmt::Result {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.show(t, f))).unwrap_or(Err(fmt::Error))
}
/// a sink that is not being printed to
fn free_sink() -> usize {
    let s = below(3);
    if PRINTING.with(|p| p.borrow().contains(&s)) { 2 } else { s }
}
struct Layered<T, F, B, U>(StyledValue<T, F, B, U>, String);
impl<T: Val, F: Col, B: Col, U: Col> Shown for Layered<T, F, B, U> {
    fn show(&self, t: usize, f: &mut Formatter<'_>) -> fmt::Result {
        // (a pointer to a borrowed value is the reference's own)
        let t = if T::BORROWED && t == 4 { 0 } else { t };
        ev(format!("{{\"o\":\"begin\",\"cs\":{}}}", self.1));
        let left = Fails;
        if t == WITH {
            self.0.fmt_with(f, |v, f| call(0, v, f))?
        } else {
            call(t, &self.0, f)?
        }
        std::mem::forget(left);
        ev("{\"o\":\"end\"}".into());
        Ok(())
    }
}

// ------------------------------------------------------------------ building

/// the calls made so far
struct Calls(Vec<String>);
impl Calls {
    fn add(&mut self, w: bool, m: &str, a: &str) {
        self.0.push(format!("{{\"w\":{w},\"m\":\"{m}\",\"a\":{a}}}"))
    }
    fn json(&self) -> String {
        format!("[{}]", self.0.join(","))
    }
}
fn quoted(s: &str) -> String {
    format!("\"{s}\"")
}
fn lcol<C: Copy + Into<Option<Color>>>(c: C) -> String {
    lcj(lc(c))
}
/// a color that is only known when the program runs, perhaps from text
fn dynamic() -> (Option<Color>, String) {
    if below(3) > 0 {
        let l = with_rng(any_color);
        let l = if below(9) == 0 { Lc::None } else { l };
        return (color(l), lcj(l));
    }
    let s = with_rng(|g| match g.below(7) {
        0 => format!("{}", pick(g, 300)),
        1 => format!("{:03}", g.below(270)),
        2 => format!("#{:02x}{:02X}{:02x}", g.below(256), g.below(256), g.below(256)),
        3 => format!("#{:x}", g.below(256)),
        4 => ["red", "black", "purple", "white", "cyan", "magenta", "blue", "yellow", "green"][g.below(9)].to_string(),
        5 => format!("bright {}", ["red", "black", "white", "cyan", "magenta", "blue", "yellow", "green", "purple"][g.below(9)]),
        _ => ["", "#", "#12g", "#1234567", "Red", "bright  red", "256", "-1", "#+1", " 7", "0x7", "#12345", "é"][g.below(13)].to_string(),
    });
    (s.parse::<Color>().ok(), format!("[\"text\",{}]", json_bytes(s.as_bytes())))
}
fn any_effects() -> (Vec<Effect>, String) {
    let v: Vec<usize> = (0..below(5)).map(|_| below(13)).collect();
    let n: Vec<String> = v.iter().map(|i| quoted(EFFECT_NAMES[*i])).collect();
    (v.iter().map(|i| EFFECTS[*i]).collect(), format!("[{}]", n.join(",")))
}

/// a style, one method after another
fn style() -> (Style, String) {
    let mut s = Style::new().into_runtime_style();
    let mut c = Calls(vec![]);
    for _ in 0..below(6) {
        let e = below(13);
        match below(10) {
            0..=1 => {
                let (x, a) = dynamic();
                s = s.fg(x);
                c.add(false, "fg", &a)
            }
            2 => {
                let (x, a) = dynamic();
                s = s.bg(x);
                c.add(false, "bg", &a)
            }
            3..=4 => {
                let (x, a) = dynamic();
                s = s.underline_color(x);
                c.add(false, "underline_color", &a)
            }
            5 => {
                s = s.with(EFFECTS[e]);
                c.add(false, "with", &quoted(EFFECT_NAMES[e]))
            }
            6 => {
                s = s.toggled(EFFECTS[e]);
                c.add(false, "toggled", &quoted(EFFECT_NAMES[e]))
            }
            7 => {
                s = s.without(EFFECTS[e]);
                c.add(false, "without", &quoted(EFFECT_NAMES[e]))
            }
            8 => {
                let (v, a) = any_effects();
                s = s.effects(v);
                c.add(false, "effects", &a)
            }
            _ => {
                s = s.underline();
                c.add(false, "underline", "\"\"")
            }
        }
    }
    (s, c.json())
}

type Rt<T> = StyledValue<T, Option<Color>, Option<Color>, Option<Color>>;
fn back<T, F: Col, B: Col, U: Col>(v: StyledValue<T, F, B, U>) -> Rt<T> {
    StyledValue::new(v.value, v.style.into_runtime_style(), v.stream)
}

/// values that can be wrapped
trait Val: All + Sized + 'static {
    const BORROWED: bool;
    /// wraps a styled value in another layer and goes on
    fn again(v: Rt<Self>, c: Calls, left: usize) -> Box<dyn Shown>;
}
impl Val for Node {
    const BORROWED: bool = false;
    fn again(v: Rt<Node>, c: Calls, left: usize) -> Box<dyn Shown> {
        wrap(v, c, left)
    }
}
impl Val for &'static Node {
    const BORROWED: bool = true;
    fn again(v: Rt<&'static Node>, c: Calls, left: usize) -> Box<dyn Shown> {
        wrap(v, c, left)
    }
}
impl Val for Rt<Node> {
    const BORROWED: bool = false;
    fn again(v: Rt<Rt<Node>>, c: Calls, _: usize) -> Box<dyn Shown> {
        Box::new(Layered(v, c.json()))
    }
}
impl Val for Rt<&'static Node> {
    const BORROWED: bool = true;
    fn again(v: Rt<Rt<&'static Node>>, c: Calls, _: usize) -> Box<dyn Shown> {
        Box::new(Layered(v, c.json()))
    }
}

/// the consuming methods of plain values
fn wrap<T: Val>(v: T, mut c: Calls, left: usize) -> Box<dyn Shown> {
    macro_rules! one { ($m:ident $k:expr; $(($i:literal $($n:ident)*))*) => {
        match $k { $($i => one!(@ $m $($n)*),)* _ => unreachable!() }
    };
        (@ eff $n:ident $m:ident $im:ident) => { { c.add(true, stringify!($im), "\"\""); grow(v.$im(), c, left) } };
        (@ fg $n:ident $m:ident $im:ident $om:ident $iom:ident) => { { c.add(true, stringify!($im), "\"\""); grow(back(v.$im()), c, left) } };
        (@ bg $n:ident $m:ident $im:ident $om:ident $iom:ident) => { { c.add(true, stringify!($iom), "\"\""); grow(back(v.$iom()), c, left) } };
    }
    match below(12) {
        0 => {
            c.add(true, "into_style", "\"\"");
            grow(v.into_style(), c, left)
        }
        1 => {
            let (x, a) = dynamic();
            c.add(true, "into_fg", &a);
            grow(v.into_fg(x), c, left)
        }
        2 => {
            let (x, a) = dynamic();
            c.add(true, "into_bg", &a);
            grow(v.into_bg(x), c, left)
        }
        3 => {
            let (x, a) = dynamic();
            c.add(true, "into_underline_color", &a);
            grow(v.into_underline_color(x), c, left)
        }
        4 => {
            c.add(true, "into_fg", &lcol(css::Tan));
            grow(v.into_fg(css::Tan), c, left)
        }
        5 => {
            let x = XTERM[with_rng(|g| pick(g, 256))];
            c.add(true, "into_bg", &lcol(x));
            grow(v.into_bg(x), c, left)
        }
        6..=7 => {
            let (s, a) = style();
            c.add(true, "into_style_with", &a);
            grow(v.into_style_with(s), c, left)
        }
        8 => {
            let e = below(13);
            effect_names!(one eff e;)
        }
        9 => {
            let e = below(16);
            ansi_methods!(one bg e;)
        }
        _ => {
            let e = below(16);
            ansi_methods!(one fg e;)
        }
    }
}
/// the borrowing methods
fn wrap_ref(v: &'static Node, mut c: Calls, left: usize) -> Box<dyn Shown> {
    macro_rules! one { ($m:ident $k:expr; $(($i:literal $($n:ident)*))*) => {
        match $k { $($i => one!(@ $m $($n)*),)* _ => unreachable!() }
    };
        (@ eff $n:ident $m:ident $im:ident) => { { c.add(true, stringify!($m), "\"\""); grow(Colorize::$m(v), c, left) } };
        (@ fg $n:ident $m:ident $im:ident $om:ident $iom:ident) => { { c.add(true, stringify!($m), "\"\""); grow(back(Colorize::$m(v)), c, left) } };
        (@ bg $n:ident $m:ident $im:ident $om:ident $iom:ident) => { { c.add(true, stringify!($om), "\"\""); grow(back(Colorize::$om(v)), c, left) } };
    }
    match below(8) {
        0 => {
            c.add(true, "style", "\"\"");
            let v: StyledValue<&Node> = Colorize::style(v);
            grow(v, c, left)
        }
        1 => {
            let (x, a) = dynamic();
            c.add(true, "fg", &a);
            grow(Colorize::fg(v, x), c, left)
        }
        2 => {
            let (x, a) = dynamic();
            c.add(true, "bg", &a);
            grow(Colorize::bg(v, x), c, left)
        }
        3 => {
            let (x, a) = dynamic();
            c.add(true, "underline_color", &a);
            grow(Colorize::underline_color(v, x), c, left)
        }
        4 => {
            let (s, a) = style();
            c.add(true, "style_with", &a);
            grow(Colorize::style_with(v, s), c, left)
        }
        5 => {
            let e = below(13);
            effect_names!(one eff e;)
        }
        6 => {
            let e = below(16);
            ansi_methods!(one bg e;)
        }
        _ => {
            let e = below(16);
            ansi_methods!(one fg e;)
        }
    }
}

/// the methods of styled values
fn grow<T: Val, F: Col + 'static, B: Col + 'static, U: Col + 'static>(v: StyledValue<T, F, B, U>, mut c: Calls, left: usize) -> Box<dyn Shown> {
    let Some(left) = left.checked_sub(1) else { return Box::new(Layered(v, c.json())) };
    macro_rules! one { ($m:ident $k:expr; $(($i:literal $($n:ident)*))*) => {
        match $k { $($i => one!(@ $m $($n)*),)* _ => unreachable!() }
    };
        (@ eff $n:ident $m:ident $im:ident) => { { c.add(false, stringify!($m), "\"\""); grow(v.$m(), c, left) } };
        (@ fg $n:ident $m:ident $im:ident $om:ident $iom:ident) => { { c.add(false, stringify!($m), "\"\""); grow(back(v.$m()), c, left) } };
        (@ bg $n:ident $m:ident $im:ident $om:ident $iom:ident) => { { c.add(false, stringify!($om), "\"\""); grow(back(v.$om()), c, left) } };
    }
    macro_rules! set { ($m:ident $x:expr) => { {
        let x = $x;
        c.add(false, stringify!($m), &lcol(x));
        grow(v.$m(x), c, left)
    } } }
    macro_rules! dynamic { ($m:ident) => { {
        let (x, a) = dynamic();
        c.add(false, stringify!($m), &a);
        grow(v.$m(x), c, left)
    } } }
    match below(26) {
        0 => set!(fg NoColor),
        1 => set!(fg css::Tan),
        2 => set!(fg ANSI[with_rng(|g| pick(g, 17))]),
        3..=4 => dynamic!(fg),
        5 => set!(bg NoColor),
        6 => set!(bg XTERM[with_rng(|g| pick(g, 256))]),
        7..=8 => dynamic!(bg),
        9 => set!(underline_color rgb::Rgb::<7, 88, 255>),
        10..=11 => dynamic!(underline_color),
        12..=15 => {
            let e = [below(13), 3][below(2)];
            effect_names!(one eff e;)
        }
        16 => {
            let e = below(16);
            ansi_methods!(one fg e;)
        }
        17 => {
            let e = below(16);
            ansi_methods!(one bg e;)
        }
        18..=19 => {
            let s = STREAMS[1 + below(4)];
            c.add(false, "stream", &quoted(stream_name(s)));
            grow(v.stream(s.unwrap()), c, left)
        }
        20 => {
            let s = STREAMS[below(5)];
            c.add(false, "stream_opt", &quoted(stream_name(s)));
            grow(v.stream_opt(s), c, left)
        }
        21 => {
            let e = below(13);
            c.add(false, "toggled", &quoted(EFFECT_NAMES[e]));
            grow(StyledValue::new(v.value, v.style.toggled(EFFECTS[e]), v.stream), c, left)
        }
        22 => {
            let (x, a) = any_effects();
            c.add(false, "effects", &a);
            grow(StyledValue::new(v.value, v.style.effects(x), v.stream), c, left)
        }
        23 => {
            c.add(false, "into_runtime_style", "\"\"");
            grow(back(v), c, left)
        }
        _ => T::again(back(v), c, left),
    }
}

// ------------------------------------------------------------------ documents

fn document(depth: usize) -> Node {
    let n = 1 + below(if depth == 0 { 2 } else { 4 });
    Node(
        (0..n)
            .map(|_| match below(24) {
                0..=11 => Item::Text(["a", "bc", "", "é", "x y", "日本", "[0m", ";", "1"][below(9)].into(), below(6)),
                12..=13 => Item::Change,
                14 => Item::Paste,
                15 => [Item::Ask, Item::Span].into_iter().nth(below(2)).unwrap(),
                16 if below(3) == 0 => [Item::Err, Item::Panic].into_iter().nth(below(2)).unwrap(),
                17 if depth > 0 => Item::Try(styled(depth - 1), below(10)),
                18 if depth > 0 => Item::Print(styled(depth - 1)),
                _ if depth > 0 => Item::Child(styled(depth - 1), below(10)),
                _ => Item::Text("t".into(), 0),
            })
            .collect(),
    )
}
fn styled(depth: usize) -> Box<dyn Shown> {
    let d = document(depth);
    let left = below(7);
    if below(3) == 0 {
        wrap_ref(Box::leak(Box::new(d)), Calls(vec![]), left)
    } else {
        wrap(d, Calls(vec![]), left)
    }
}
fn options() -> FormattingOptions {
    let mut o = FormattingOptions::new();
    if below(2) == 0 {
        return o;
    }
    let num = || [None, Some(below(12) as u16)][below(2)];
    o.fill(['0', '*', 'é', ' '][below(4)])
        .align([None, Some(fmt::Alignment::Left), Some(fmt::Alignment::Right), Some(fmt::Alignment::Center)][below(4)])
        .sign([None, Some(fmt::Sign::Plus)][below(2)])
        .alternate(below(3) == 0)
        .sign_aware_zero_pad(below(3) == 0)
        .width(num())
        .precision(num());
    o
}

fn print(sink: usize, d: &dyn Shown) {
    ev(format!("{{\"o\":\"print\",\"f\":\"{}\"}}", SINKS[sink]));
    PRINTING.with(|p| p.borrow_mut().push(sink));
    let mut out = String::new();
    let _ = try_show(d, below(10), &mut Formatter::new(&mut out, options()));
    PRINTING.with(|p| p.borrow_mut().pop());
    ev(format!("{{\"o\":\"printed\",\"b\":{}}}", json_bytes(out.as_bytes())));
    if sink == 2 {
        STRINGS.with(|s| s.borrow_mut().push(out))
    }
}
/// an escape on its own, to a terminal that is not being printed to
fn span(fd: usize) {
    let send = |fd: usize, k: &str, a: &str, b: String| ev(format!("{{\"o\":\"span\",\"f\":\"{}\",\"k\":\"{k}\",\"cs\":{a},\"b\":{}}}", SINKS[fd], json_bytes(b.as_bytes())));
    let busy = |fd| PRINTING.with(|p| p.borrow().contains(&fd));
    if busy(fd) {
        return;
    }
    match below(3) {
        0 => {
            let (st, a) = style();
            send(fd, "open", &a, st.apply().to_string());
            SPANS.with(|s| s.borrow_mut().push((fd, st, a)));
        }
        1 => match SPANS.with(|s| s.borrow_mut().pop()) {
            Some(x) if busy(x.0) => SPANS.with(|s| s.borrow_mut().push(x)),
            Some((fd, st, a)) => send(fd, "close", &a, st.clear().to_string()),
            None => (),
        },
        _ => send(fd, "reset", "[]", Style::clear_all().to_string()),
    }
}
fn ask(s: Option<Stream>) {
    let (st, a) = style();
    let r = if st.should_color(s) { "yes" } else { "no" };
    ev(format!("{{\"o\":\"ask\",\"st\":\"{}\",\"cs\":{a},\"r\":\"{r}\"}}", stream_name(s)));
}
/// colors of the palette and numbers as text, each in each layer, around an
/// effect, in a layer of its own
fn catalogue(from: usize, n: usize) {
    for k in from..from + n {
        let (c, a) = match k {
            0..17 => (color(Lc::Ansi(k as u8)), lcj(Lc::Ansi(k as u8))),
            17..273 => (color(Lc::Xterm((k - 17) as u8)), lcj(Lc::Xterm((k - 17) as u8))),
            273..420 => (color(Lc::Css((k - 273) as u8)), lcj(Lc::Css((k - 273) as u8))),
            _ => {
                let s = (k - 420).to_string();
                (s.parse::<Color>().ok(), format!("[\"text\",{}]", json_bytes(s.as_bytes())))
            }
        };
        for l in 0..3 {
            let e = below(13);
            let mut calls = Calls(vec![]);
            let inner = Node(vec![Item::Text("a".into(), 0)]);
            calls.add(true, "into_style", "\"\"");
            let s = Style::new().into_runtime_style();
            let s = match l {
                0 => {
                    calls.add(false, "fg", &a);
                    s.fg(c)
                }
                1 => {
                    calls.add(false, "bg", &a);
                    s.bg(c)
                }
                _ => {
                    calls.add(false, "underline_color", &a);
                    calls.add(false, "underline", "\"\"");
                    s.underline_color(c).underline()
                }
            };
            let child = Layered(StyledValue::new(inner, s, None), calls.json());
            let mut calls = Calls(vec![]);
            calls.add(true, "into_style", "\"\"");
            calls.add(false, "with", &quoted(EFFECT_NAMES[e]));
            let doc = Node(vec![Item::Text("b".into(), 0), Item::Child(Box::new(child), below(10)), Item::Text("c".into(), 0)]);
            print(l & 1, &Layered(StyledValue::new(doc, Style::new().with(EFFECTS[e]), None), calls.json()));
        }
    }
}

fn program(seed: u64, steps: usize, levels: &[i32], page: Option<usize>) -> Vec<u8> {
    RNG.set(seed);
    clean_env();
    let redirect = || {
        let s = [levels[below(levels.len())], levels[below(levels.len())]];
        SUPPORT[0].store(s[0], Ordering::SeqCst);
        SUPPORT[1].store(s[1], Ordering::SeqCst);
        ev(format!("{{\"o\":\"SUP\",\"a\":{s:?}}}"));
    };
    redirect();
    // a program that has asked about both streams can be redirected, and can
    // be started with any variables, without a difference
    let asked = below(2) == 0;
    if asked {
        STREAMS[1..3].iter().copied().for_each(ask)
    }
    if let Some(from) = page {
        catalogue(from, steps);
        report();
        return events();
    }
    for _ in 0..steps {
        let fd = below(2);
        match below(16) {
            0..=3 => change(),
            4 => report(),
            5..=7 => span(fd),
            8 if asked => redirect(),
            #[cfg(feature = "std")]
            9 if asked => {
                for v in &ENV[..4] {
                    let x = ["-", "-", "0", "1", "yes"][below(5)];
                    if x == "-" {
                        std::env::remove_var(v)
                    } else {
                        std::env::set_var(v, x)
                    }
                    ev(format!("{{\"o\":\"SV\",\"a\":[\"{v}\",\"{x}\"]}}"));
                }
                mode::set_coloring_mode_from_env();
                ev("{\"o\":\"ES\"}".into());
            }
            _ => {
                let d: Box<dyn Shown> = if below(4) == 0 { Box::new(document(2)) } else { styled(2) };
                print(free_sink(), &*d)
            }
        }
    }
    report();
    events()
}
fn events() -> Vec<u8> {
    let mut s = EVENTS.with(|e| e.borrow().join(","));
    s.insert(0, '[');
    s.push_str("]\n");
    s.into_bytes()
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, num, steps) = (n(1), n(2) as usize, n(3) as usize);
    let levels: Vec<i32> = a[4].split(',').map(|x| x.parse().unwrap()).collect();
    let lines = format!("{}.lines", a[5]);
    let file = std::fs::File::create(&lines).unwrap();
    let fd = std::os::fd::AsRawFd::as_raw_fd(&file);
    // (what is left is the catalogue: 680 colors, 14 a program)
    for k in 0..num + 49 {
        let st = in_child(fd, 60, || {
            let seed = seed.wrapping_mul(1_000_003).wrapping_add(k as u64);
            match k.checked_sub(num) {
                None => program(seed, 1 + steps * (k % 4 + 1) / 4, &levels, None),
                Some(p) => program(seed, 14, &levels[levels.len() - 1..], Some(p * 14)),
            }
        });
        if st != 0 {
            println!("BAD died \"program {k} of seed {seed} ends with status {st}\"");
            break;
        }
    }
    let text = std::fs::read_to_string(&lines).unwrap();
    std::fs::remove_file(&lines).unwrap();
    let all: Vec<&str> = text.lines().collect();
    std::fs::write(&a[5], format!("[{}]", all.join(",\n"))).unwrap();
    println!("STAT programs {}\nDONE", all.len());
}
