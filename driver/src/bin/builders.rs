//! Building styles, styled values and effect collections: replays sequences of
//! operations generated from Build.tla and records operations of the real
//! library for TraceBuild.tla.
use colorz::mode::Stream;
use colorz::{ansi, css, rgb, xterm, Color, Colorize, ComptimeColor, Effect, EffectFlags, NoColor, Style, StyledValue};
use colorz_driver::eng::{Lc, Report};
use colorz_driver::lay::*;
use colorz_driver::pal::*;
use colorz_driver::*;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};

seam!();

// ------------------------------------------------------------------ replay

#[derive(Clone)]
enum Arg {
    No,
    Color(Option<Color>),
    Effs(Vec<Effect>),
    Stream(Option<Stream>),
}
fn parse_arg(m: &str, a: &str) -> Arg {
    match m {
        "fg" | "bg" | "underline_color" | "into_bg" => Arg::Color(color(match a.as_bytes()[0] {
            b'a' => Lc::Ansi(a[1..].parse().unwrap()),
            b'x' => Lc::Xterm(a[1..].parse().unwrap()),
            _ => Lc::None,
        })),
        "with" | "without" | "toggled" | "effects" | "effects_array" | "effect_flags" => {
            Arg::Effs(a.split('.').filter(|x| !x.is_empty()).map(|x| EFFECTS[x.parse::<usize>().unwrap()]).collect())
        }
        "stream" | "stream_opt" => Arg::Stream(stream_of(a)),
        _ => Arg::No,
    }
}

fn style_op(s: Style, m: &str, a: &Arg) -> Style {
    macro_rules! named { ($(($i:literal $n:ident $m:ident $im:ident))*) => {
        match m { $(stringify!($m) => return s.$m(),)* _ => () }
    } }
    effect_names!(named);
    match (m, a) {
        ("fg", Arg::Color(c)) => s.fg(*c),
        ("bg", Arg::Color(c)) => s.bg(*c),
        ("underline_color", Arg::Color(c)) => s.underline_color(*c),
        ("with", Arg::Effs(e)) => s.with(e[0]),
        ("without", Arg::Effs(e)) => s.without(e[0]),
        ("toggled", Arg::Effs(e)) => s.toggled(e[0]),
        ("effects", Arg::Effs(e)) => s.effects(e.iter()),
        ("effects_array", Arg::Effs(e)) => match e.len() {
            0 => s.effects_array([]),
            1 => s.effects_array([e[0]]),
            2 => s.effects_array([e[0], e[1]]),
            _ => s.effects_array([e[0], e[1], e[2]]),
        },
        ("effect_flags", Arg::Effs(e)) => s.effect_flags(e.iter().collect()),
        ("clear_effects", _) => s.clear_effects(),
        ("into_runtime_style", _) => s.into_runtime_style(),
        _ => panic!("method {m}"),
    }
}

/// a value that knows the layers it was already wrapped in
#[derive(PartialEq, Debug)]
struct Node {
    inner: Vec<Layer>,
    tag: u64,
}
type Erased = StyledValue<Node, Option<Color>, Option<Color>, Option<Color>>;
fn back<F: Col, B: Col, U: Col>(v: StyledValue<Node, F, B, U>) -> Erased {
    StyledValue::new(v.value, v.style.into_runtime_style(), v.stream)
}
fn wrapped<F: Col, B: Col, U: Col>(v: StyledValue<Erased, F, B, U>) -> Erased {
    let mut inner = v.value.value.inner;
    inner.push(layer(&v.value.style, v.value.stream));
    StyledValue::new(Node { inner, tag: v.value.value.tag }, v.style.into_runtime_style(), v.stream)
}
fn ref_wrapped<F: Col, B: Col, U: Col>(v: &StyledValue<&Erased, F, B, U>) -> Erased {
    let mut inner = v.value.value.inner.clone();
    inner.push(layer(&v.value.style, v.value.stream));
    StyledValue::new(Node { inner, tag: v.value.value.tag }, v.style.into_runtime_style(), v.stream)
}
fn value_op(v: Erased, w: bool, m: &str, a: &Arg) -> Erased {
    if w {
        macro_rules! effs { ($(($i:literal $n:ident $m:ident $im:ident))*) => {
            match m { $(stringify!($m) => return ref_wrapped(&Colorize::$m(&v)), stringify!($im) => return wrapped(Colorize::$im(v)),)* _ => () }
        } }
        effect_names!(effs);
        macro_rules! colors { ($(($i:literal $n:ident $m:ident $im:ident $om:ident $iom:ident))*) => {
            match m { $(
                stringify!($m) => return ref_wrapped(&Colorize::$m(&v)), stringify!($im) => return wrapped(Colorize::$im(v)),
                stringify!($om) => return ref_wrapped(&Colorize::$om(&v)), stringify!($iom) => return wrapped(Colorize::$iom(v)),
            )* _ => () }
        } }
        ansi_methods!(colors);
        return match (m, a) {
            ("style", _) => ref_wrapped(&{ let n: StyledValue<&Erased> = v.style(); n }),
            ("into_style", _) => wrapped(v.into_style()),
            ("into_bg", Arg::Color(c)) => wrapped(v.into_bg(*c)),
            ("underline_color", Arg::Color(c)) => ref_wrapped(&Colorize::underline_color(&v, *c)),
            _ => panic!("wrapping method {m}"),
        };
    }
    macro_rules! effs { ($(($i:literal $n:ident $m:ident $im:ident))*) => {
        match m { $(stringify!($m) => return back(v.$m()),)* _ => () }
    } }
    effect_names!(effs);
    macro_rules! colors { ($(($i:literal $n:ident $m:ident $im:ident $om:ident $iom:ident))*) => {
        match m { $(stringify!($m) => return back(v.$m()), stringify!($om) => return back(v.$om()),)* _ => () }
    } }
    ansi_methods!(colors);
    match (m, a) {
        ("fg", Arg::Color(c)) => back(v.fg(*c)),
        ("bg", Arg::Color(c)) => back(v.bg(*c)),
        ("underline_color", Arg::Color(c)) => back(v.underline_color(*c)),
        ("stream", Arg::Stream(s)) => back(v.stream(s.unwrap())),
        ("stream_opt", Arg::Stream(s)) => back(v.stream_opt(*s)),
        _ => panic!("method {m}"),
    }
}

fn replay(path: &str, values: bool) {
    let mut rep = Report::default();
    let text = std::fs::read_to_string(path).unwrap();
    let mut n = 0;
    for line in text.lines() {
        let (ops, want) = line.split_once('|').unwrap();
        let ops: Vec<(bool, &str, Arg)> = ops
            .split(' ')
            .map(|o| {
                let p: Vec<&str> = o.split(',').collect();
                (p[0] == "W", p[1], parse_arg(p[1], p[2]))
            })
            .collect();
        let got = std::panic::catch_unwind(|| {
            if values {
                let mut v: Erased = StyledValue::new(Node { inner: vec![], tag: n }, Style::new().into_runtime_style(), None);
                for (w, m, a) in &ops {
                    v = value_op(v, *w, m, a);
                }
                let mut ls = v.value.inner.clone();
                ls.push(layer(&v.style, v.stream));
                let t: Vec<String> = ls.iter().map(|l| l.short()).collect();
                format!("{}{}", t.join(" "), if v.value.tag == n { "" } else { " another value" })
            } else {
                let mut s = Style::new().into_runtime_style();
                for (_, m, a) in &ops {
                    s = style_op(s, m, a);
                }
                layer(&s, None).short()
            }
        })
        .unwrap_or_else(|_| "panicked".into());
        n += 1;
        if got != want {
            rep.bad("replay", || format!("\"{line}: the library has {got}\""));
        }
    }
    for l in &rep.lines {
        println!("{l}");
    }
    println!("STAT replayed {n}\nDONE");
}

// ------------------------------------------------------------------ records

struct Out {
    recs: Vec<String>,
}
impl Out {
    /// adds a record, with the number of allocations of the operation
    fn add(&mut self, mut s: String) {
        assert_eq!(s.pop(), Some('}'));
        write!(s, ",\"al\":{}}}", spent()).unwrap();
        self.recs.push(s)
    }
    fn finish(self, path: &str) {
        std::fs::write(path, format!("[{}]", self.recs.join(",\n"))).unwrap();
        println!("STAT records {}\nDONE", self.recs.len());
    }
}
fn names(e: &[Effect]) -> String {
    let v: Vec<String> = e.iter().map(|x| format!("\"{}\"", EFFECT_NAMES.get(effect_index(*x)).unwrap_or(&"?"))).collect();
    format!("[{}]", v.join(","))
}
fn name(e: Effect) -> String {
    format!("\"{}\"", EFFECT_NAMES.get(effect_index(e)).unwrap_or(&"?"))
}

fn random_seq(rng: &mut Rng, max: usize) -> Vec<Effect> {
    let n = rng.below(max + 1);
    let k = 1 + rng.below(13);
    (0..n).map(|_| EFFECTS[rng.below(k)]).collect()
}

/// an iterator that says what it likes (truthfully) about its length, and
/// would go on after its end
struct Source<'a> {
    left: std::slice::Iter<'a, Effect>,
    hint: usize,
    over: bool,
}
fn source(v: &[Effect], hint: usize) -> Source<'_> {
    Source { left: v.iter(), hint, over: false }
}
impl Iterator for Source<'_> {
    type Item = Effect;
    fn next(&mut self) -> Option<Effect> {
        if self.over {
            // nobody should ask
            return Some(Effect::SubScript);
        }
        let x = self.left.next().copied();
        self.over = x.is_none();
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.left.len();
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n, None),
            3 => (0, Some(n + 1000)),
            4 => (n / 2, Some(usize::MAX)),
            _ => (0, Some(n)),
        }
    }
}
/// a long list, its last new member at the very end
fn long(rng: &mut Rng) -> Vec<Effect> {
    let n = [14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 600][rng.below(21)];
    let k = rng.below(12);
    let last = k + 1 + rng.below(12 - k);
    (0..n).map(|i| if i + 1 == n { EFFECTS[last] } else { EFFECTS[rng.below(k + 1)] }).collect()
}
fn repeated(n: usize, last: Effect) -> impl Iterator<Item = Effect> {
    (0..n).map(move |i| if i + 1 == n { last } else { EFFECTS[i % 3] })
}

/// all operations on one style
fn style_ops<F: Col, B: Col, U: Col>(out: &mut Out, rng: &mut Rng, pre: Style<F, B, U>) {
    let p = layer(&pre, None).json();
    let mut rec = |m: &str, a: String, post: Layer, via: &str| {
        out.add(format!("{{\"k\":\"style\",\"pre\":{p},\"m\":\"{m}\",\"a\":{a},\"post\":{},\"via\":\"{via}\"}}", post.json()))
    };
    macro_rules! colors { ($($c:expr),*) => { $({
        let c = $c;
        let a = lcj(lc(c));
        rec("fg", a.clone(), layer(&al(|| pre.fg(c)), None), stringify!($c));
        rec("bg", a.clone(), layer(&al(|| pre.bg(c)), None), stringify!($c));
        rec("underline_color", a, layer(&al(|| pre.underline_color(c)), None), stringify!($c));
    })* } }
    let i = rng.below(17);
    let x = rng.below(256);
    let r = rgb::RgbColor { red: x as u8, green: i as u8, blue: 7 };
    colors!(NoColor, ansi::BrightCyan, ANSI[i], Some(Color::Ansi(ANSI[i])), XTERM[x], xterm::Gray0, CSS[x % 147], css::Tan, r,
        rgb::Rgb::<1, 2, 3>, Color::Xterm(XTERM[x]), Some(Color::Rgb(r)), None::<Color>);
    macro_rules! effs { ($(($i:literal $n:ident $m:ident $im:ident))*) => { $(
        rec(stringify!($m), "\"\"".into(), layer(&al(|| pre.$m()), None), "method");
    )* } }
    effect_names!(effs);
    for e in EFFECTS {
        rec("with", name(e), layer(&al(|| pre.with(e)), None), "with");
        rec("without", name(e), layer(&al(|| pre.without(e)), None), "without");
        rec("toggled", name(e), layer(&al(|| pre.toggled(e)), None), "toggled");
    }
    // the fields of a style can be written as well
    for e in EFFECTS {
        let mut s = pre;
        al(|| s.effects.set(e));
        rec("with", name(e), layer(&s, None), "set in place");
        let mut s = pre;
        al(|| s.effects.unset(e));
        rec("without", name(e), layer(&s, None), "unset in place");
        let mut s = pre;
        al(|| s.effects.toggle(e));
        rec("toggled", name(e), layer(&s, None), "toggled in place");
    }
    for _ in 0..2 {
        let v = random_seq(rng, 20);
        let (v1, mut v2) = (v.clone(), v.clone());
        rec("effects", names(&v), layer(&al(|| pre.effects(v1)), None), "Vec");
        rec("effects", names(&v), layer(&al(|| pre.effects(&v)), None), "&Vec");
        rec("effects", names(&v), layer(&al(|| pre.effects(&mut v2)), None), "&mut Vec");
        rec("effects", names(&v), layer(&al(|| pre.effects(v.iter().rev().filter(|_| true))), None), "an iterator");
        rec("effects", names(&v), layer(&al(|| pre.effects(v.iter().copied().collect::<EffectFlags>())), None), "EffectFlags");
        rec("effects", names(&v), layer(&al(|| pre.effects(v.iter().collect::<EffectFlags>().iter())), None), "EffectFlagsIter");
        rec("effect_flags", names(&v), layer(&al(|| pre.effect_flags(v.iter().collect())), None), "EffectFlags");
    }
    for h in 0..6 {
        let v = if rng.below(2) == 0 { long(rng) } else { random_seq(rng, 20) };
        rec("effects", names(&v), layer(&al(|| pre.effects(source(&v, h))), None), "any iterator");
    }
    let last = EFFECTS[3 + rng.below(10)];
    let n = [1000, 1024, 4096, 65535, 65536, 65537][rng.below(6)];
    rec("effects", names(&[EFFECTS[0], EFFECTS[1], EFFECTS[2], last]), layer(&al(|| pre.effects(repeated(n, last))), None), "a very long iterator");
    let v = random_seq(rng, 20);
    rec("effects", "[]".into(), layer(&al(|| pre.effects([] as [Effect; 0])), None), "[]");
    rec("effects", names(&v[..v.len().min(1)]), layer(&al(|| pre.effects(v.first().copied())), None), "Option");
    rec("effects_array", "[]".into(), layer(&al(|| pre.effects_array([])), None), "[; 0]");
    let e: [Effect; 13] = std::array::from_fn(|_| EFFECTS[rng.below(13)]);
    rec("effects_array", names(&e[..1]), layer(&al(|| pre.effects_array([e[0]])), None), "[; 1]");
    rec("effects_array", names(&[e[0], e[0]]), layer(&al(|| pre.effects_array([e[0], e[0]])), None), "[; 2]");
    rec("effects_array", names(&e[..3]), layer(&al(|| pre.effects_array([e[0], e[1], e[2]])), None), "[; 3]");
    rec("effects_array", names(&e), layer(&al(|| pre.effects_array(e)), None), "[; 13]");
    rec("effects_array", names(&EFFECTS), layer(&al(|| pre.effects_array(EFFECTS)), None), "all");
    let e: [Effect; 300] = std::array::from_fn(|i| if i == 299 { last } else { EFFECTS[i % 3] });
    rec("effects_array", names(&[EFFECTS[0], EFFECTS[1], EFFECTS[2], last]), layer(&al(|| pre.effects_array(e)), None), "[; 300]");
    rec("clear_effects", "\"\"".into(), layer(&al(|| pre.clear_effects()), None), "");
    rec("into_runtime_style", "\"\"".into(), layer(&al(|| pre.into_runtime_style()), None), "");
}

fn comptime_ops<F: Col + ComptimeColor, B: Col + ComptimeColor, U: Col + ComptimeColor>(out: &mut Out, pre: Style<F, B, U>) {
    out.add(format!(
        "{{\"k\":\"style\",\"pre\":{},\"m\":\"const_into_runtime_style\",\"a\":\"\",\"post\":{},\"via\":\"\"}}",
        layer(&pre, None).json(),
        layer(&al(|| pre.const_into_runtime_style()), None).json()
    ));
}

/// random chains, every step recorded
fn chains(out: &mut Out, rng: &mut Rng, n: usize, len: usize) {
    for _ in 0..n {
        let mut s = Style::new().into_runtime_style();
        for _ in 0..len {
            let p = layer(&s, None).json();
            let (m, a, js): (&str, Arg, String) = match rng.below(12) {
                k @ 0..=2 => {
                    let c = match rng.below(6) {
                        0 => Lc::None,
                        1 => Lc::Ansi(rng.below(17) as u8),
                        2 => Lc::Xterm(rng.below(256) as u8),
                        3 => Lc::Css(rng.below(147) as u8),
                        _ => Lc::Rgb(rng.below(256) as u8, rng.below(256) as u8, rng.below(256) as u8),
                    };
                    (["fg", "bg", "underline_color"][k], Arg::Color(color(c)), lcj(c))
                }
                k @ 3..=7 => {
                    let e = EFFECTS[rng.below(13)];
                    (["with", "without", "toggled", "with", "toggled"][k - 3], Arg::Effs(vec![e]), name(e))
                }
                8 => {
                    let v = random_seq(rng, 16);
                    ("effects", Arg::Effs(v.clone()), names(&v))
                }
                9 => {
                    let mut v = random_seq(rng, 3);
                    v.truncate(3);
                    ("effects_array", Arg::Effs(v.clone()), names(&v))
                }
                10 => {
                    let v = random_seq(rng, 16);
                    ("effect_flags", Arg::Effs(v.clone()), names(&v))
                }
                _ => {
                    const M: [&str; 14] = [
                        "bold", "dimmed", "italics", "underline", "double_underline", "blink", "blink_fast", "reverse", "hide",
                        "strikethrough", "overline", "superscript", "subscript", "clear_effects",
                    ];
                    (M[rng.below(14)], Arg::No, "\"\"".into())
                }
            };
            s = al(|| style_op(s, m, &a));
            out.add(format!(
                "{{\"k\":\"style\",\"pre\":{p},\"m\":\"{m}\",\"a\":{js},\"post\":{},\"via\":\"chain\"}}",
                layer(&s, None).json()
            ));
        }
    }
}

fn styles(seed: u64, k: usize, path: &str) {
    let mut rng = Rng(seed);
    let mut out = Out { recs: vec![] };
    macro_rules! start { ($($f:expr),*) => { $( start!(@b $f); )* };
        (@b $f:expr) => { start!(@u $f, NoColor); start!(@u $f, ansi::Green); start!(@u $f, CSS[3]); start!(@u $f, Some(Color::Ansi(ANSI[9]))); };
        (@u $f:expr, $b:expr) => { start!(@s $f, $b, NoColor); start!(@s $f, $b, xterm::Navy); start!(@s $f, $b, rgb::RgbColor { red: 250, green: 9, blue: 0 });
            start!(@s $f, $b, None::<Color>); };
        (@s $f:expr, $b:expr, $u:expr) => {
            for j in 0..k {
                let m = match j { 0 => 0, 1 => 8191, _ => rng.below(8192) as u16 };
                style_ops(&mut out, &mut rng, Style::new().fg($f).bg($b).underline_color($u).effect_flags(flags(m)));
            }
        };
    }
    start!(NoColor, css::Linen, XTERM[100], Some(Color::Css(CSS[77])));
    macro_rules! comptime { ($($f:expr),*) => { $( comptime!(@b $f); )* };
        (@b $f:expr) => { comptime!(@u $f, NoColor); comptime!(@u $f, ansi::White); comptime!(@u $f, xterm::Plum1); comptime!(@u $f, rgb::Rgb::<0, 10, 200>); };
        (@u $f:expr, $b:expr) => { comptime!(@s $f, $b, NoColor); comptime!(@s $f, $b, ansi::BrightBlue); comptime!(@s $f, $b, css::Gold); };
        (@s $f:expr, $b:expr, $u:expr) => { for _ in 0..3 {
            comptime_ops(&mut out, Style::new().fg($f).bg($b).underline_color($u).effect_flags(flags(rng.below(8192) as u16)))
        } };
    }
    comptime!(NoColor, ansi::Default, xterm::Gray93, css::Snow, rgb::Rgb::<255, 0, 1>);
    chains(&mut out, &mut rng, 10 * k, 60);
    let s: Style<NoColor, NoColor, NoColor> = Default::default();
    for (p, via) in [(layer(&s, None), "default"), (layer(&Style::new(), None), "new")] {
        out.add(format!("{{\"k\":\"style\",\"pre\":{{\"fg\":[\"none\"],\"bg\":[\"none\"],\"ul\":[\"none\"],\"eff\":0,\"stream\":\"None\"}},\
            \"m\":\"into_style\",\"a\":\"\",\"post\":{},\"via\":\"{via}\"}}", p.json()));
    }
    out.finish(path)
}

// ------------------------------------------------------------------ values


fn layers_json(v: &[Layer]) -> String {
    let t: Vec<String> = v.iter().map(|l| l.json()).collect();
    format!("[{}]", t.join(","))
}
fn vrec(out: &mut Out, pre: &[Layer], w: bool, m: &str, a: &str, post: &[Layer], same: bool, via: &str) {
    out.add(format!(
        "{{\"k\":\"value\",\"pre\":{},\"w\":{w},\"m\":\"{m}\",\"a\":{a},\"post\":{},\"same\":{same},\"via\":\"{via}\"}}",
        layers_json(pre),
        layers_json(post)
    ))
}

/// the borrowing methods of a plain value (or of a styled value seen as one)
fn borrowing<T: Inner + ?Sized>(out: &mut Out, rng: &mut Rng, v: &T, via: &str) {
    let pre = v.inner();
    macro_rules! call { ($m:expr, $a:expr, $e:expr) => { {
        let r = al(|| $e);
        let at: &T = r.value;
        vrec(out, &pre, true, $m, &$a, &r.inner(), std::ptr::addr_eq(at, v) && r.id() == v.id(), via);
    } } }
    macro_rules! effs { ($(($i:literal $n:ident $m:ident $im:ident))*) => { $( call!(stringify!($m), "\"\"", Colorize::$m(v)); )* } }
    effect_names!(effs);
    macro_rules! ansis { ($(($i:literal $n:ident $m:ident $im:ident $om:ident $iom:ident))*) => { $(
        call!(stringify!($m), "\"\"", Colorize::$m(v));
        call!(stringify!($om), "\"\"", Colorize::$om(v));
    )* } }
    ansi_methods!(ansis);
    call!("style", "\"\"", Colorize::style(v));
    let c = XTERM[rng.below(256)];
    call!("fg", lcj(lc(c)), Colorize::fg(v, c));
    call!("bg", lcj(lc(c)), Colorize::bg(v, c));
    call!("underline_color", lcj(lc(c)), Colorize::underline_color(v, c));
    call!("fg", lcj(lc(css::Tan)), Colorize::fg(v, css::Tan));
    call!("bg", lcj(lc(None::<Color>)), Colorize::bg(v, None::<Color>));
    for _ in 0..4 {
        let s = Style::new().fg(ANSI[rng.below(17)]).bg(NoColor).underline_color(Some(Color::Css(CSS[rng.below(147)]))).effect_flags(flags(rng.below(8192) as u16));
        call!("style_with", layer(&s, None).json(), Colorize::style_with(v, s));
        let s = s.into_runtime_style();
        call!("style_with", layer(&s, None).json(), Colorize::style_with(v, s));
    }
}

/// the consuming methods; `make` makes the same value again
fn consuming<T: Inner>(out: &mut Out, rng: &mut Rng, make: impl Fn() -> T, via: &str) {
    let pre = make().inner();
    let id = make().id();
    macro_rules! call { ($m:expr, $a:expr, $e:expr) => { {
        let r = al(|| $e);
        vrec(out, &pre, true, $m, &$a, &r.inner(), r.id() == id, via);
    } } }
    macro_rules! effs { ($(($i:literal $n:ident $m:ident $im:ident))*) => { $( call!(stringify!($im), "\"\"", Colorize::$im(make())); )* } }
    effect_names!(effs);
    macro_rules! ansis { ($(($i:literal $n:ident $m:ident $im:ident $om:ident $iom:ident))*) => { $(
        call!(stringify!($im), "\"\"", Colorize::$im(make()));
        call!(stringify!($iom), "\"\"", Colorize::$iom(make()));
    )* } }
    ansi_methods!(ansis);
    call!("into_style", "\"\"", Colorize::into_style(make()));
    let c = CSS[rng.below(147)];
    call!("into_fg", lcj(lc(c)), Colorize::into_fg(make(), c));
    call!("into_bg", lcj(lc(c)), Colorize::into_bg(make(), c));
    call!("into_underline_color", lcj(lc(c)), Colorize::into_underline_color(make(), c));
    call!("into_fg", lcj(lc(NoColor)), Colorize::into_fg(make(), NoColor));
    call!("into_bg", lcj(lc(ansi::Default)), Colorize::into_bg(make(), ansi::Default));
    for _ in 0..4 {
        let s = Style::new().fg(NoColor).bg(XTERM[rng.below(256)]).underline_color(ansi::Red).effect_flags(flags(rng.below(8192) as u16));
        call!("into_style_with", layer(&s, None).json(), Colorize::into_style_with(make(), s));
        let s = s.into_runtime_style();
        call!("into_style_with", layer(&s, None).json(), Colorize::into_style_with(make(), s));
    }
}

/// the methods of styled values
fn inherent<T: Inner, F: Col, B: Col, U: Col>(out: &mut Out, rng: &mut Rng, make: impl Fn() -> StyledValue<T, F, B, U>, via: &str) {
    let pre = make().inner();
    let id = make().id();
    macro_rules! call { ($w:expr, $m:expr, $a:expr, $e:expr) => { {
        let r = al(|| $e);
        vrec(out, &pre, $w, $m, &$a, &r.inner(), r.id() == id, via);
    } } }
    macro_rules! effs { ($(($i:literal $n:ident $m:ident $im:ident))*) => { $( call!(false, stringify!($m), "\"\"", make().$m()); )* } }
    effect_names!(effs);
    macro_rules! ansis { ($(($i:literal $n:ident $m:ident $im:ident $om:ident $iom:ident))*) => { $(
        call!(false, stringify!($m), "\"\"", make().$m());
        call!(false, stringify!($om), "\"\"", make().$om());
    )* } }
    ansi_methods!(ansis);
    let c = XTERM[rng.below(256)];
    call!(false, "fg", lcj(lc(c)), make().fg(c));
    call!(false, "bg", lcj(lc(c)), make().bg(c));
    call!(false, "underline_color", lcj(lc(c)), make().underline_color(c));
    call!(false, "fg", lcj(lc(NoColor)), make().fg(NoColor));
    call!(false, "bg", lcj(lc(css::Gold)), make().bg(css::Gold));
    call!(false, "underline_color", lcj(lc(Some(Color::Ansi(ANSI[3])))), make().underline_color(Some(Color::Ansi(ANSI[3]))));
    for s in STREAMS {
        if let Some(s) = s {
            call!(false, "stream", format!("\"{}\"", stream_name(Some(s))), make().stream(s));
        }
        call!(false, "stream_opt", format!("\"{}\"", stream_name(s)), make().stream_opt(s));
    }
    let v = make();
    call!(true, "style", "\"\"", v.style());
    call!(true, "into_style", "\"\"", make().into_style());
    // the `into_` methods of plain values make a new layer
    call!(true, "into_red", "\"\"", make().into_red());
    call!(true, "into_on_bright_blue", "\"\"", make().into_on_bright_blue());
    call!(true, "into_overline", "\"\"", make().into_overline());
    call!(true, "into_fg", lcj(lc(ansi::Blue)), make().into_fg(ansi::Blue));
    call!(true, "style_with", layer(&Style::new().bold(), None).json(), v.style_with(Style::new().bold()));
    // creating one again from its parts changes nothing
    let w = make();
    call!(false, "stream_opt", format!("\"{}\"", stream_name(w.stream)), StyledValue::new(w.value, w.style, w.stream));
}

fn values(seed: u64, k: usize, path: &str) {
    let mut rng = Rng(seed);
    let mut out = Out { recs: vec![] };
    let text = String::from("some text");
    borrowing(&mut out, &mut rng, &text[3..6], "str");
    borrowing(&mut out, &mut rng, &[1u8, 2, 3][..1], "[u8]");
    borrowing(&mut out, &mut rng, &Tok(9), "Tok");
    borrowing::<dyn std::fmt::Display>(&mut out, &mut rng, &55u64, "dyn Display");
    consuming(&mut out, &mut rng, || Tok(77), "Tok");
    consuming(&mut out, &mut rng, || &text[1..2], "&str");
    macro_rules! start { ($($f:expr),*) => { $( start!(@b $f); )* };
        (@b $f:expr) => { start!(@u $f, NoColor); start!(@u $f, ansi::Green); start!(@u $f, Some(Color::Css(CSS[3]))); };
        (@u $f:expr, $b:expr) => { start!(@s $f, $b, NoColor); start!(@s $f, $b, xterm::Navy); start!(@s $f, $b, Some(Color::Xterm(XTERM[9]))); };
        (@s $f:expr, $b:expr, $u:expr) => {
            for j in 0..k {
                let m = match j { 0 => 0, 1 => 8191, _ => rng.below(8192) as u16 };
                let st = STREAMS[if j == 0 { 0 } else { rng.below(5) }];
                let make = || StyledValue::new(Tok(1000), Style::new().fg($f).bg($b).underline_color($u).effect_flags(flags(m)), st);
                inherent(&mut out, &mut rng, make, "StyledValue");
                if j % 2 == 1 {
                    let two = || StyledValue::new(make(), Style::new().fg($u).bg($f).underline_color($b).effect_flags(flags(m ^ 77)), STREAMS[j % 5]);
                    inherent(&mut out, &mut rng, two, "two layers");
                    borrowing(&mut out, &mut rng, &make(), "StyledValue as a value");
                    consuming(&mut out, &mut rng, make, "StyledValue as a value");
                }
            }
        };
    }
    start!(NoColor, css::Linen, XTERM[100]);
    out.finish(path)
}

// ------------------------------------------------------------------ collections

fn flag_records(seed: u64, num: usize, path: &str) {
    let mut rng = Rng(seed);
    let mut out = Out { recs: vec![] };
    let all: Vec<EffectFlags> = (0..8192).map(|m| flags(m as u16)).collect();
    let ints = |f: &dyn Fn(EffectFlags) -> i32| -> String {
        let v: Vec<String> = all.iter().map(|x| al(|| f(*x)).to_string()).collect();
        format!("[{}]", v.join(","))
    };
    for e in EFFECTS {
        let mut bulk = |m: &str, r: String| out.add(format!("{{\"k\":\"bulk\",\"m\":\"{m}\",\"a\":{},\"r\":{r}}}", name(e)));
        bulk("with", ints(&|x| mask(x.with(e))));
        bulk("without", ints(&|x| mask(x.without(e))));
        bulk("toggled", ints(&|x| mask(x.toggled(e))));
        bulk("set", ints(&|mut x| { x.set(e); mask(x) }));
        bulk("unset", ints(&|mut x| { x.unset(e); mask(x) }));
        bulk("toggle", ints(&|mut x| { x.toggle(e); mask(x) }));
        bulk("with", ints(&|x| mask(Style::new().effect_flags(x).with(e).effects)));
        bulk("without", ints(&|x| mask(Style::new().effect_flags(x).without(e).effects)));
        bulk("toggled", ints(&|x| mask(Style::new().effect_flags(x).toggled(e).effects)));
        out.add(format!("{{\"k\":\"query\",\"m\":\"is\",\"a\":{},\"r\":{}}}", name(e), ints(&|x| x.is(e) as i32)));
        out.add(format!("{{\"k\":\"query\",\"m\":\"is\",\"a\":{},\"r\":{}}}", name(e), ints(&|x| x.is_any(EffectFlags::from_array([e])) as i32)));
    }
    out.add(format!("{{\"k\":\"query\",\"m\":\"is_plain\",\"a\":\"\",\"r\":{}}}", ints(&|x| x.is_plain() as i32)));
    #[allow(clippy::clone_on_copy)]
    out.add(format!("{{\"k\":\"bulk\",\"m\":\"copy\",\"a\":\"\",\"r\":{}}}", ints(&|x| mask(x.clone()))));
    // consuming an iterator, for every set
    let index = |e: Option<Effect>| e.map_or(-1, |e| effect_index(e) as i32);
    let after = |x: &EffectFlags, k: usize| {
        let mut i = x.iter();
        for _ in 0..k {
            i.next();
        }
        i
    };
    let nth_after = |x: &EffectFlags, k: usize| {
        let mut i = x.iter();
        if k > 0 {
            i.nth(k - 1);
        }
        i
    };
    for from in (0..8192).step_by(256) {
        let rows: Vec<String> = all[from..from + 256]
            .iter()
            .map(|x| {
                {
                    let i = || x.iter();
                    let list = |v: [i32; 14]| format!("{v:?}");
                    let each = |f: &dyn Fn(usize) -> i32| -> [i32; 14] { std::array::from_fn(f) };
                    let last = [index(i().last()), index(i().by_ref().last()), index(i().fold(None, |_, e| Some(e))), index(i().reduce(|_, e| e))];
                    let count = [i().count() as i32, i().fold(0, |n, _| n + 1), i().by_ref().count() as i32, i().map(|_| 1).sum()];
                    let hint = [i().size_hint().0.min(99) as i32, i().size_hint().1.map_or(99, |x| x.min(99) as i32)];
                    let nth = [
                        each(&|k| index(i().nth(k))),
                        each(&|k| index(i().skip(k).next())),
                        each(&|k| index(after(x, k).next())),
                        each(&|k| index(nth_after(x, k).next())),
                    ];
                    let left = [
                        each(&|k| after(x, k).count() as i32),
                        each(&|k| nth_after(x, k).count() as i32),
                        each(&|k| after(x, k).by_ref().map(|_| 1).sum()),
                    ];
                    let at = [each(&|k| k.checked_sub(1).map_or(-1, |k| i().position(|x| x == EFFECTS[k]).map_or(-1, |x| x as i32)))];
                    let any = [
                        each(&|k| k.checked_sub(1).map_or(0, |k| i().any(|x| x == EFFECTS[k]) as i32)),
                        each(&|k| k.checked_sub(1).map_or(0, |k| !i().all(|x| x != EFFECTS[k]) as i32)),
                        each(&|k| k.checked_sub(1).map_or(0, |k| i().find(|x| *x == EFFECTS[k]).is_some() as i32)),
                    ];
                    (last, count, hint, nth.map(list), left.map(list), at.map(list), any.map(list))
                }
            })
            .map(|(last, count, hint, nth, left, at, any)| {
                let j = |v: &[String]| format!("[{}]", v.join(","));
                format!("{{\"last\":{last:?},\"count\":{count:?},\"hint\":{hint:?},\"nth\":{},\"left\":{},\"at\":{},\"any\":{}}}",
                    j(&nth), j(&left), j(&at), j(&any))
            })
            .collect();
        spent();
        out.add(format!("{{\"k\":\"consume\",\"from\":{from},\"r\":[{}]}}", rows.join(",")));
    }
    // iterating
    for from in (0..8192).step_by(256) {
        let lists: Vec<String> = all[from..from + 256].iter().map(|x| names(&x.iter().take(100).collect::<Vec<_>>())).collect();
        out.add(format!("{{\"k\":\"list\",\"from\":{from},\"r\":[{}]}}", lists.join(",")));
        let mut lists = vec![];
        for x in &all[from..from + 256] {
            let mut v = vec![];
            for e in *x {
                v.push(e);
                if v.len() > 100 {
                    break;
                }
            }
            lists.push(names(&v))
        }
        out.add(format!("{{\"k\":\"list\",\"from\":{from},\"r\":[{}]}}", lists.join(",")));
    }
    // pairs of sets
    let masks: Vec<i32> = all.iter().map(|x| mask(*x)).collect();
    let mut lines = vec![];
    let mut wrong = 0;
    for (a, x) in all.iter().enumerate() {
        let (mut n, mut sum) = (0u32, 0u64);
        for (b, y) in all.iter().enumerate() {
            let any = x.is_any(*y);
            if any {
                n += 1;
                sum += b as u64;
            }
            if any != (masks[a] & masks[b] != 0) && wrong < 3 {
                wrong += 1;
                println!("BAD is_any \"is_any of sets {a} and {b} is {any}\"");
            }
            let eq = x == y;
            if (eq != (a == b) || (x != y) == eq) && wrong < 3 {
                wrong += 1;
                println!("BAD eq \"sets {a} and {b} compare as equal: {eq}\"");
            }
        }
        lines.push(format!("[{n},{sum}]"));
    }
    for from in (0..8192).step_by(256) {
        out.add(format!("{{\"k\":\"intersect\",\"from\":{from},\"r\":[{}]}}", lines[from..from + 256].join(",")));
    }
    println!("STAT pairs {}", 8192u64 * 8192);
    // equality and hashing do not depend on how a set came to be
    let hash = |x: EffectFlags| {
        let mut h = DefaultHasher::new();
        x.hash(&mut h);
        h.finish()
    };
    for (m, x) in all.iter().enumerate() {
        let mut routes: Vec<(&str, EffectFlags)> = vec![("clone", { #[allow(clippy::clone_on_copy)] x.clone() })];
        let members: Vec<Effect> = (0..13).filter(|i| m >> i & 1 == 1).map(|i| EFFECTS[i]).collect();
        let mut down = EffectFlags::default();
        for e in members.iter().rev() {
            down.set(*e);
            down.set(*e);
        }
        routes.push(("set in reverse", down));
        let mut minus = EffectFlags::all();
        for (i, e) in EFFECTS.iter().enumerate() {
            if m >> i & 1 == 0 {
                minus = minus.without(*e)
            }
        }
        routes.push(("removed from all", minus));
        let mut t = EffectFlags::all();
        for (i, e) in EFFECTS.iter().enumerate() {
            t.toggle(*e);
            if m >> i & 1 == 1 {
                t.toggle(*e)
            }
        }
        routes.push(("toggled", t));
        routes.push(("collected", members.iter().chain(members.iter().rev()).collect()));
        routes.push(("iterated", x.iter().collect()));
        routes.push(("all filtered", EffectFlags::all().iter().filter(|e| x.is(*e)).collect()));
        for (how, y) in routes {
            if (y != *x || hash(y) != hash(*x) || mask(y) != m as i32) && wrong < 6 {
                wrong += 1;
                println!("BAD same \"set {m} made another way ({how}) is {} and equal: {}, same hash: {}\"", mask(y), y == *x, hash(y) == hash(*x));
            }
            // equal styles as well
            let s = Style::new().effect_flags(*x);
            if s != Style::new().effect_flags(y) && wrong < 6 {
                wrong += 1;
                println!("BAD same \"styles with set {m} made another way ({how}) differ\"");
            }
        }
    }
    // constructors
    let mut make = |m: &str, a: &[Effect], r: EffectFlags| out.add(format!("{{\"k\":\"make\",\"m\":\"{m}\",\"a\":{},\"r\":{}}}", names(a), mask(r)));
    make("new", &[], al(|| EffectFlags::new()));
    make("default", &[], al(|| EffectFlags::default()));
    make("all", &[], al(|| EffectFlags::all()));
    make("from_array", &[], al(|| EffectFlags::from_array([])));
    for _ in 0..num {
        let e: [Effect; 40] = std::array::from_fn(|_| EFFECTS[rng.below(13)]);
        make("from_array", &e[..1], al(|| EffectFlags::from_array([e[0]])));
        make("from_array", &e[..2], al(|| EffectFlags::from_array([e[0], e[1]])));
        make("from_array", &e[..3], al(|| EffectFlags::from_array([e[0], e[1], e[2]])));
        make("from_array", &e[..5], al(|| EffectFlags::from_array([e[0], e[1], e[2], e[3], e[4]])));
        make("from_array", &e, al(|| EffectFlags::from_array(e)));
        let n = rng.below(41);
        make("from_iter", &e[..n], al(|| e[..n].iter().collect()));
        make("from_iter", &e[..n], al(|| e[..n].iter().copied().collect()));
        let mut c = e;
        make("from_iter", &e[..n], al(|| c[..n].iter_mut().collect()));
        make("from_iter", &e[..n], { let v = e[..n].to_vec(); al(|| EffectFlags::from_iter(v)) });
        make("from_iter", &e[..n], al(|| EffectFlags::from_iter(e[..n].iter().rev())));
        for h in 0..6 {
            let v = long(&mut rng);
            make("from_iter", &v, al(|| source(&v, h).collect()));
            make("from_iter", &e[..n], al(|| source(&e[..n], h).collect()));
        }
        let last = EFFECTS[3 + rng.below(10)];
        let n = [1000, 1024, 4096, 65535, 65536, 65537][rng.below(6)];
        make("from_iter", &[EFFECTS[0], EFFECTS[1], EFFECTS[2], last], al(|| repeated(n, last).collect()));
        let e: [Effect; 300] = std::array::from_fn(|i| if i == 299 { last } else { EFFECTS[i % 3] });
        make("from_array", &[EFFECTS[0], EFFECTS[1], EFFECTS[2], last], al(|| EffectFlags::from_array(e)));
    }
    for e in EFFECTS {
        for f in EFFECTS {
            make("from_array", &[e, f], al(|| EffectFlags::from_array([e, f])));
        }
    }
    // histories
    for _ in 0..num {
        let mut x = EffectFlags::default();
        let mut evs = vec![];
        for _ in 0..60 {
            let e = EFFECTS[rng.below(13)];
            let v = random_seq(&mut rng, 9);
            let (m, a) = match rng.below(40) {
                0..=5 => { al(|| x.set(e)); ("set", name(e)) }
                6..=11 => { al(|| x.unset(e)); ("unset", name(e)) }
                12..=17 => { al(|| x.toggle(e)); ("toggle", name(e)) }
                18..=22 => { x = al(|| x.with(e)); ("with", name(e)) }
                23..=27 => { x = al(|| x.without(e)); ("without", name(e)) }
                28..=34 => { x = al(|| x.toggled(e)); ("toggled", name(e)) }
                35 => { x = al(|| v.iter().collect()); ("collect", names(&v)) }
                36 => { x = al(|| EffectFlags::from_array([e, e])); ("from_array", names(&[e, e])) }
                37 => { x = al(|| EffectFlags::all()); ("all", "\"\"".into()) }
                38 => { x = al(|| x.iter().collect()); ("copy", "\"\"".into()) }
                _ => { x = al(|| EffectFlags::new()); ("new", "\"\"".into()) }
            };
            evs.push(format!("{{\"m\":\"{m}\",\"a\":{a},\"r\":{},\"plain\":{},\"l\":{}}}", mask(x), al(|| x.is_plain()), names(&x.iter().collect::<Vec<_>>())));
        }
        out.add(format!("{{\"k\":\"flags\",\"evs\":[{}]}}", evs.join(",")));
    }
    // the iterator
    for j in 0..num * 4 {
        let m = if j == 0 { 0 } else if j == 1 { 8191 } else { rng.below(8192) & if j % 3 == 0 { rng.below(8192) } else { 8191 } };
        let mut it = if j % 2 == 0 { flags(m as u16).iter() } else { flags(m as u16).into_iter() };
        let mut evs = String::new();
        for s in 0..24 {
            let some = |x: Option<Effect>| names(x.as_slice());
            let (op, a, r): (&str, String, String) = match if s > 18 { 0 } else { rng.below(20) } {
                0..=6 => ("next", "0".into(), some(al(|| it.next()))),
                7 => { let n = rng.below(4); ("nth", n.to_string(), some(al(|| it.nth(n)))) }
                8 => { let (lo, hi) = al(|| it.size_hint()); ("size_hint", "0".into(), format!("[{},{}]", lo.min(99), hi.map_or(-1, |x| x.min(9999) as i64))) }
                9 => ("collect", "0".into(), names(&it.clone().take(100).collect::<Vec<_>>())),
                10 => ("count", "0".into(), format!("[{}]", al(|| it.clone().count()))),
                11 => ("last", "0".into(), some(al(|| it.clone().last()))),
                12 => { let e = EFFECTS[rng.below(13)]; ("find", name(e), some(if rng.below(3) == 0 { it.find(|x| *x == e) } else if it.clone().any(|x| x == e) { it.find(|x| *x == e) } else { it.by_ref().for_each(drop); None })) }
                13 => ("fold", "0".into(), names(&it.clone().fold(vec![], |mut v, x| { v.push(x); v }))),
                14 => { let mut v = vec![]; it.clone().for_each(|x| v.push(x)); ("for_each", "0".into(), names(&v)) }
                15 => { let mut c = it.clone(); let mut v = vec![]; while let Some(x) = c.next() { v.push(x); if v.len() > 50 { break } } ("clone", "0".into(), names(&v)) }
                16 => { let mut p = it.clone().peekable(); let mut v = vec![]; while p.peek().is_some() { v.push(p.next().unwrap()); if v.len() > 50 { break } } ("peekable", "0".into(), names(&v)) }
                17 => ("chain", "0".into(), names(&it.clone().chain(None).map(|x| x).collect::<Vec<_>>())),
                _ => ("set", "0".into(), format!("[{}]", mask(al(|| it.clone().collect())))),
            };
            if !evs.is_empty() {
                evs.push(',')
            }
            write!(evs, "{{\"m\":\"{op}\",\"a\":{a},\"r\":{r}}}", a = if op == "find" { a } else { a }).unwrap();
        }
        out.add(format!("{{\"k\":\"iterator\",\"start\":{m},\"evs\":[{evs}]}}"));
    }
    out.finish(path)
}

fn main() {
    quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    match a[1].as_str() {
        "replay" => replay(&a[3], a[2] == "values"),
        "styles" => styles(n(2), n(3) as usize, &a[4]),
        "values" => values(n(2), n(3) as usize, &a[4]),
        "flags" => flag_records(n(2), n(3) as usize, &a[4]),
        _ => panic!(),
    }
}
