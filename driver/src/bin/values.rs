//! Equality, hashing and printing of colors, styles, effects and escapes:
//! records of the real library for TraceValues.tla.
//!   values pairs SEED K OUT | values keys SEED K OUT | values print SEED K OUT
use colorz::mode::{ColorKind, Mode, Stream};
use colorz::{ansi, css, rgb, xterm, Color, Colorize, EffectFlags, NoColor, OptionalColor, Style, WriteColor};
use colorz_driver::acc::Fmt;
use colorz_driver::eng::{Lc, Report};
use colorz_driver::lay::*;
use colorz_driver::pal::*;
use colorz_driver::rend::{any_color, any_rgb, show_as, FAnsi, FColor, FCss, FNone, FOptColor, FRgb, FXterm, Form, SPECS};
use colorz_driver::*;
use std::collections::hash_map::{DefaultHasher, RandomState};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt;
use std::hash::{BuildHasher, Hash, Hasher};

seam!();

/// hashes exactly the bytes fed to it, with another function than SipHash
#[derive(Default)]
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64 ^ 0x5a).wrapping_mul(0x100000001b3).rotate_left(7)
        }
    }
}
fn hashes<T: Hash>(x: &T) -> [u64; 4] {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    let mut f = Fnv::default();
    x.hash(&mut f);
    let mut p = Fnv::default();
    (x, 7, x).hash(&mut p);
    let mut s = Fnv::default();
    std::slice::from_ref(x).hash(&mut s);
    [h.finish(), f.finish(), p.finish(), s.finish()]
}

struct Out {
    recs: Vec<String>,
}
impl Out {
    fn add(&mut self, s: String) {
        let n = s.len() - 1;
        self.recs.push(format!("{},\"al\":{}}}", &s[..n], spent()))
    }
    fn finish(self, path: &str) {
        std::fs::write(path, format!("[{}]", self.recs.join(",\n"))).unwrap();
        println!("STAT records {}", self.recs.len());
    }
}

/// the positions (from 1) where it holds
fn places(v: impl Iterator<Item = bool>) -> String {
    v.enumerate().filter(|x| x.1).map(|x| (x.0 + 1).to_string()).collect::<Vec<_>>().join(",")
}
/// all pairs of the values: `desc` describes a value without using its `==`
fn pairs<T: PartialEq + Copy>(out: &mut Out, ty: &str, vs: &[T], desc: &dyn Fn(&T) -> String, hash: Option<&dyn Fn(&T) -> [u64; 4]>) {
    if vs.is_empty() {
        return;
    }
    let (mut eq, mut ne) = (vec![], vec![]);
    for a in vs {
        eq.push(format!("[{}]", places(vs.iter().map(|b| al(|| *a == *b)))));
        ne.push(format!("[{}]", places(vs.iter().map(|b| al(|| *a != *b)))));
    }
    let d: Vec<String> = vs.iter().map(desc).collect();
    #[allow(clippy::clone_on_copy)]
    let c: Vec<String> = vs.iter().map(|x| desc(&al(|| x.clone()))).collect();
    let mut h: Vec<Vec<usize>> = vec![vec![]; 4];
    if let Some(f) = hash {
        let mut ids: [HashMap<u64, usize>; 4] = Default::default();
        for v in vs {
            for (k, x) in f(v).into_iter().enumerate() {
                let n = ids[k].len();
                h[k].push(*ids[k].entry(x).or_insert(n));
            }
        }
    }
    out.add(format!(
        "{{\"k\":\"pairs\",\"ty\":\"{ty}\",\"v\":[{}],\"c\":[{}],\"eq\":[{}],\"ne\":[{}],\"h\":{h:?},\"hashed\":{}}}",
        d.join(","),
        c.join(","),
        eq.join(","),
        ne.join(","),
        hash.is_some()
    ))
}

fn dcolor(c: impl Into<Option<Color>>) -> String {
    match logical(c.into()) {
        Lc::None => "[0]".into(),
        Lc::Ansi(i) => format!("[1,{i}]"),
        Lc::Xterm(i) => format!("[2,{i}]"),
        Lc::Css(i) => format!("[3,{i}]"),
        Lc::Rgb(r, g, b) => format!("[4,{r},{g},{b}]"),
    }
}
fn dstyle<F: Col, B: Col, U: Col>(s: &Style<F, B, U>) -> String {
    format!("[{},{},{},{}]", dcolor(s.foreground), dcolor(s.background), dcolor(s.underline_color), mask(s.effects))
}

/// colors that are easily mixed up: the same numbers and names in different kinds
fn colors(r: &mut Rng, n: usize) -> Vec<Option<Color>> {
    let mut v = vec![None];
    for i in [0u8, 1, 7, 8, 9, 15] {
        for l in [Lc::Ansi(i), Lc::Xterm(i), Lc::Css(i), Lc::Rgb(i, i, i), Lc::Rgb(i, 0, 0), Lc::Rgb(0, i, 0), Lc::Rgb(0, 0, i)] {
            v.push(color(l))
        }
    }
    for name in ["Red", "Blue", "Cyan", "Magenta", "Purple", "Orange", "Fuchsia", "Aqua"] {
        if let Some(i) = CSS_NAMES.iter().position(|x| *x == name) {
            v.push(Some(Color::Css(CSS[i])));
            v.push(Some(Color::Rgb(rgb::RgbColor::from(CSS[i]))));
        }
        if let Some(i) = ANSI_NAMES.iter().position(|x| *x == name) {
            v.push(Some(ANSI[i].into()));
            v.push(Some(xterm::XtermColor::from(ANSI[i]).into()));
        }
        if let Some(i) = XTERM_NAMES.iter().position(|x| *x == name) {
            v.push(Some(XTERM[i].into()));
        }
    }
    while v.len() < n {
        let l = any_color(r);
        v.push(color(l));
        let x = r.below(256) as u8;
        let l = match l {
            Lc::Rgb(_, g, b) if r.below(3) == 0 => Lc::Rgb(x, g, b),
            Lc::Rgb(a, _, b) if r.below(2) == 0 => Lc::Rgb(a, x, b),
            Lc::Rgb(a, g, _) => Lc::Rgb(a, g, x),
            l => l,
        };
        v.push(color(l));
        // the same color, read from text
        match l {
            Lc::Rgb(a, g, b) => v.push(format!("#{a:02x}{g:02x}{b:02x}").parse::<Color>().ok()),
            Lc::Xterm(i) => v.push(format!("{i}").parse::<Color>().ok()),
            _ => (),
        }
    }
    v
}

/// styles that differ from one another in one attribute, and the same styles built in other ways
fn styles(r: &mut Rng, n: usize) -> Vec<Style> {
    let mut v: Vec<Style> = vec![Style::new().into_runtime_style(), Style::default().into_runtime_style()];
    while v.len() < n {
        let mut c = || color(if r.below(4) == 0 { Lc::None } else { any_color(r) });
        let (f, b, u, x) = (c(), c(), c(), c());
        let m = match r.below(4) {
            0 => 0,
            1 => 1 << r.below(13),
            _ => r.below(8192),
        } as u16;
        let s = Style::new().fg(f).bg(b).underline_color(u).effect_flags(flags(m));
        v.push(s);
        v.push(s.fg(x));
        v.push(s.bg(x));
        v.push(s.underline_color(x));
        v.push(s.fg(b).bg(f));
        v.push(s.fg(u).underline_color(f));
        v.push(s.bg(u).underline_color(b));
        let e = EFFECTS[r.below(13)];
        v.push(s.with(e));
        v.push(s.without(e));
        v.push(s.toggled(e).toggled(e));
        // other ways to the same style
        let mut t = Style::new().underline_color(u).fg(x).bg(x).bg(b).fg(f);
        for i in (0..13).rev() {
            if m & 1 << i != 0 {
                t = t.with(EFFECTS[i])
            }
        }
        v.push(t);
        v.push(Style::new().fg(f).bg(b).underline_color(u).effects(EFFECTS.iter().filter(|e| s.is(**e))));
        v.push("x".into_style_with(s).fg(f).style);
    }
    v.truncate(n);
    v
}

fn typed<F: Form, G: Form, U: Form>(out: &mut Out, r: &mut Rng, hash: bool)
where
    F::T: Col + PartialEq,
    G::T: Col + PartialEq,
    U::T: Col + PartialEq,
    Style<F::T, G::T, U::T>: MaybeHash,
{
    let mut v = vec![];
    for _ in 0..40 {
        let (f, b, u) = (F::make(r).0, G::make(r).0, U::make(r).0);
        let m = [0u16, 1, 4096, 8191, r.below(8192) as u16][r.below(5)];
        let s = Style::new().fg(f).bg(b).underline_color(u).effect_flags(flags(m));
        let e = EFFECTS[r.below(13)];
        v.extend([s, s.fg(F::make(r).0), s.bg(G::make(r).0), s.underline_color(U::make(r).0), s.with(e), s.toggled(e).toggled(e)]);
    }
    let h = |x: &Style<F::T, G::T, U::T>| x.maybe();
    pairs(out, &["Style", F::NAME, G::NAME, U::NAME].join(" "), &v, &dstyle, if hash { Some(&h) } else { None })
}
trait MaybeHash {
    fn maybe(&self) -> [u64; 4];
}
macro_rules! maybe { ($($t:ty)*) => { $(impl MaybeHash for $t {
    fn maybe(&self) -> [u64; 4] { hashes(self) }
})* } }
macro_rules! maybe_not { ($($t:ty)*) => { $(impl MaybeHash for $t {
    fn maybe(&self) -> [u64; 4] { [0; 4] }
})* } }
maybe!(Style<Color, xterm::XtermColor, rgb::RgbColor> Style<Option<Color>, Color, css::CssColor>
       Style<ansi::AnsiColor, Option<Color>, Color>);
maybe_not!(Style<NoColor, NoColor, NoColor> Style<Option<Color>, NoColor, NoColor> Style<NoColor, Option<Color>, NoColor>
           Style<NoColor, NoColor, Option<Color>> Style<NoColor, Color, rgb::RgbColor>);

fn all_pairs(seed: u64, k: usize, path: &str) {
    let r = &mut Rng(seed);
    let mut out = Out { recs: vec![] };
    let o = &mut out;
    pairs(o, "AnsiColor", &ANSI, &|x| format!("[{}]", ansi_index(*x)), Some(&hashes));
    pairs(o, "XtermColor", &XTERM, &|x| format!("[{}]", xterm_index(*x)), Some(&hashes));
    let codes: Vec<xterm::XtermColor> = (0..=255).map(xterm::XtermColor::from_code).chain(XTERM).step_by(2).collect();
    pairs(o, "XtermColor", &codes, &|x| format!("[{}]", xterm_index(*x)), Some(&hashes));
    pairs(o, "CssColor", &CSS, &|x| format!("[{}]", css_index(*x)), Some(&hashes));
    pairs(o, "Effect", &EFFECTS, &|x| format!("[{}]", effect_index(*x)), Some(&hashes));
    let s: Vec<Stream> = STREAMS.iter().filter_map(|x| *x).collect();
    pairs(o, "Stream", &s, &|x| format!("[\"{}\"]", stream_name(Some(*x))), Some(&hashes));
    pairs(o, "Option<Stream>", &STREAMS, &|x| format!("[\"{}\"]", stream_name(*x)), Some(&hashes));
    pairs(o, "Mode", &[Mode::Detect, Mode::Always, Mode::Never], &|x| {
        format!("[\"{}\"]", match x { Mode::Detect => "Detect", Mode::Always => "Always", _ => "Never" })
    }, None);
    pairs(o, "ColorKind", &[ColorKind::Ansi, ColorKind::Xterm, ColorKind::Rgb, ColorKind::NoColor], &|x| {
        format!("[\"{}\"]", match x { ColorKind::Ansi => "Ansi", ColorKind::Xterm => "Xterm", ColorKind::Rgb => "Rgb", _ => "NoColor" })
    }, Some(&hashes));
    pairs(o, "NoColor", &[NoColor, NoColor], &|_| "[0]".into(), None);
    pairs(o, "ansi::Red", &[ansi::Red, ansi::Red], &|_| "[0]".into(), Some(&hashes));
    pairs(o, "css::Red", &[css::Red, css::Red], &|_| "[0]".into(), Some(&hashes));
    pairs(o, "xterm::Aqua", &[xterm::Aqua, xterm::Aqua], &|_| "[0]".into(), Some(&hashes));
    pairs(o, "Rgb", &[rgb::Rgb::<1, 2, 3>, rgb::Rgb::<1, 2, 3>], &|_| "[0]".into(), Some(&hashes));
    for _ in 0..k {
        let mut v: Vec<rgb::RgbColor> = vec![];
        while v.len() < 250 {
            if let Lc::Rgb(red, green, blue) = any_rgb(r) {
                let x = r.below(256) as u8;
                for (red, green, blue) in
                    [(red, green, blue), (x, green, blue), (red, x, blue), (red, green, x), (green, red, blue), (red, blue, green), (blue, green, red)]
                {
                    v.push(rgb::RgbColor { red, green, blue })
                }
            }
        }
        pairs(o, "RgbColor", &v, &|x| format!("[{},{},{}]", x.red, x.green, x.blue), Some(&hashes));
        let v = colors(r, 300);
        pairs(o, "Option<Color>", &v, &|x| dcolor(*x), Some(&hashes));
        let v: Vec<Color> = colors(r, 250).into_iter().flatten().collect();
        pairs(o, "Color", &v, &|x| dcolor(*x), Some(&hashes));
        let mut v: Vec<EffectFlags> = vec![];
        while v.len() < 300 {
            let m = r.below(8192) as u16;
            let e = r.below(13);
            v.push(flags(m));
            v.push(flags(m ^ 1 << e));
            v.push(EFFECTS.iter().rev().filter(|x| flags(m).is(**x)).collect());
            v.push(flags(m).toggled(EFFECTS[e]));
            v.push(flags(1 << e));
        }
        pairs(o, "EffectFlags", &v, &|x| format!("[{}]", mask(*x)), Some(&hashes));
        for _ in 0..3 {
            let v = styles(r, 320);
            pairs(o, "Style", &v, &dstyle, Some(&hashes));
        }
        typed::<FColor, FXterm, FRgb>(o, r, true);
        typed::<FOptColor, FColor, FCss>(o, r, true);
        typed::<FAnsi, FOptColor, FColor>(o, r, true);
        typed::<FNone, FNone, FNone>(o, r, false);
        typed::<FOptColor, FNone, FNone>(o, r, false);
        typed::<FNone, FOptColor, FNone>(o, r, false);
        typed::<FNone, FNone, FOptColor>(o, r, false);
        typed::<FNone, FColor, FRgb>(o, r, false);
    }
    out.finish(path);
}

/// histories of a set whose keys are styles or colors
fn history<T: Hash + Eq + Copy>(out: &mut Out, r: &mut Rng, ty: &str, vs: &[T], desc: &dyn Fn(&T) -> String, len: usize) {
    let mut evs = vec![];
    let mut set: HashSet<T> = HashSet::with_capacity([0, 8, 600][r.below(3)]);
    let mut other: HashMap<T, usize, RandomState> = HashMap::default();
    let few = 1 + r.below(vs.len());
    for k in 0..len {
        let v = vs[r.below(few)];
        let ins = other.hasher().hash_one(v) == other.hasher().hash_one(v);
        let (m, a) = match r.below(8) {
            0..=3 => ("insert", set.insert(v) && other.insert(v, k).is_none() && ins),
            4 | 5 => ("contains", set.contains(&v) && other.contains_key(&v)),
            _ => ("remove", set.remove(&v) && other.remove(&v).is_some()),
        };
        evs.push(format!("{{\"m\":\"{m}\",\"a\":{},\"r\":{a},\"n\":[{},{}]}}", desc(&v), set.len(), other.len()));
    }
    out.add(format!("{{\"k\":\"keys\",\"ty\":\"{ty}\",\"evs\":[{}]}}", evs.join(",")));
}
fn keys(seed: u64, k: usize, path: &str) {
    let r = &mut Rng(seed);
    let mut out = Out { recs: vec![] };
    for _ in 0..k {
        let v = styles(r, 60);
        history(&mut out, r, "Style", &v, &dstyle, 150);
        let v: Vec<Color> = colors(r, 120).into_iter().flatten().collect();
        history(&mut out, r, "Color", &v, &|x| dcolor(*x), 150);
        let v: Vec<EffectFlags> = (0..40).map(|_| flags((1 << r.below(13)) | (1 << r.below(4)))).collect();
        history(&mut out, r, "EffectFlags", &v, &|x| format!("[{}]", mask(*x)), 150);
    }
    out.finish(path);
}

// --------------------------------------------------------------- printing

/// a destination that rejects write number `reject`
struct Fussy {
    reject: usize,
    n: usize,
    rejected: bool,
    after: usize,
    got: Vec<u8>,
}
impl fmt::Write for Fussy {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.n += 1;
        if self.rejected {
            self.after += 1;
        }
        if self.n == self.reject {
            self.rejected = true;
            return Err(fmt::Error);
        }
        self.got.extend_from_slice(s.as_bytes());
        Ok(())
    }
}

struct Printer<'a> {
    out: &'a mut Out,
    r: Rng,
    keep: usize,
    n: usize,
    shown: usize,
    rejections: usize,
    rep: Report,
}
impl Printer<'_> {
    /// one escape writer: under every format specification, and with every write rejected
    fn print(&mut self, what: &str, spec: &str, specs: usize, d: &dyn fmt::Display, g: &dyn fmt::Debug) {
        let spec_free = d.to_string();
        let mut outs: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
        let mut errors = 0;
        let mut buf = Buf::<4096>::new();
        for k in 0..specs {
            let s = if specs == SPECS { k } else { self.r.below(SPECS) };
            buf.len = 0;
            if show_as(&mut buf, s, d, g).is_err() {
                errors += 1
            }
            self.shown += 1;
            if !outs.contains_key(buf.bytes()) {
                outs.insert(buf.bytes().to_vec(), s);
            }
        }
        let mut faults = vec![];
        for s in [0, 1, self.r.below(SPECS)] {
            for reject in 1..200 {
                let mut w = Fussy { reject, n: 0, rejected: false, after: 0, got: vec![] };
                let ok = show_as(&mut w, s, d, g).is_ok();
                self.rejections += 1;
                faults.push((w.rejected, ok, w.after, w.got));
                if !faults.last().unwrap().0 {
                    break;
                }
            }
        }
        let b = spec_free.as_bytes();
        let bad = errors > 0
            || outs.keys().any(|x| x != b)
            || faults.iter().any(|(rej, ok, after, got)| if *rej { *ok || *after > 0 || !b.starts_with(got) } else { !*ok || got != b });
        if bad {
            self.rep.bad("C24", || {
                format!("{{\"what\":\"{what}\",\"of\":{spec},\"plainly\":{spec_free:?},\"errors\":{errors},\"under options\":{:?},\"rejected, ok, writes after, wrote\":{:?}}}",
                    outs.iter().map(|(k, v)| (String::from_utf8_lossy(k).into_owned(), v)).collect::<Vec<_>>(),
                    faults.iter().map(|(a, b, c, d)| (a, b, c, String::from_utf8_lossy(d).into_owned())).collect::<Vec<_>>())
            })
        }
        self.n += 1;
        if bad || self.n % self.keep == 0 {
            let outs: Vec<String> = outs.keys().map(|x| json_bytes(x)).collect();
            let f: Vec<String> = faults
                .iter()
                .map(|(rej, ok, after, got)| format!("{{\"rejected\":{rej},\"ok\":{ok},\"after\":{after},\"got\":{}}}", json_bytes(got)))
                .collect();
            self.out.add(format!(
                "{{\"k\":\"print\",\"what\":\"{what}\",\"of\":{spec},\"ref\":{},\"outs\":[{}],\"errors\":{errors},\"faults\":[{}]}}",
                json_bytes(b),
                outs.join(","),
                f.join(",")
            ))
        }
    }
    fn color<W: WriteColor>(&mut self, l: Lc, specs: usize, w: W) {
        let c = lcj(l);
        macro_rules! each { ($($m:ident)*) => { $(
            let f = Fmt(move |f: &mut fmt::Formatter<'_>| w.$m(f));
            self.print(stringify!($m), &c, specs, &f, &f);
        )* } }
        each!(fmt_foreground_args fmt_background_args fmt_underline_args fmt_foreground fmt_background fmt_underline);
    }
    fn of_style<F: OptionalColor, B: OptionalColor, U: OptionalColor>(&mut self, s: Style<F, B, U>, json: &str, specs: usize) {
        let (a, c) = (s.apply(), s.clear());
        self.print("apply", json, specs, &a, &a);
        self.print("clear", json, specs, &c, &c);
    }
}

fn print(seed: u64, k: usize, path: &str) {
    let mut out = Out { recs: vec![] };
    let mut p = Printer { out: &mut out, r: Rng(seed), keep: 30, n: 0, shown: 0, rejections: 0, rep: Report::default() };
    let few = 8 * k;
    for i in 0..17u8 {
        p.color(Lc::Ansi(i), few, ANSI[i as usize]);
        p.color(Lc::Ansi(i), few, Color::Ansi(ANSI[i as usize]));
    }
    for i in 0..=255u8 {
        p.color(Lc::Xterm(i), few, XTERM[i as usize]);
        p.color(Lc::Xterm(i), few, Color::Xterm(XTERM[i as usize]));
    }
    for i in 0..147u8 {
        p.color(Lc::Css(i), few, CSS[i as usize]);
        p.color(Lc::Css(i), few, Color::Css(CSS[i as usize]));
    }
    for n in 0..200 * k {
        let l = any_rgb(&mut p.r);
        if let Lc::Rgb(red, green, blue) = l {
            let specs = if n < 20 { SPECS } else { few };
            p.color(l, specs, rgb::RgbColor { red, green, blue });
            p.color(l, specs, Color::Rgb(rgb::RgbColor { red, green, blue }));
        }
    }
    p.color(Lc::Ansi(1), SPECS, ansi::Red);
    p.color(Lc::Ansi(16), SPECS, ansi::Default);
    p.color(Lc::Xterm(51), SPECS, xterm::Aqua);
    p.color(Lc::Css(0), SPECS, css::AliceBlue);
    p.color(Lc::Rgb(0, 10, 255), SPECS, rgb::Rgb::<0, 10, 255>);
    p.color(Lc::Rgb(255, 255, 255), SPECS, rgb::Rgb::<255, 255, 255>);
    p.color(Lc::Rgb(0, 0, 0), SPECS, rgb::Rgb::<0, 0, 0>);
    for m in 0..8192u16 {
        let mut c = || color(if p.r.below(3) == 0 { Lc::None } else { any_color(&mut p.r) });
        let (f, b, u) = (c(), c(), c());
        let s = Style::new().fg(f).bg(b).underline_color(u).effect_flags(flags(m));
        p.of_style(s, &layer(&s, None).json(), 2 * k);
        let t = Style::new().effect_flags(flags(m));
        p.of_style(t, &layer(&t, None).json(), k);
        let i = p.r.below(17);
        let t = Style::new().fg(ANSI[i]).underline_color(css::AliceBlue).effect_flags(flags(m));
        p.of_style(t, &layer(&t, None).json(), k);
        let t = Style::new().fg(xterm::Aqua).bg(rgb::Rgb::<0, 10, 255>).effect_flags(flags(m));
        p.of_style(t, &layer(&t, None).json(), k);
    }
    for _ in 0..100 * k {
        let s = styles(&mut p.r, 3)[2];
        p.of_style(s, &layer(&s, None).json(), SPECS);
    }
    p.keep = 1;
    let c = Style::clear_all();
    p.print("clear_all", "[]", SPECS, &c, &c);
    println!("STAT printed {}", p.n);
    println!("STAT shown {}", p.shown);
    println!("STAT rejections {}", p.rejections);
    for l in &p.rep.lines {
        println!("{l}")
    }
    // debug output of collections and of what is left of an iterator
    for from in (0..8192u16).step_by(256) {
        let rows: Vec<String> = (from..from + 256)
            .map(|m| {
                let e = flags(m);
                format!("[{},{},{},{}]",
                    json_bytes(format!("{e:?}").as_bytes()),
                    json_bytes(format!("{e:#?}").as_bytes()),
                    json_bytes(format!("{:?}", e.iter()).as_bytes()),
                    json_bytes(format!("{:#?}", e.into_iter()).as_bytes()))
            })
            .collect();
        out.add(format!("{{\"k\":\"debug\",\"from\":{from},\"r\":[{}]}}", rows.join(",")));
    }
    let mut r = Rng(seed ^ 77);
    for _ in 0..300 {
        let m = r.below(8192) as u16;
        let n = r.below(8);
        let mut i = flags(m).iter();
        for _ in 0..n {
            i.next();
        }
        let (s, t) = (format!("{i:?}"), format!("{i:#?}"));
        let left: Vec<String> = i.map(|e| format!("\"{}\"", EFFECT_NAMES[effect_index(e)])).collect();
        out.add(format!("{{\"k\":\"left\",\"start\":{m},\"steps\":{n},\"left\":[{}],\"r\":[{},{}]}}", left.join(","), json_bytes(s.as_bytes()), json_bytes(t.as_bytes())));
    }
    for x in ["", "x", "nevers", "#zz"] {
        for (of, t) in [
            ("mode", x.parse::<Mode>().unwrap_err().to_string()),
            ("stream", x.parse::<Stream>().unwrap_err().to_string()),
            ("mode", Mode::from_ascii_bytes(x.as_bytes()).unwrap_err().to_string()),
            ("stream", Stream::from_ascii_bytes(x.as_bytes()).unwrap_err().to_string()),
        ] {
            out.add(format!("{{\"k\":\"message\",\"of\":\"{of}\",\"b\":{}}}", json_bytes(t.as_bytes())));
        }
    }
    out.finish(path);
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    clean_env();
    quiet_panics();
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, k, path) = (num(1), num(2) as usize, a[3].as_str());
    let done = std::panic::catch_unwind(|| match a[0].as_str() {
        "pairs" => all_pairs(seed, k, path),
        "keys" => keys(seed, k, path),
        "print" => print(seed, k, path),
        x => panic!("{x}"),
    });
    if let Err(e) = done {
        let s = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
        println!("BAD {} {{\"what\":\"panic while {}\",\"message\":{s:?}}}", if a[0] == "print" { "C24" } else { "C23" }, a[0]);
    }
    println!("DONE");
}
