//! Records of what the accessors of a color give, for Colors.tla.
use crate::eng::*;
use crate::pal::*;
use crate::*;
pub use colorz::mode::ColorKind;
pub use colorz::{ansi, css, rgb, xterm, Color, ColorSpec, ComptimeColor, NoColor, OptionalColor, Style, WriteColor};
pub use std::collections::BTreeMap;
pub use std::fmt::{self, Display, Write as _};


pub struct Rec {
    pub c: Lc,
    pub texts: BTreeMap<(&'static str, &'static str, Vec<u8>), Vec<String>>,
    convs: BTreeMap<(&'static str, String), Vec<String>>,
    kinds: BTreeMap<String, Vec<String>>,
}
impl Rec {
    pub fn new(c: Lc) -> Rec {
        Rec { c, texts: BTreeMap::new(), convs: BTreeMap::new(), kinds: BTreeMap::new() }
    }
    pub fn text(&mut self, form: &'static str, layer: &'static str, via: String, b: &str) {
        self.texts.entry((form, layer, b.as_bytes().to_vec())).or_default().push(via)
    }
    pub fn conv(&mut self, to: &'static str, via: String, r: impl Into<Option<Color>>) {
        self.convs.entry((to, logical(r.into()).json(&CSS_NAMES))).or_default().push(via)
    }
    pub fn kind(&mut self, via: String, k: ColorKind) {
        let k = match k {
            ColorKind::Ansi => "Ansi",
            ColorKind::Xterm => "Xterm",
            ColorKind::Rgb => "Rgb",
            ColorKind::NoColor => "NoColor",
            #[allow(unreachable_patterns)]
            _ => "other",
        };
        self.kinds.entry(k.to_string()).or_default().push(via)
    }
    pub fn json(&self) -> String {
        fn vias(v: &[String]) -> String {
            let mut v: Vec<String> = v.iter().take(4).map(|x| format!("\"{x}\"")).collect();
            v.dedup();
            format!("[{}]", v.join(","))
        }
        let t: Vec<String> = self
            .texts
            .iter()
            .map(|((f, l, b), v)| format!("{{\"form\":\"{f}\",\"layer\":\"{l}\",\"b\":{},\"via\":{}}}", json_bytes(b), vias(v)))
            .collect();
        let c: Vec<String> =
            self.convs.iter().map(|((t, r), v)| format!("{{\"to\":\"{t}\",\"r\":{r},\"via\":{}}}", vias(v))).collect();
        let k: Vec<String> = self.kinds.iter().map(|(k, v)| format!("{{\"k\":\"{k}\",\"via\":{}}}", vias(v))).collect();
        format!(
            "{{\"c\":{},\"texts\":[{}],\"convs\":[{}],\"kinds\":[{}]}}",
            self.c.json(&CSS_NAMES),
            t.join(","),
            c.join(","),
            k.join(",")
        )
    }
    pub fn count(&self) -> usize {
        self.texts.values().map(|v| v.len()).sum::<usize>() + self.convs.values().map(|v| v.len()).sum::<usize>()
    }
}

pub struct Fmt<F>(pub F);
impl<F: Fn(&mut fmt::Formatter<'_>) -> fmt::Result> Display for Fmt<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (self.0)(f)
    }
}

impl<F: Fn(&mut fmt::Formatter<'_>) -> fmt::Result> fmt::Debug for Fmt<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (self.0)(f)
    }
}

/// the writing interface
#[inline(never)]
pub fn writes<W: WriteColor>(r: &mut Rec, via: &str, w: W) {
    r.text("args", "fg", format!("{via}.fmt_foreground_args"), &Fmt(|f: &mut fmt::Formatter<'_>| w.fmt_foreground_args(f)).to_string());
    r.text("args", "bg", format!("{via}.fmt_background_args"), &Fmt(|f: &mut fmt::Formatter<'_>| w.fmt_background_args(f)).to_string());
    r.text("args", "ul", format!("{via}.fmt_underline_args"), &Fmt(|f: &mut fmt::Formatter<'_>| w.fmt_underline_args(f)).to_string());
    r.text("escape", "fg", format!("{via}.fmt_foreground"), &Fmt(|f: &mut fmt::Formatter<'_>| w.fmt_foreground(f)).to_string());
    r.text("escape", "bg", format!("{via}.fmt_background"), &Fmt(|f: &mut fmt::Formatter<'_>| w.fmt_background(f)).to_string());
    r.text("escape", "ul", format!("{via}.fmt_underline"), &Fmt(|f: &mut fmt::Formatter<'_>| w.fmt_underline(f)).to_string());
    r.kind(format!("{via} WriteColor::color_kind"), WriteColor::color_kind(w));
    r.kind(format!("{via} OptionalColor::color_kind"), OptionalColor::color_kind(w));
    r.kind(format!("Some({via}) color_kind"), OptionalColor::color_kind(Some(w)));
}
/// the string interface
#[inline(never)]
pub fn strings<C: ColorSpec>(r: &mut Rec, via: &str, c: C)
where
    C::Dynamic: Into<Color>,
{
    let v = |n: &str| format!("ColorSpec::{n}({via})");
    r.text("args", "fg", v("foreground_args"), c.foreground_args());
    r.text("args", "bg", v("background_args"), c.background_args());
    r.text("args", "ul", v("underline_args"), c.underline_args());
    r.text("escape", "fg", v("foreground_escape"), c.foreground_escape());
    r.text("escape", "bg", v("background_escape"), c.background_escape());
    r.text("escape", "ul", v("underline_escape"), c.underline_escape());
    r.conv("same", v("into_dynamic"), c.into_dynamic().into());
    r.kind(format!("{via} ColorSpec::KIND"), C::KIND);
}
/// a color type and everything it converts to
pub fn any<C: WriteColor + Into<Color> + Into<Option<Color>>>(r: &mut Rec, via: &str, c: C) {
    writes(r, via, c);
    r.conv("same", format!("Color::from({via})"), Into::<Color>::into(c));
    r.conv("same", format!("Option::<Color>::from({via})"), Into::<Option<Color>>::into(c));
    let g: Color = c.into();
    writes(r, &format!("Color::from({via})"), g);
    let got: Option<Color> = OptionalColor::get(c).map(Into::into);
    r.conv("same", format!("OptionalColor::get({via})"), got);
    r.conv("same", format!("OptionalColor::get(Some({via}))"), OptionalColor::get(Some(c)).map(Into::<Color>::into));
}
pub fn comptime<C: ComptimeColor + ColorSpec + Into<Color> + Into<Option<Color>>>(r: &mut Rec, via: &str, c: C)
where
    C::Dynamic: Into<Color>,
{
    any(r, via, c);
    strings(r, via, c);
    r.conv("same", format!("{via} ComptimeColor::VALUE"), C::VALUE);
}

pub type Six = [(&'static str, &'static str, &'static str); 6];
pub fn six(r: &mut Rec, via: &str, six: Six, what: &str) {
    for ((form, layer, s), n) in six.into_iter().zip(["foreground_args", "background_args", "underline_args", "foreground_escape", "background_escape", "underline_escape"]) {
        r.text(form, layer, format!("{via}{what}{n}"), s)
    }
}
#[macro_export]
macro_rules! six_consts {
    ($t:path) => {{
        use $t as T;
        [
            ("args", "fg", T::FOREGROUND_ARGS),
            ("args", "bg", T::BACKGROUND_ARGS),
            ("args", "ul", T::UNDERLINE_ARGS),
            ("escape", "fg", T::FOREGROUND_ESCAPE),
            ("escape", "bg", T::BACKGROUND_ESCAPE),
            ("escape", "ul", T::UNDERLINE_ESCAPE),
        ]
    }};
}
#[macro_export]
macro_rules! six_calls {
    ($c:expr) => {
        [
            ("args", "fg", $c.foreground_args()),
            ("args", "bg", $c.background_args()),
            ("args", "ul", $c.underline_args()),
            ("escape", "fg", $c.foreground_escape()),
            ("escape", "bg", $c.background_escape()),
            ("escape", "ul", $c.underline_escape()),
        ]
    };
}


pub fn print(recs: &[Rec]) {
    let n: usize = recs.iter().map(|r| r.count()).sum();
    eprintln!("{n} accessor results");
    println!("[{}]", recs.iter().map(|r| r.json()).collect::<Vec<_>>().join(",\n"));
}
