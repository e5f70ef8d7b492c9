//! Concurrent programs on the real library (C19, C20): parsing them and
//! executing one operation.
//!
//! A program is `support | main before | thread 1 | thread 2 ... | main after`,
//! operations are separated by blanks:
//! `SM:mode SD:stream GM GD D:how:layer,layer` with layer = stream/kinds.
use crate::Buf;
use colorz::mode::{self, ColorKind, Mode, Stream};
use colorz::{ansi, css, rgb, xterm, Color, Style, StyledValue};
use std::fmt::Write;

pub struct Program {
    pub support: [i32; 2],
    pub before: Vec<String>,
    pub threads: Vec<Vec<String>>,
    pub after: Vec<String>,
}

impl Program {
    pub fn parse(text: &str) -> Self {
        let p: Vec<Vec<String>> = text.split('|').map(|x| x.split_whitespace().map(String::from).collect()).collect();
        let n = p.len();
        let sup: Vec<i32> = p[0][0].split(',').map(|x| x.parse().unwrap()).collect();
        Program { support: [sup[0], sup[1]], before: p[1].clone(), threads: p[2..n - 1].to_vec(), after: p[n - 1].clone() }
    }
}

pub fn mode_of(s: &str) -> Mode {
    match s {
        "Detect" => Mode::Detect,
        "Always" => Mode::Always,
        "Never" => Mode::Never,
        _ => panic!("mode {s}"),
    }
}
pub fn mode_name(m: Mode) -> &'static str {
    match m {
        Mode::Detect => "Detect",
        Mode::Always => "Always",
        Mode::Never => "Never",
    }
}
pub fn stream_of(s: &str) -> Option<Stream> {
    Some(match s {
        "None" => return None,
        "Stdout" => Stream::Stdout,
        "Stderr" => Stream::Stderr,
        "AlwaysColor" => Stream::AlwaysColor,
        "NeverColor" => Stream::NeverColor,
        _ => panic!("stream {s}"),
    })
}
pub fn stream_name(s: Stream) -> &'static str {
    match s {
        Stream::Stdout => "Stdout",
        Stream::Stderr => "Stderr",
        Stream::AlwaysColor => "AlwaysColor",
        Stream::NeverColor => "NeverColor",
        _ => "?",
    }
}
fn kind_of(c: u8) -> ColorKind {
    match c {
        b'A' => ColorKind::Ansi,
        b'X' => ColorKind::Xterm,
        b'R' | b'C' => ColorKind::Rgb,
        _ => ColorKind::NoColor,
    }
}
fn color_of(c: u8) -> Option<Color> {
    Some(match c {
        b'A' => Color::Ansi(ansi::AnsiColor::Red),
        b'X' => Color::Xterm(xterm::XtermColor::from_code(99)),
        b'R' => Color::Rgb(rgb::RgbColor { red: 1, green: 20, blue: 255 }),
        b'C' => Color::Css(css::CssColor::Tomato),
        _ => return None,
    })
}
type Dyn = Style<Option<Color>, Option<Color>, Option<Color>>;
fn style_of(kinds: &str) -> Dyn {
    let k = kinds.as_bytes();
    let at = |i: usize| k.get(i).and_then(|&c| color_of(c));
    Style::new().fg(at(0)).bg(at(1)).underline_color(at(2))
}
fn yes(b: bool) -> &'static str {
    if b {
        "yes"
    } else {
        "no"
    }
}

/// The cheap operations, parsed (Miri is slow).
#[derive(Clone)]
pub enum Op {
    Sm(Mode),
    Sd(Stream),
    Gm,
    Gd,
    Ask(Option<Stream>, Vec<ColorKind>),
    Other(String),
}
impl Op {
    pub fn parse(op: &str) -> Op {
        let p: Vec<&str> = op.split(':').collect();
        match p[0] {
            "SM" => Op::Sm(mode_of(p[1])),
            "SD" => Op::Sd(stream_of(p[1]).unwrap()),
            "GM" => Op::Gm,
            "GD" => Op::Gd,
            "D" if p[1] == "m" => {
                let (s, k) = p[2].split_once('/').unwrap();
                Op::Ask(stream_of(s), k.bytes().map(kind_of).collect())
            }
            _ => Op::Other(op.into()),
        }
    }
    /// an index into RESULTS
    pub fn perform(&self) -> u8 {
        match self {
            Op::Sm(m) => {
                mode::set_coloring_mode(*m);
                0
            }
            Op::Sd(s) => {
                mode::set_default_stream(*s);
                0
            }
            Op::Gm => 1 + mode::get_coloring_mode() as u8,
            Op::Gd => 4 + mode::get_default_stream() as u8,
            Op::Ask(s, k) => 8 + mode::should_color(*s, k) as u8,
            Op::Other(op) => {
                let r = perform(op);
                RESULTS.iter().position(|x| *x == r).unwrap_or(14) as u8
            }
        }
    }
}
pub const RESULTS: [&str; 16] = [
    "ok", "Detect", "Always", "Never", "Stdout", "Stderr", "AlwaysColor", "NeverColor", "no", "yes", "yes,yes", "yes,no",
    "no,yes", "no,no", "garbled", "panic",
];

/// performs one operation
pub fn perform(op: &str) -> String {
    let p: Vec<&str> = op.split(':').collect();
    match p[0] {
        "SM" => {
            mode::set_coloring_mode(mode_of(p[1]));
            "ok".into()
        }
        #[cfg(feature = "std")]
        "ES" => {
            mode::set_coloring_mode_from_env();
            "ok".into()
        }
        "SD" => {
            mode::set_default_stream(stream_of(p[1]).unwrap());
            "ok".into()
        }
        "GM" => mode_name(mode::get_coloring_mode()).into(),
        "GD" => stream_name(mode::get_default_stream()).into(),
        "D" => {
            let layers: Vec<(Option<Stream>, &str)> = p[2]
                .split(',')
                .map(|l| {
                    let (s, k) = l.split_once('/').unwrap();
                    (stream_of(s), k)
                })
                .collect();
            let (s1, k1) = layers[0];
            match p[1] {
                "m" => {
                    let k: Vec<ColorKind> = k1.bytes().map(kind_of).collect();
                    yes(mode::should_color(s1, &k)).into()
                }
                "s" => yes(style_of(k1).should_color(s1)).into(),
                // a typed style
                "t" => yes(Style::new().fg(ansi::Red).should_color(s1)).into(),
                "f" => {
                    let st = style_of(k1).bold();
                    let mut out = Buf::<256>::new();
                    if write!(out, "{}", StyledValue::new("vwxyz", st, s1)).is_err() {
                        return "error".into();
                    }
                    let mut full = Buf::<256>::new();
                    write!(full, "{}vwxyz{}", st.apply(), st.clear()).unwrap();
                    if out.bytes() == b"vwxyz" {
                        "no".into()
                    } else if out.bytes() == full.bytes() {
                        "yes".into()
                    } else {
                        "garbled".into()
                    }
                }
                "n" => {
                    let (s2, k2) = layers[1];
                    let (a, b) = (style_of(k1).italics(), style_of(k2).strikethrough());
                    let mut out = Buf::<256>::new();
                    if write!(out, "{:?}", StyledValue::new(StyledValue::new(57, b, s2), a, s1)).is_err() {
                        return "error".into();
                    }
                    for (x, y) in [(true, true), (true, false), (false, true), (false, false)] {
                        let mut want = Buf::<256>::new();
                        if x {
                            write!(want, "{}", a.apply()).unwrap()
                        }
                        if y {
                            write!(want, "{}", b.apply()).unwrap()
                        }
                        write!(want, "57").unwrap();
                        if y {
                            write!(want, "{}", b.clear()).unwrap()
                        }
                        if x {
                            write!(want, "{}", a.clear()).unwrap()
                        }
                        if want.bytes() == out.bytes() {
                            return format!("{},{}", yes(x), yes(y));
                        }
                    }
                    "garbled".into()
                }
                _ => panic!("how {}", p[1]),
            }
        }
        _ => panic!("op {op}"),
    }
}
