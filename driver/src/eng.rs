//! A table-driven SGR terminal.  The tables come from the specification
//! (ExportTables.tla); this interpreter is validated against Sgr.tla by
//! TraceEngine.tla.
//!
//! It computes what a byte string does to *any* terminal state: which colors
//! it sets, which effects it switches on and off.
use std::collections::HashMap;

/// a terminal color: 0 = untouched
pub type TermColor = u32;
pub const UNTOUCHED: TermColor = 0;
pub const DEFAULT: TermColor = 0xffff_ffff;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Delta {
    /// fg, bg, underline color
    pub color: [TermColor; 3],
    /// effects switched on / off
    pub on: u16,
    pub off: u16,
    /// everything was reset (and the above happened after it)
    pub reset: bool,
    /// not a sequence of complete, well-formed escapes
    pub bad: bool,
    /// characters that are not part of an escape
    pub text: usize,
}

#[derive(Clone, Copy)]
enum Class {
    Bad,
    Reset,
    On(u16),
    Off(u16),
    Color(u8, TermColor),
    Ext(u8),
}

pub struct Tables {
    params: Vec<Class>,
    /// [color][layer]
    pub ansi: Vec<[TermColor; 3]>,
    pub xterm: Vec<[TermColor; 3]>,
    pub css: Vec<[TermColor; 3]>,
    /// off mask of each effect's group
    pub group: Vec<u16>,
    pub any_underline: u16,
    pub dec: Vec<Vec<u8>>,
    pub clear_all: Vec<u8>,
    /// what precedes the three components of an RGB color, per layer
    pub rgb_prefix: Vec<Vec<u8>>,
}

impl Tables {
    /// the tables in the text form written by `lib/p_render.py`
    pub fn read(path: &str) -> Tables {
        let text = std::fs::read_to_string(path).unwrap();
        let mut t = Tables {
            params: vec![],
            ansi: vec![],
            xterm: vec![],
            css: vec![],
            group: vec![],
            any_underline: 0,
            dec: vec![],
            clear_all: vec![],
            rgb_prefix: vec![],
        };
        for l in text.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            let n = |i: usize| w[i].parse::<u32>().unwrap();
            match w[0] {
                "param" => t.params.push(match w[1] {
                    "reset" => Class::Reset,
                    "on" => Class::On(n(2) as u16),
                    "off" => Class::Off(n(2) as u16),
                    "color" => Class::Color(n(2) as u8, n(3)),
                    "ext" => Class::Ext(n(2) as u8),
                    _ => Class::Bad,
                }),
                "ansi" => t.ansi.push([n(1), n(2), n(3)]),
                "xterm" => t.xterm.push([n(1), n(2), n(3)]),
                "css" => t.css.push([n(1), n(2), n(3)]),
                "group" => t.group.push(n(1) as u16),
                "anyul" => t.any_underline = n(1) as u16,
                "dec" => t.dec.push(w[1].as_bytes().to_vec()),
                "rgbprefix" => t.rgb_prefix.push(w[1].as_bytes().to_vec()),
                "clearall" => t.clear_all = (1..w.len()).map(|i| n(i) as u8).collect(),
                _ => panic!("table line {l}"),
            }
        }
        t
    }

    pub fn groups(&self, eff: u16) -> u16 {
        let mut m = 0;
        for (i, g) in self.group.iter().enumerate() {
            if eff & (1 << i) != 0 {
                m |= g
            }
        }
        m
    }

    fn param(&self, d: &mut Delta, ext: &mut ([u32; 5], usize), p: u32) {
        if d.bad {
            return;
        }
        if ext.1 == 0 {
            match self.params.get(p as usize).copied().unwrap_or(Class::Bad) {
                Class::Bad => d.bad = true,
                Class::Reset => *d = Delta { reset: true, text: d.text, ..Delta::default() },
                Class::On(m) => {
                    d.on |= m;
                    d.off &= !m
                }
                Class::Off(m) => {
                    d.off |= m;
                    d.on &= !m
                }
                Class::Color(s, c) => d.color[s as usize] = c,
                Class::Ext(s) => {
                    ext.0[0] = s as u32;
                    ext.1 = 1
                }
            }
        } else {
            ext.0[ext.1] = p;
            ext.1 += 1;
            let x = &ext.0;
            let slot = x[0] as usize;
            let ok = match ext.1 {
                2 => p == 2 || p == 5,
                _ => p <= 255,
            };
            if !ok {
                d.bad = true
            } else if ext.1 == 3 && x[1] == 5 {
                d.color[slot] = 0x0200_0000 | p;
                ext.1 = 0
            } else if ext.1 == 5 {
                d.color[slot] = 0x0300_0000 | x[2] << 16 | x[3] << 8 | p;
                ext.1 = 0
            }
        }
    }

    pub fn run(&self, bytes: &[u8]) -> Delta {
        let mut d = Delta::default();
        // 0 ground, 1 esc, 2 csi, 3 number
        let mut lex = 0;
        let mut num = 0u32;
        let mut ext = ([0; 5], 0);
        for &b in bytes {
            if d.bad {
                return d;
            }
            match (lex, b) {
                (0, 0x1b) => lex = 1,
                (0, _) => d.text += 1,
                (1, b'[') => lex = 2,
                (2, b'0'..=b'9') => {
                    lex = 3;
                    num = (b - b'0') as u32
                }
                (3, b'0'..=b'9') => {
                    if num > 999 {
                        d.bad = true
                    } else {
                        num = num * 10 + (b - b'0') as u32
                    }
                }
                (3, b';') => {
                    self.param(&mut d, &mut ext, num);
                    lex = 2
                }
                (3, b'm') => {
                    self.param(&mut d, &mut ext, num);
                    lex = 0;
                    if ext.1 != 0 {
                        d.bad = true
                    }
                }
                _ => d.bad = true,
            }
        }
        if lex != 0 {
            d.bad = true
        }
        d
    }
}

/// A color as the specification names it
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Lc {
    None,
    Ansi(u8),
    Xterm(u8),
    Css(u8),
    Rgb(u8, u8, u8),
}
impl Lc {
    pub fn on_terminal(self, t: &Tables, layer: usize) -> TermColor {
        match self {
            Lc::None => UNTOUCHED,
            Lc::Ansi(i) => t.ansi[i as usize][layer],
            Lc::Xterm(i) => t.xterm[i as usize][layer],
            Lc::Css(i) => t.css[i as usize][layer],
            Lc::Rgb(r, g, b) => 0x0300_0000 | (r as u32) << 16 | (g as u32) << 8 | b as u32,
        }
    }
    pub fn json(self, css: &[&str]) -> String {
        match self {
            Lc::None => "[\"none\"]".into(),
            Lc::Ansi(i) => format!("[\"ansi\",{i}]"),
            Lc::Xterm(i) => format!("[\"xterm\",{i}]"),
            Lc::Css(i) => format!("[\"css\",\"{}\"]", css[i as usize]),
            Lc::Rgb(r, g, b) => format!("[\"rgb\",{r},{g},{b}]"),
        }
    }
}

/// A style as the specification describes it
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Ls {
    pub fg: Lc,
    pub bg: Lc,
    pub ul: Lc,
    pub eff: u16,
}
impl Ls {
    pub fn shows_ul(&self, t: &Tables) -> bool {
        self.ul != Lc::None && self.eff & t.any_underline != 0
    }
    pub fn is_plain(&self) -> bool {
        self.fg == Lc::None && self.bg == Lc::None && self.eff == 0
    }
    pub fn applied(&self, t: &Tables) -> Delta {
        Delta {
            color: [
                self.fg.on_terminal(t, 0),
                self.bg.on_terminal(t, 1),
                if self.shows_ul(t) { self.ul.on_terminal(t, 2) } else { UNTOUCHED },
            ],
            on: self.eff,
            ..Delta::default()
        }
    }
    pub fn cleared(&self, t: &Tables) -> Delta {
        let d = |b| if b { DEFAULT } else { UNTOUCHED };
        Delta {
            color: [d(self.fg != Lc::None), d(self.bg != Lc::None), d(self.shows_ul(t))],
            off: t.groups(self.eff),
            ..Delta::default()
        }
    }
    pub fn json(&self, css: &[&str], eff: &[&str]) -> String {
        let e: Vec<String> =
            (0..eff.len()).filter(|i| self.eff & (1 << i) != 0).map(|i| format!("\"{}\"", eff[i])).collect();
        format!(
            "{{\"fg\":{},\"bg\":{},\"ul\":{},\"eff\":[{}]}}",
            self.fg.json(css),
            self.bg.json(css),
            self.ul.json(css),
            e.join(",")
        )
    }
}

#[derive(Default)]
pub struct Report {
    pub seen: HashMap<String, usize>,
    pub lines: Vec<String>,
}
impl Report {
    /// reports at most a few problems of each kind
    pub fn bad(&mut self, tag: &str, what: impl FnOnce() -> String) {
        let n = self.seen.entry(tag.to_string()).or_insert(0);
        *n += 1;
        if *n <= 3 {
            self.lines.push(format!("BAD {tag} {}", what()));
        }
    }
    pub fn merge(&mut self, o: Report) {
        for (k, n) in o.seen {
            *self.seen.entry(k).or_insert(0) += n
        }
        self.lines.extend(o.lines)
    }
}
