//! Escapes put together by hand from the pieces the library hands out, for
//! TracePieces.tla.
//!   pieces SEED N LEN OUT
use colorz::{ansi, css, rgb, xterm, Color, ColorSpec, Colorize, Effect, OptionalColor, Style, WriteColor};
use colorz_driver::acc::Fmt;
use colorz_driver::eng::{Lc, Ls};
use colorz_driver::lay::*;
use colorz_driver::pal::*;
use colorz_driver::rend::any_color;
use colorz_driver::*;

seam!();

/// one piece: the specification's description, the codes and the escape
/// (empty if there is no such accessor), and where they are from
struct Piece {
    json: String,
    args: Option<String>,
    escape: Option<String>,
    via: &'static str,
}

fn spec<C: ColorSpec>(l: usize, c: C) -> (String, String) {
    let (a, e) = match l {
        0 => (c.foreground_args(), c.foreground_escape()),
        1 => (c.background_args(), c.background_escape()),
        _ => (c.underline_args(), c.underline_escape()),
    };
    (a.into(), e.into())
}
fn wcol<C: WriteColor>(l: usize, c: C) -> (String, String) {
    let a = Fmt(move |f: &mut std::fmt::Formatter<'_>| match l {
        0 => c.fmt_foreground_args(f),
        1 => c.fmt_background_args(f),
        _ => c.fmt_underline_args(f),
    });
    let e = Fmt(move |f: &mut std::fmt::Formatter<'_>| match l {
        0 => c.fmt_foreground(f),
        1 => c.fmt_background(f),
        _ => c.fmt_underline(f),
    });
    (a.to_string(), e.to_string())
}
macro_rules! own {
    ($l:expr, $c:expr) => {
        match $l {
            0 => ($c.foreground_args().to_string(), $c.foreground_escape().to_string()),
            1 => ($c.background_args().to_string(), $c.background_escape().to_string()),
            _ => ($c.underline_args().to_string(), $c.underline_escape().to_string()),
        }
    };
}
macro_rules! consts {
    ($l:expr, $t:path) => {{
        use $t as T;
        match $l {
            0 => (T::FOREGROUND_ARGS.to_string(), T::FOREGROUND_ESCAPE.to_string()),
            1 => (T::BACKGROUND_ARGS.to_string(), T::BACKGROUND_ESCAPE.to_string()),
            _ => (T::UNDERLINE_ARGS.to_string(), T::UNDERLINE_ESCAPE.to_string()),
        }
    }};
}

macro_rules! ansi_consts {
    ($l:expr, $t:path) => {{
        use $t as T;
        match $l {
            0 => (T::FOREGROUND_ARGS.to_string(), T::FOREGROUND_ESCAPE.to_string()),
            1 => (T::BACKGROUND_ARGS.to_string(), T::BACKGROUND_ESCAPE.to_string()),
            _ => own!($l, T::DYNAMIC),
        }
    }};
}

fn color_piece(l: usize, r: &mut Rng) -> Piece {
    let layer = ["fg", "bg", "ul"][l];
    let (c, (args, escape), via) = match r.below(9) {
        0 => {
            let (c, x) = match r.below(5) {
                0 => (Lc::Ansi(1), ansi_consts!(l, ansi::Red)),
                1 => (Lc::Ansi(16), ansi_consts!(l, ansi::Default)),
                2 => (Lc::Xterm(51), consts!(l, xterm::Aqua)),
                3 => (Lc::Css(0), consts!(l, css::AliceBlue)),
                _ => (Lc::Rgb(0, 10, 255), rgbs::<0, 10, 255>(l)),
            };
            (c, x, "constants of the type")
        }
        1 => {
            let (c, x) = match r.below(5) {
                0 => (Lc::Ansi(1), spec(l, ansi::Red)),
                1 => (Lc::Ansi(16), spec(l, ansi::Default)),
                2 => (Lc::Xterm(51), spec(l, xterm::Aqua)),
                3 => (Lc::Css(0), spec(l, css::AliceBlue)),
                _ => (Lc::Rgb(0, 10, 255), spec(l, rgb::Rgb::<0, 10, 255>)),
            };
            (c, x, "ColorSpec of the type")
        }
        2 => {
            let (c, x) = match r.below(5) {
                0 => (Lc::Ansi(1), wcol(l, ansi::Red)),
                1 => (Lc::Ansi(16), wcol(l, ansi::Default)),
                2 => (Lc::Xterm(51), wcol(l, xterm::Aqua)),
                3 => (Lc::Css(0), wcol(l, css::AliceBlue)),
                _ => (Lc::Rgb(0, 10, 255), wcol(l, rgb::Rgb::<0, 10, 255>)),
            };
            (c, x, "WriteColor of the type")
        }
        n => {
            let c = any_color(r);
            let x = match (n, c) {
                (3 | 4, Lc::Ansi(i)) => Some((own!(l, ANSI[i as usize]), "methods of the color")),
                (3 | 4, Lc::Xterm(i)) => Some((own!(l, XTERM[i as usize]), "methods of the color")),
                (3 | 4, Lc::Css(i)) => Some((own!(l, CSS[i as usize]), "methods of the color")),
                (5, Lc::Ansi(i)) => Some((spec(l, ANSI[i as usize]), "ColorSpec of the color")),
                (5, Lc::Xterm(i)) => Some((spec(l, XTERM[i as usize]), "ColorSpec of the color")),
                (5, Lc::Css(i)) => Some((spec(l, CSS[i as usize]), "ColorSpec of the color")),
                (6, Lc::Ansi(i)) => Some((wcol(l, ANSI[i as usize]), "WriteColor of the color")),
                (6, Lc::Xterm(i)) => Some((wcol(l, XTERM[i as usize]), "WriteColor of the color")),
                (6, Lc::Css(i)) => Some((wcol(l, CSS[i as usize]), "WriteColor of the color")),
                (3..=6, Lc::Rgb(red, green, blue)) => Some((wcol(l, rgb::RgbColor { red, green, blue }), "WriteColor of the color")),
                (7, _) => color(c).and_then(|x| OptionalColor::get(Some(Some(x)))).map(|x| (wcol(l, x), "OptionalColor::get")),
                _ => color(c).map(|x: Color| (wcol(l, x), "WriteColor of Color")),
            };
            let (x, via) = x.unwrap();
            (c, x, via)
        }
    };
    Piece { json: format!("[\"color\",\"{layer}\",{}]", lcj(c)), args: Some(args), escape: Some(escape), via }
}
fn rgbs<const R: u8, const G: u8, const B: u8>(l: usize) -> (String, String) {
    type T<const R: u8, const G: u8, const B: u8> = rgb::Rgb<R, G, B>;
    match l {
        0 => (T::<R, G, B>::FOREGROUND_ARGS.into(), T::<R, G, B>::FOREGROUND_ESCAPE.into()),
        1 => (T::<R, G, B>::BACKGROUND_ARGS.into(), T::<R, G, B>::BACKGROUND_ESCAPE.into()),
        _ => (T::<R, G, B>::UNDERLINE_ARGS.into(), T::<R, G, B>::UNDERLINE_ESCAPE.into()),
    }
}
fn effect_piece(e: Effect, off: bool) -> Piece {
    let name = EFFECT_NAMES[effect_index(e)];
    if off {
        Piece {
            json: format!("[\"off\",\"{name}\"]"),
            args: Some(e.clear_args().into()),
            escape: Some(e.clear_escape().into()),
            via: "Effect::clear_args, clear_escape",
        }
    } else {
        Piece {
            json: format!("[\"on\",\"{name}\"]"),
            args: Some(e.apply_args().into()),
            escape: Some(e.apply_escape().into()),
            via: "Effect::apply_args, apply_escape",
        }
    }
}
fn style_piece(r: &mut Rng) -> Piece {
    let few = |r: &mut Rng| if r.below(3) == 0 { Lc::None } else { any_color(r) };
    let ls = Ls { fg: few(r), bg: few(r), ul: few(r), eff: [0, 1 << r.below(13), r.below(8192)][r.below(3)] as u16 };
    let st = Style::new().fg(color(ls.fg)).bg(color(ls.bg)).underline_color(color(ls.ul)).effect_flags(flags(ls.eff));
    let json = ls.json(&CSS_NAMES, &EFFECT_NAMES);
    if r.below(2) == 0 {
        let v = "x".style_with(st).stream(colorz::mode::Stream::AlwaysColor);
        let e = match r.below(2) {
            0 if !cfg!(feature = "strip-colors") => {
                let s = v.to_string();
                s[..s.rfind('x').unwrap_or(0)].to_string()
            }
            _ => st.apply().to_string(),
        };
        Piece { json: format!("[\"open\",{json}]"), args: None, escape: Some(e), via: "Style::apply" }
    } else {
        Piece { json: format!("[\"close\",{json}]"), args: None, escape: Some(st.clear().to_string()), via: "Style::clear" }
    }
}
fn piece(r: &mut Rng) -> Piece {
    match r.below(16) {
        0..=4 => effect_piece(EFFECTS[r.below(13)], false),
        5..=7 => effect_piece(EFFECTS[r.below(13)], true),
        8..=12 => color_piece(r.below(3), r),
        13 | 14 => style_piece(r),
        _ => Piece { json: "[\"reset\"]".into(), args: None, escape: Some(Style::clear_all().to_string()), via: "Style::clear_all" },
    }
}
/// an event: some pieces, and the bytes sent to the terminal
fn event(ps: &[Piece], b: &str) -> String {
    let j: Vec<&str> = ps.iter().map(|p| p.json.as_str()).collect();
    let v: Vec<String> = ps.iter().map(|p| format!("{:?}", p.via)).collect();
    format!("{{\"ps\":[{}],\"b\":{},\"via\":[{}]}}", j.join(","), json_bytes(b.as_bytes()), v.join(","))
}
/// the same escape, whole or put together by hand
fn alone(p: Piece, from_args: bool) -> String {
    let b = match (&p.args, &p.escape) {
        (Some(a), _) if from_args => format!("\x1b[{a}m"),
        (_, Some(e)) => e.clone(),
        _ => String::new(),
    };
    event(&[p], &b)
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    clean_env();
    quiet_panics();
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, n, len) = (num(0), num(1), num(2) as usize);
    let path = a[3].clone();
    let done = std::panic::catch_unwind(move || {
        let r = &mut Rng(seed);
        let mut traces: Vec<String> = vec![];
        // every effect on and off again, from a plain terminal and with everything on
        for e in EFFECTS {
            for from_args in [false, true] {
                for all in [false, true] {
                    let mut evs = vec![];
                    if all {
                        let mut ps: Vec<Piece> = EFFECTS.iter().map(|e| effect_piece(*e, false)).collect();
                        ps.extend((0..3).map(|l| color_piece(l, r)));
                        let args: Vec<String> = ps.iter().map(|p| p.args.clone().unwrap()).collect();
                        evs.push(event(&ps, &format!("\x1b[{}m", args.join(";"))));
                    }
                    for off in [false, true, false, false, true, true] {
                        evs.push(alone(effect_piece(e, off), from_args));
                    }
                    traces.push(evs.join(","))
                }
            }
        }
        for _ in 0..n {
            let mut evs = vec![];
            while evs.len() < len {
                let mut ps = vec![piece(r)];
                while ps.iter().all(|p| p.args.is_some()) && r.below(3) > 0 && ps.len() < 6 {
                    let p = piece(r);
                    if p.args.is_some() {
                        ps.push(p)
                    }
                }
                if ps.len() == 1 {
                    let h = r.below(2) == 0;
                    evs.push(alone(ps.remove(0), h));
                } else {
                    let args: Vec<String> = ps.iter().map(|p| p.args.clone().unwrap()).collect();
                    evs.push(event(&ps, &format!("\x1b[{}m", args.join(";"))))
                }
            }
            traces.push(evs.join(","));
        }
        println!("STAT histories {}", traces.len());
        std::fs::write(path, format!("[[{}]]", traces.join("],\n["))).unwrap();
    });
    if let Err(e) = done {
        let s = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
        println!("BAD C25 {{\"what\":\"panic while recording pieces\",\"message\":{s:?}}}");
    }
    println!("DONE");
}
