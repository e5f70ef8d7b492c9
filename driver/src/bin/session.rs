//! Traces for TLC.
//!   session sessions SEED N LEN       random nested sessions
//!   session engine TABLES SEED N      the interpreter's own answers
use colorz_driver::eng::*;
use colorz_driver::pal::*;
use colorz_driver::rend::*;
use colorz_driver::*;

seam!();

/// random nested sessions, for TLC (TraceSession.tla)
fn sessions(seed: u64, n: usize, len: usize) {
    let mut r = Rng(seed);
    println!("[");
    for k in 0..n {
        let mut evs: Vec<String> = vec![];
        let mut stack: Vec<(Ls, Style, u8)> = vec![];
        while evs.len() < len {
            let x = r.below(100);
            if stack.is_empty() || (x < 55 && stack.len() < 5) {
                let few = |r: &mut Rng| if r.below(3) == 0 { Lc::None } else { any_color(r) };
                let eff = match r.below(4) {
                    0 => 1 << r.below(13),
                    1 => 0,
                    2 => (r.below(8192) & r.below(8192)) as u16,
                    _ => r.below(8192) as u16,
                };
                let ls = Ls { fg: few(&mut r), bg: few(&mut r), ul: few(&mut r), eff };
                let st = Style::new().fg(color(ls.fg)).bg(color(ls.bg)).underline_color(color(ls.ul)).effect_flags(flags(eff));
                let mut ty = r.below(8) as u8;
                if cfg!(feature = "strip-colors") && ty & 3 == 3 {
                    ty &= 4; // styled values write no escapes in this build
                }
                evs.push(emit("open", &ls, st, ty));
                stack.push((ls, st, ty));
            } else if x < 96 {
                let (ls, st, ty) = stack.pop().unwrap();
                evs.push(emit("close", &ls, st, ty));
            } else {
                let mut b = B::new();
                let _ = write!(b, "{}", Style::clear_all());
                evs.push(format!("{{\"o\":\"clearall\",\"b\":{},\"al\":0}}", json_bytes(b.bytes())));
            }
        }
        println!("[{}]{}", evs.join(","), if k + 1 < n { "," } else { "" });
    }
    println!("]");

    // the four ways of writing the same style
    fn emit(o: &str, ls: &Ls, st: Style, ty: u8) -> String {
        fn w<F: OptionalColor, G: OptionalColor, U: OptionalColor>(o: &str, dbg: bool, st: Style<F, G, U>) -> (B, u64, bool) {
            let mut b = B::new();
            let n = allocs();
            let r = match (o, dbg) {
                ("open", false) => write!(b, "{}", st.apply()),
                ("open", true) => write!(b, "{:?}", st.apply()),
                (_, false) => write!(b, "{}", st.clear()),
                (_, true) => write!(b, "{:?}", st.clear()),
            };
            let n = allocs() - n;
            (b, n, r.is_ok())
        }
        let dbg = ty & 4 != 0;
        let (b, n, ok) = match (ty & 3, st.foreground, st.background) {
            (1, Some(f), None) => w(o, dbg, st.fg(f).bg(NoColor)),
            (1, None, Some(g)) => w(o, dbg, st.fg(NoColor).bg(g)),
            (1, None, None) => w(o, dbg, st.fg(NoColor).bg(NoColor)),
            (1 | 2, Some(f), Some(g)) => w(o, dbg, st.fg(f).bg(g)),
            (3, _, _) => {
                // through a styled value
                let mut b = B::new();
                let n = allocs();
                let r = write!(b, "{}", StyledValue::new(Mark, st, Some(Stream::AlwaysColor)));
                let n = allocs() - n;
                let p = b.bytes().iter().position(|x| *x == b'|').unwrap_or(0);
                let mut half = B::new();
                let part = if o == "open" { &b.bytes()[..p] } else { &b.bytes()[p + 1..] };
                let _ = half.write_str(std::str::from_utf8(part).unwrap_or("?"));
                (half, n, r.is_ok())
            }
            _ => w(o, dbg, st),
        };
        format!(
            "{{\"o\":\"{o}\",\"st\":{},\"b\":{},\"plain\":{},\"al\":{n},\"ok\":{ok}}}",
            ls.json(&CSS_NAMES, &EFFECT_NAMES),
            json_bytes(b.bytes()),
            st.is_plain()
        )
    }
}
struct Mark;
impl std::fmt::Display for Mark {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("|")
    }
}

/// what this interpreter makes of random byte strings, for TLC (TraceEngine.tla)
fn engine(t: &Tables, seed: u64, n: usize) {
    let mut r = Rng(seed);
    let codes = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 21, 22, 23, 24, 25, 27, 28, 29, 30, 37, 38, 38, 39, 40, 47, 48, 48, 49, 53, 55, 58, 58, 59, 73, 74, 75, 90, 97, 100, 107, 255, 256, 2, 5, 2, 5];
    println!("[");
    for k in 0..n {
        let mut s = String::new();
        for _ in 0..1 + r.below(3) {
            s.push_str("\x1b[");
            for j in 0..1 + r.below(6) {
                if j > 0 {
                    s.push(';');
                }
                let c = codes[r.below(codes.len())];
                s.push_str(&c.to_string());
                if (c == 38 || c == 48 || c == 58) && r.below(4) > 0 {
                    if r.below(2) == 0 {
                        s.push_str(&format!(";5;{}", r.below(257)))
                    } else {
                        s.push_str(&format!(";2;{};{};{}", r.below(256), r.below(256), r.below(257)))
                    }
                }
            }
            s.push('m');
        }
        let mut b = s.into_bytes();
        if r.below(3) == 0 {
            let i = r.below(b.len());
            b[i] = *b"\x1b[;m0123456789x ".get(r.below(16)).unwrap();
        }
        let d = t.run(&b);
        let c = |x: TermColor| match x {
            UNTOUCHED => "[\"untouched\"]".into(),
            DEFAULT => "[\"default\"]".to_string(),
            x if x >> 24 == 1 => format!("[\"idx\",{}]", x & 255),
            x if x >> 24 == 2 => format!("[\"pal\",{}]", x & 255),
            x => format!("[\"rgb\",{},{},{}]", x >> 16 & 255, x >> 8 & 255, x & 255),
        };
        let m = |x: u16| {
            let v: Vec<String> = (0..13).filter(|i| x & (1 << i) != 0).map(|i| format!("\"{}\"", EFFECT_NAMES[i])).collect();
            format!("[{}]", v.join(","))
        };
        println!(
            "{{\"b\":{},\"fg\":{},\"bg\":{},\"ul\":{},\"on\":{},\"off\":{},\"reset\":{},\"bad\":{},\"text\":{}}}{}",
            json_bytes(&b), c(d.color[0]), c(d.color[1]), c(d.color[2]), m(d.on), m(d.off), d.reset, d.bad, d.text,
            if k + 1 < n { "," } else { "" }
        );
    }
    println!("]");
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    clean_env();
    quiet_panics();
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    match a[1].as_str() {
        "sessions" => sessions(num(2), num(3) as usize, num(4) as usize),
        "engine" => engine(&Tables::read(&a[2]), num(3), num(4) as usize),
        _ => panic!("command"),
    }
}
