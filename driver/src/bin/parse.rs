//! The text parsers against the machines exported from Parse.tla.
//!   parse exhaust MACHINES SEED SCALE PROP   generated texts; differences are BAD lines
//!   parse records MACHINES SEED N            records for TLC (TraceParse.tla)
use colorz::mode::{Mode, Stream};
use colorz::Color;
use colorz_driver::eng::*;
use colorz_driver::pal::*;
use colorz_driver::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

seam!();

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Res {
    Error(&'static str),
    Ansi(u32),
    Xterm(u32),
    Rgb(u32),
    Word(&'static str),
}
impl Res {
    fn json(self) -> String {
        match self {
            Res::Error("") => "[\"error\"]".into(),
            Res::Error(e) => format!("[\"error\",\"{e}\"]"),
            Res::Ansi(i) => format!("[\"ansi\",{i}]"),
            Res::Xterm(i) => format!("[\"xterm\",{i}]"),
            Res::Rgb(v) => format!("[\"rgb\",{},{},{}]", v >> 16 & 255, v >> 8 & 255, v & 255),
            Res::Word(w) => format!("[\"ok\",\"{w}\"]"),
        }
    }
}

#[derive(Clone, Copy)]
enum Out {
    Is(Res),
    XtermReg,
    RgbReg,
}
struct Machine {
    /// index 0 is the dead state
    next: Vec<[(u16, u8, u8); 256]>,
    out: Vec<Out>,
    start: usize,
    /// texts with a result that is not an error
    words: Vec<Vec<u8>>,
}
impl Machine {
    fn run(&self, s: &[u8]) -> Res {
        let (mut q, mut r) = (self.start, 0u32);
        for b in s {
            let (n, m, a) = self.next[q][*b as usize];
            q = n as usize;
            r = if r > 0xff_ffff { 0 } else { r * m as u32 + a as u32 };
        }
        match self.out[q] {
            Out::Is(r) => r,
            Out::XtermReg => Res::Xterm(r),
            Out::RgbReg => Res::Rgb(r),
        }
    }
}

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

/// lines: `machine NAME` `dead RESULT..` `state ID START RESULT..` `edge FROM TO M A BYTES..` `word BYTES..`
fn machines(path: &str) -> HashMap<String, Machine> {
    let mut out: HashMap<String, Machine> = HashMap::new();
    let mut cur = String::new();
    for l in std::fs::read_to_string(path).unwrap().lines() {
        let w: Vec<&str> = l.split(' ').collect();
        let n = |i: usize| w[i].parse::<usize>().unwrap();
        let res = |i: usize| match w[i] {
            "error" => Out::Is(Res::Error(w.get(i + 1).map(|x| leak(x)).unwrap_or(""))),
            "ansi" => Out::Is(Res::Ansi(n(i + 1) as u32)),
            "xterm" if w.len() > i + 1 => Out::Is(Res::Xterm(n(i + 1) as u32)),
            "xterm" => Out::XtermReg,
            "rgb" => Out::RgbReg,
            "ok" => Out::Is(Res::Word(leak(w[i + 1]))),
            x => panic!("{x}"),
        };
        if w[0] == "machine" {
            cur = w[1].to_string();
            out.insert(cur.clone(), Machine { next: vec![[(0, 1, 0); 256]], out: vec![], start: 0, words: vec![] });
            continue;
        }
        let m = out.get_mut(&cur).unwrap();
        match w[0] {
            "dead" => m.out.push(res(1)),
            "state" => {
                assert_eq!(n(1), m.out.len());
                m.out.push(res(3));
                m.next.push([(0, 1, 0); 256]);
                if w[2] == "1" {
                    m.start = n(1)
                }
            }
            "edge" => {
                for k in 5..w.len() {
                    m.next[n(1)][n(k)] = (n(2) as u16, n(3) as u8, n(4) as u8)
                }
            }
            "word" => m.words.push((1..w.len()).map(|k| n(k) as u8).collect()),
            x => panic!("{x}"),
        }
    }
    out
}

fn color(s: &str) -> Res {
    match al(|| s.parse::<Color>()) {
        Err(e) => Res::Error(match e {
            colorz::ParseColorError::InvalidHexDigit => "InvalidHexDigit",
            colorz::ParseColorError::U8Overflow => "U8Overflow",
            colorz::ParseColorError::UnknownColor => "UnknownColor",
            #[allow(unreachable_patterns)]
            _ => "?",
        }),
        Ok(c) => match logical(Some(c)) {
            Lc::Ansi(i) => Res::Ansi(i as u32),
            Lc::Xterm(i) => Res::Xterm(i as u32),
            Lc::Rgb(r, g, b) => Res::Rgb((r as u32) << 16 | (g as u32) << 8 | b as u32),
            _ => Res::Word("?"),
        },
    }
}
fn mode_res(m: Option<Mode>) -> Res {
    match m {
        None => Res::Error(""),
        Some(Mode::Detect) => Res::Word("Detect"),
        Some(Mode::Always) => Res::Word("Always"),
        Some(Mode::Never) => Res::Word("Never"),
        #[allow(unreachable_patterns)]
        Some(_) => Res::Word("?"),
    }
}
fn stream_res(m: Option<Stream>) -> Res {
    match m {
        None => Res::Error(""),
        Some(Stream::Stdout) => Res::Word("Stdout"),
        Some(Stream::Stderr) => Res::Word("Stderr"),
        Some(Stream::AlwaysColor) => Res::Word("AlwaysColor"),
        Some(Stream::NeverColor) => Res::Word("NeverColor"),
        #[allow(unreachable_patterns)]
        Some(_) => Res::Word("?"),
    }
}

/// what the library says; "differ" if its byte and string parsers disagree
fn library(mc: &str, s: &[u8]) -> Option<Res> {
    match mc {
        "color" => std::str::from_utf8(s).ok().map(color),
        "mode" => {
            let r = mode_res(al(|| Mode::from_ascii_bytes(s)).ok());
            if let Ok(t) = std::str::from_utf8(s) {
                if mode_res(al(|| t.parse()).ok()) != r {
                    return Some(Res::Word("differ"));
                }
            }
            Some(r)
        }
        _ => {
            let r = stream_res(al(|| Stream::from_ascii_bytes(s)).ok());
            if let Ok(t) = std::str::from_utf8(s) {
                if stream_res(al(|| t.parse()).ok()) != r {
                    return Some(Res::Word("differ"));
                }
            }
            Some(r)
        }
    }
}
fn guarded(mc: &str, s: &[u8]) -> Option<Res> {
    std::panic::catch_unwind(|| library(mc, s)).unwrap_or(Some(Res::Word("panic")))
}

struct Cx<'a> {
    mc: &'a str,
    m: &'a Machine,
    prop: &'a str,
    tried: AtomicU64,
    accepted: AtomicU64,
    rep: Mutex<Report>,
}
impl Cx<'_> {
    /// tries one text
    #[inline]
    fn one(&self, s: &[u8], n: &mut (u64, u64)) {
        let Some(got) = library(self.mc, s) else { return };
        n.0 += 1;
        let want = self.m.run(s);
        if !matches!(want, Res::Error(_)) {
            n.1 += 1
        }
        if got != want {
            self.rep.lock().unwrap().bad(self.prop, || {
                format!("{{\"parser\":\"{}\",\"text\":{:?},\"bytes\":{},\"library\":{},\"specification\":{}}}",
                    self.mc, String::from_utf8_lossy(s), json_bytes(s), got.json(), want.json())
            })
        }
    }
    /// runs `f(k)` for k in 0..n on all cores
    fn par(&self, n: usize, f: impl Fn(usize, &mut dyn FnMut(&[u8])) + Sync) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for _ in 0..8 {
                sc.spawn(|| {
                    let mut c = (0, 0);
                    loop {
                        let k = next.fetch_add(1, Ordering::SeqCst);
                        if k >= n {
                            break;
                        }
                        let mut last: Vec<u8> = vec![];
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            f(k, &mut |s| {
                                last.clear();
                                last.extend_from_slice(s);
                                self.one(s, &mut c)
                            })
                        }));
                        if r.is_err() {
                            self.rep.lock().unwrap().bad(self.prop, || {
                                format!("{{\"parser\":\"{}\",\"panics\":true,\"bytes\":{}}}", self.mc, json_bytes(&last))
                            })
                        }
                    }
                    self.tried.fetch_add(c.0, Ordering::SeqCst);
                    self.accepted.fetch_add(c.1, Ordering::SeqCst);
                });
            }
        });
    }
}

/// all texts over `alphabet` of exactly `len` bytes
fn product(cx: &Cx, alphabet: &[u8], prefix: &[u8], len: usize) {
    let a = alphabet.len();
    cx.par(if len == 0 { 1 } else { a }, |k, try_| {
        let mut s = prefix.to_vec();
        let p = s.len();
        s.resize(p + len, alphabet[0]);
        if len > 0 {
            s[p] = alphabet[k]
        }
        let mut ix = vec![0usize; len];
        loop {
            try_(&s);
            let mut j = 1;
            while j < len {
                ix[j] += 1;
                if ix[j] < a {
                    s[p + j] = alphabet[ix[j]];
                    break;
                }
                ix[j] = 0;
                s[p + j] = alphabet[0];
                j += 1;
            }
            if j >= len {
                break;
            }
        }
    })
}

/// everything close to an accepted word
fn near(cx: &Cx, word: &[u8], both: usize) {
    // every one-byte change, insertion, deletion; and pairs of changes
    cx.par(256, |x, try_| {
        let x = x as u8;
        let mut s = word.to_vec();
        for i in 0..word.len() {
            let old = s[i];
            s[i] = x;
            try_(&s);
            for j in i + 1..word.len() {
                let old = s[j];
                for y in 0..256 {
                    if y % both == (x as usize) % both {
                        s[j] = y as u8;
                        try_(&s);
                    }
                }
                s[j] = old;
            }
            s[i] = old;
        }
        for i in 0..=word.len() {
            let mut t = word.to_vec();
            t.insert(i, x);
            try_(&t);
            for y in 0..=255u8 {
                let mut u = t.clone();
                u.insert(i, y);
                try_(&u);
                let mut u = t.clone();
                u.push(y);
                try_(&u);
            }
            // one byte gone, another one changed or added
            if i < word.len() {
                let mut t = word.to_vec();
                t.remove(i);
                try_(&t);
                for j in 0..t.len() {
                    let mut u = t.clone();
                    u[j] = x;
                    try_(&u);
                }
                for j in 0..=t.len() {
                    let mut u = t.clone();
                    u.insert(j, x);
                    try_(&u);
                }
            }
        }
        // padding up to 40 bytes
        for n in 1..40 {
            let mut t = word.to_vec();
            t.resize(word.len() + n, x);
            try_(&t);
            let mut t = vec![x; n];
            t.extend_from_slice(word);
            try_(&t);
        }
    });
    // lengths that look short when only their last byte or two are kept
    cx.par(64, |k, try_| {
        for fill in [b' ', 0, b'0', b'a', word[0], word[word.len() - 1]] {
            for base in [256usize, 512, 65536] {
                let mut t = word.to_vec();
                t.resize(base + k, fill);
                try_(&t);
                let mut t = vec![fill; base + k];
                t.extend_from_slice(word);
                try_(&t);
            }
        }
    });
    // every byte in one of eight disguises
    let n = word.len().min(8);
    let total = 8usize.pow(n as u32);
    cx.par(64, |k, try_| {
        let mut s = word.to_vec();
        let mut i = k;
        while i < total {
            let mut x = i;
            for (j, c) in word.iter().enumerate().take(n) {
                s[j] = match x & 7 {
                    0 => *c,
                    1 => c ^ 0x20,
                    2 => c | 0x80,
                    3 => (c ^ 0x20) | 0x80,
                    4 => c & !0x20 & !0x40,
                    5 => c & !0x40,
                    6 => c ^ 1,
                    _ => 0,
                };
                x >>= 3;
            }
            try_(&s);
            i += 64;
        }
    });
}

fn random_text(r: &mut Rng, words: &[Vec<u8>]) -> Vec<u8> {
    let w = words[r.below(words.len())].clone();
    match r.below(6) {
        0 => {
            let n = r.below(24);
            (0..n).map(|_| r.next() as u8).collect()
        }
        1 => {
            let a = b"#0123456789abcdefABCDEFgG xX+-.\0";
            let n = r.below(10);
            (0..n).map(|_| a[r.below(a.len())]).collect()
        }
        2 => {
            // one of the # forms, nearly
            let n = [1, 2, 6, 6, 6, 3, 5, 7, 8][r.below(9)];
            let mut s = vec![b'#'];
            let a = b"0123456789abcdefABCDEF";
            s.extend((0..n).map(|_| a[r.below(a.len())]));
            if r.below(2) == 0 {
                let i = r.below(s.len());
                s[i] = [b'g', b'G', b'/', b':', b'@', b'`', b' ', b'#', 0x10, 0][r.below(10)];
            }
            s
        }
        3 => {
            let mut w = w;
            for _ in 0..1 + r.below(3) {
                if !w.is_empty() {
                    let i = r.below(w.len());
                    w[i] ^= 0x20
                }
            }
            w
        }
        4 => {
            let mut w = w;
            let i = r.below(w.len() + 1);
            match r.below(3) {
                0 => w.insert(i, r.next() as u8 & 0x7f),
                1 if i < w.len() => {
                    w.remove(i);
                }
                _ if i < w.len() => w[i] = r.next() as u8,
                _ => w.extend_from_slice(&words[r.below(words.len())]),
            }
            w
        }
        _ => {
            let mut w = w;
            if r.below(3) == 0 {
                w.make_ascii_uppercase()
            }
            w
        }
    }
}

/// texts made of the words of a dictionary
fn dictionary(cx: &Cx, words: &[Vec<u8>], scale: usize) {
    let cased = |w: &[u8]| {
        let (lo, up) = (w.to_ascii_lowercase(), w.to_ascii_uppercase());
        let mut cap = lo.clone();
        if let Some(c) = cap.first_mut() {
            c.make_ascii_uppercase()
        }
        let mut v = vec![w.to_vec(), lo, up, cap];
        v.dedup();
        v
    };
    let seps: [&[u8]; 6] = [b"", b" ", b"-", b"_", b"  ", b":"];
    let join = |a: &[u8], sep: &[u8], b: &[u8]| [a, sep, b].concat();
    let numbers: Vec<Vec<u8>> = (0..=999)
        .flat_map(|n| [format!("{n}"), format!("{n:02}"), format!("{n:03}"), format!("{n:x}"), format!("{n:02x}"), format!("{n:02X}")])
        .chain((0..=40).map(|n| format!("{:06x}", n * 0x06_5432)))
        .chain(["0,0,0", "1;2;3", "255, 0, 0", "(1,2,3)", "(0)", "[0]", "abc", "fff", "abcd", "ffffffff", "0000000", "12345"].map(String::from))
        .map(String::into_bytes)
        .collect::<std::collections::BTreeSet<_>>()
        .into_iter()
        .collect();
    cx.par(words.len(), |k, try_| {
        for w in cased(&words[k]) {
            try_(&w);
            // with its separators exchanged
            for s in [&b""[..], b"-", b"_", b"  ", b"\0", b"\t"] {
                let parts: Vec<&[u8]> = w.split(|c| *c == b' ').collect();
                try_(&parts.join(s));
            }
            for n in &numbers {
                try_(&join(&w, b"", n));
                try_(&join(&w, b" ", n));
                try_(&join(n, b"", &w));
                try_(&join(&join(&w, b"(", n), b"", b")"));
            }
            for (a, b) in [("\"", "\""), ("'", "'"), ("(", ")"), ("[", "]"), ("<", ">"), (" ", " "), ("\0", "\0"), ("\x1b[", "m"), ("Some(", ")"), ("--", ""), ("=", "")] {
                try_(&[a.as_bytes(), &w, b.as_bytes()].concat());
                try_(&[a.as_bytes(), &w].concat());
                try_(&[&w[..], b.as_bytes()].concat());
            }
            // cut short, in every way
            for i in 0..w.len() {
                try_(&w[..i]);
                try_(&w[i..]);
                let mut t = w[..i].to_vec();
                t.extend_from_slice(&w[i + 1..]);
                try_(&t);
            }
            // shifted letters and look-alikes
            for (a, b) in [("o", "0"), ("l", "1"), ("e", "3"), ("i", "1"), ("k", "\u{212a}"), ("s", "\u{17f}"), ("i", "\u{131}"), ("s", "ß"), ("ay", "ey"), ("a", "а")] {
                if let Ok(s) = std::str::from_utf8(&w) {
                    let t = s.replace(a, b);
                    if t != s {
                        try_(t.as_bytes())
                    }
                }
            }
            try_(&w.iter().rev().copied().collect::<Vec<_>>());
            // as two-byte characters
            try_(&w.iter().flat_map(|c| [*c, 0]).collect::<Vec<_>>());
            try_(&w.iter().flat_map(|c| [0, *c]).collect::<Vec<_>>());
        }
        let lo = words[k].to_ascii_lowercase();
        for v in words {
            for s in seps.iter().take(if scale > 1 { 6 } else { 4 }) {
                try_(&join(&words[k], s, v));
                try_(&join(&lo, s, &v.to_ascii_lowercase()));
            }
        }
    });
}

fn exhaust(cx: &Cx, seed: u64, scale: usize, words: &[Vec<u8>]) {
    dictionary(cx, words, scale);
    let all: Vec<u8> = (0..=255).collect();
    for n in 0..=3 {
        product(cx, &all, b"", n)
    }
    if cx.mc == "color" {
        // four and five ASCII characters that matter
        product(cx, b"#09afAFgG ", b"", 4);
        product(cx, b"#09afAFgG ", b"", 5);
        product(cx, b"#0189afg", b"", 6);
        product(cx, b"#09aFg ", b"", 7);
        product(cx, b"#9aFg", b"", 8);
        product(cx, b"0123456789", b"", 4);
        product(cx, b"0123456789", b"", 5);
        product(cx, b"0123456789abcdefABCDEF/:@G`g#", b"#", 3);
        product(cx, b"0123456789abcdefABCDEF/:@G`g#", b"#", 4);
        // every RGB color, in lower case and in mixed case
        cx.par(4096, |k, try_| {
            let hex = b"0123456789abcdef0123456789ABCDEF";
            let mut r = Rng(seed ^ k as u64);
            let mut s = *b"#000000";
            for v in 0..4096 {
                let v = k << 12 | v;
                let mix = r.next() as usize;
                for j in 0..6 {
                    s[1 + j] = hex[v >> (20 - 4 * j) & 15];
                }
                try_(&s);
                for j in 0..6 {
                    s[1 + j] = hex[(v >> (20 - 4 * j) & 15) | (mix >> j & 1) << 4];
                }
                try_(&s);
                // one bad digit anywhere
                s[1 + (mix >> 8) % 6] = (mix >> 16) as u8 & 0x7f;
                try_(&s);
            }
        });
        // every pair of byte values in every pair of positions
        cx.par(256, |x, try_| {
            for i in 1..7 {
                for j in i + 1..7 {
                    for y in 0..128 {
                        let mut s = *b"#0aF9cE";
                        s[i] = x as u8;
                        s[j] = y;
                        try_(&s);
                    }
                }
            }
        });
    } else {
        product(cx, &all, b"neve", 2);
        product(cx, &all, b"a", 3 - (scale == 1) as usize);
    }
    let both = if scale > 1 || cx.mc != "color" { 1 } else { 16 };
    for w in &cx.m.words {
        near(cx, w, both);
        for v in &cx.m.words {
            for sep in [&b""[..], b" ", b",", b"\0"] {
                let mut n = (0, 0);
                cx.one(&[&w[..], sep, &v[..]].concat(), &mut n);
            }
        }
    }
    let next = 4096;
    cx.par(next, |k, try_| {
        let mut r = Rng(seed.wrapping_mul(31) ^ k as u64);
        for _ in 0..200 * scale {
            let s = random_text(&mut r, &cx.m.words);
            try_(&s)
        }
    });
}

fn main() {
    clean_env();
    quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let ms = machines(&a[2]);
    let seed: u64 = a[3].parse().unwrap();
    if a[1] == "exhaust" {
        let prop = &a[5];
        for mc in if prop == "C07" { &["color"][..] } else { &["mode", "stream"] } {
            let cx = Cx { mc, m: &ms[*mc], prop, tried: AtomicU64::new(0), accepted: AtomicU64::new(0), rep: Mutex::new(Report::default()) };
            let words: Vec<Vec<u8>> = std::fs::read_to_string(&a[6])
                .unwrap()
                .lines()
                .map(|l| (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect())
                .collect();
            exhaust(&cx, seed, a[4].parse().unwrap(), &words);
            for l in &cx.rep.lock().unwrap().lines {
                println!("{l}")
            }
            println!("STAT texts {}", cx.tried.load(Ordering::SeqCst));
            println!("STAT accepted {}", cx.accepted.load(Ordering::SeqCst));
        }
        println!("DONE");
        return;
    }
    let n: usize = a[4].parse().unwrap();
    let mut r = Rng(seed);
    let mut out = vec![];
    for mc in if a[5] == "C07" { &["color"][..] } else if a[5] == "C08" { &["mode", "stream"][..] } else { &["color", "mode", "stream"] } {
        for k in 0..n + ms[*mc].words.len() {
            let s = match ms[*mc].words.get(k) {
                Some(w) => w.clone(),
                None => random_text(&mut r, &ms[*mc].words),
            };
            spent();
            if let Some(x) = guarded(mc, &s) {
                let al = spent();
                out.push(format!("{{\"mc\":\"{mc}\",\"s\":{},\"r\":{},\"e\":{},\"al\":{al}}}", json_bytes(&s), x.json(), ms[*mc].run(&s).json()));
            }
        }
    }
    println!("[{}]", out.join(",\n"));
}
