//! Every effect set through every way of writing a style: opening and closing
//! sequences under any format options, and around values: `wrap TABLES SEED VALUES`
use colorz_driver::eng::*;
use colorz_driver::rend::*;
use colorz_driver::*;
use colorz_driver::pal::*;
use std::fmt;
use std::sync::atomic::AtomicU64;

seam!();

/// writes all it can see of the formatter
struct Probe(&'static str);
fn see(s: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    let flags = (f.alternate() as u8) | (f.sign_plus() as u8) << 1 | (f.sign_minus() as u8) << 2 | (f.sign_aware_zero_pad() as u8) << 3;
    let mut n = Buf::<64>::new();
    write!(n, "{flags}{:?}{:?}{}", f.width(), f.precision(), f.fill())?;
    f.write_str(s)?;
    f.write_str(std::str::from_utf8(n.bytes()).unwrap_or("?"))
}
impl fmt::Display for Probe {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        see(self.0, f)
    }
}
impl fmt::Debug for Probe {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        see("D", f)?;
        f.pad(self.0)
    }
}

/// a digest of all opening and closing sequences, to compare builds (C12)
static DIGEST: AtomicU64 = AtomicU64::new(0);

struct Seen {
    open: B,
    close: B,
    value: B,
    bare: B,
    ok: bool,
    allocs: u64,
}
/// the only generic code
#[inline(never)]
fn seen<F: OptionalColor, G: OptionalColor, U: OptionalColor>(st: Style<F, G, U>, spec: usize, vspec: usize, text: &'static str, stream: Option<Stream>, o: &mut Seen) {
    let n = allocs();
    let (p, s) = (st.apply(), st.clear());
    let v = StyledValue::new(Probe(text), st, stream);
    o.ok = show_in(&mut o.open, spec, &p, &p).is_ok()
        & show_in(&mut o.close, spec, &s, &s).is_ok()
        & show_in(&mut o.value, vspec, &v, &v).is_ok();
    o.allocs = allocs() - n;
    let _ = show_in(&mut o.bare, vspec, &v.value, &v.value);
}

fn wrap<F: Form, G: Form, U: Form>(cx: &Cx) {
    let ty = ["wrap", F::NAME, G::NAME, U::NAME].join("/");
    wrap_loop(cx, &ty, &mut |r, eff, spec, vspec, text, stream, o, s| {
        let ((f, lf), (g, lg), (u, lu)) = (F::make(r), G::make(r), U::make(r));
        let st = Style::new().fg(f).bg(g).underline_color(u).effect_flags(cx.flags[eff as usize]);
        raw(st, o);
        seen(st, spec, vspec, text, stream, s);
        Ls { fg: lf, bg: lg, ul: lu, eff }
    })
}

type Step<'a> = &'a mut dyn FnMut(&mut Rng, u16, usize, usize, &'static str, Option<Stream>, &mut Raw, &mut Seen) -> Ls;
fn wrap_loop(cx: &Cx, ty: &str, f: Step) {
    let mut r = Rng(cx.seed ^ fnv(ty));
    let (mut o, mut c) = (Raw::new(), Raw::new());
    let mut s = Seen { open: B::new(), close: B::new(), value: B::new(), bare: B::new(), ok: true, allocs: 0 };
    guarded(cx, ty, &mut |rep| {
        for eff in 0..8192u16 {
            for _ in 0..cx.values {
                let mut spec = || if r.below(2) == 0 { r.below(14) } else { r.below(SPECS) };
                let (spec, vspec) = (spec(), spec());
                let text = ["x", "", "\x1b[0m", "aé\nb"][r.below(4)];
                let stream = [None, Some(Stream::Stdout), Some(Stream::Stderr), Some(Stream::NeverColor), Some(Stream::AlwaysColor)][r.below(8).min(4)];
                let ls = f(&mut r, eff, spec, vspec, text, stream, &mut o, &mut s);
                let mut h = fnv(ty) ^ eff as u64;
                for b in o.open.bytes().iter().chain([&0xff]).chain(o.close.bytes()) {
                    h = (h ^ *b as u64).wrapping_mul(0x100000001b3)
                }
                DIGEST.fetch_add(h, Ordering::Relaxed);
                one(cx, rep, &ls, &o, &mut c, ty);
                let desc = |w: &str, b: &B| {
                    format!("{{\"what\":\"{w}\",\"types\":\"{ty}\",\"style\":{},\"options\":[{spec},{vspec}],\"stream\":\"{stream:?}\",\"wrote\":{:?},\"open\":{:?},\"close\":{:?},\"bare\":{:?}}}",
                        ls.json(&CSS_NAMES, &EFFECT_NAMES), show(b.bytes()), show(o.open.bytes()), show(o.close.bytes()), show(s.bare.bytes()))
                };
                if !s.ok || s.open.bytes() != o.open.bytes() {
                    rep.bad("C24", || desc("the opening sequence depends on the format options", &s.open));
                    rep.bad("C01", || desc("the opening sequence depends on the format options", &s.open))
                }
                if !s.ok || s.close.bytes() != o.close.bytes() {
                    rep.bad("C24", || desc("the closing sequence depends on the format options", &s.close));
                    rep.bad("C02", || desc("the closing sequence depends on the format options", &s.close))
                }
                if s.allocs > 0 {
                    rep.bad("C21", || desc("allocates", &s.value))
                }
                // around a value
                let colored = !cfg!(feature = "strip-colors")
                    && match stream {
                        Some(Stream::NeverColor) => false,
                        Some(Stream::Stdout) => o.dec[1],
                        Some(Stream::Stderr) => o.dec[2],
                        _ => true,
                    };
                let is = |open: &[u8], close: &[u8]| {
                    let (a, b, v) = (open.len(), open.len() + s.bare.len, s.value.bytes());
                    v.len() == b + close.len() && v[..a] == *open && v[a..b] == *s.bare.bytes() && v[b..] == *close
                };
                let (full, bare) = (is(o.open.bytes(), o.close.bytes()), is(b"", b""));
                if colored && !full || !colored && !bare {
                    let props: &[&str] = if full || bare {
                        match stream {
                            _ if cfg!(feature = "strip-colors") => &["C12", "C13", "C14"],
                            Some(Stream::Stdout | Stream::Stderr) => &["C10", "C13", "C14"],
                            _ => &["C09", "C13", "C14"],
                        }
                    } else if cfg!(feature = "strip-colors") {
                        &["C12", "C13", "C14"]
                    } else {
                        &["C13", "C14", "C03"]
                    };
                    for p in props {
                        rep.bad(p, || desc(if colored { "a colored value is not opening, bare value, closing" } else { "a value that is not colored is not bare" }, &s.value))
                    }
                }
            }
        }
    })
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    clean_env();
    quiet_panics();
    let cx = context(&a);
    let mut v: Vec<Job> = vec![];
    jobs!(v, wrap, [FNone FColor FOptColor FSAnsi], [FNone FColor FOptColor FSRgb], [FNone FOptColor FSXterm]);
    jobs!(v, wrap, [FOptXterm FOptNever FRgb], [FOptNever], [FNone FOptNever FCss]);
    run_jobs(&cx, &v);
    println!("STAT digest {}", DIGEST.load(Ordering::SeqCst));
    finish(&cx);
}
