//! RGB colors.
//!   rgbs records SEED N          compile-time and N runtime RGB colors, for TLC (Colors.tla)
//!   rgbs exhaust TABLES FROM TO  all RGB colors with red in FROM..TO
use colorz_driver::acc::*;
use colorz_driver::eng::*;
use colorz_driver::*;

seam!();

type Stat = ((u8, u8, u8), [&'static str; 13], Option<Color>);
fn rgb_static<const R: u8, const G: u8, const B: u8>() -> Stat {
    type T<const R: u8, const G: u8, const B: u8> = rgb::Rgb<R, G, B>;
    let c = T::<R, G, B> {};
    (
        (R, G, B),
        [
            T::<R, G, B>::FOREGROUND_ARGS,
            T::<R, G, B>::BACKGROUND_ARGS,
            T::<R, G, B>::UNDERLINE_ARGS,
            T::<R, G, B>::FOREGROUND_ESCAPE,
            T::<R, G, B>::BACKGROUND_ESCAPE,
            T::<R, G, B>::UNDERLINE_ESCAPE,
            ColorSpec::foreground_args(c),
            ColorSpec::background_args(c),
            ColorSpec::underline_args(c),
            ColorSpec::foreground_escape(c),
            ColorSpec::background_escape(c),
            ColorSpec::underline_escape(c),
            T::<R, G, B>::ARGS,
        ],
        <T<R, G, B> as ComptimeColor>::VALUE,
    )
}

fn rgbs(seed: u64, n: usize) -> Vec<Rec> {
    let mut out = vec![];
    let mut stats: Vec<Stat> = vec![];
    macro_rules! stat { ($(($r:literal $g:literal $b:literal))*) => { stats.extend([$(rgb_static::<$r, $g, $b>),*].map(|f| f())) } }
    rgb_some!(stat);
    #[cfg(feature = "full")]
    rgb_more!(stat);
    for ((a, b, c), t, v) in stats {
        let mut r = Rec::new(Lc::Rgb(a, b, c));
        let via = format!("Rgb<{a},{b},{c}>");
        for (k, s) in t[..12].iter().enumerate() {
            r.text(if k % 6 < 3 { "args" } else { "escape" }, ["fg", "bg", "ul"][k % 3], via.clone(), s)
        }
        r.text("raw", "fg", via.clone(), t[12]);
        r.conv("same", via, v);
        out.push(r);
    }
    macro_rules! deep { ($(($r:literal $g:literal $b:literal))*) => { $({
        let mut r = Rec::new(Lc::Rgb($r, $g, $b));
        let via = concat!("Rgb<", stringify!($r), ",", stringify!($g), ",", stringify!($b), ">");
        comptime(&mut r, via, rgb::Rgb::<$r, $g, $b>);
        r.conv("same", format!("{via}::DYNAMIC"), rgb::Rgb::<$r, $g, $b>::DYNAMIC);
        r.conv("same", format!("RgbColor::from({via})"), rgb::RgbColor::from(rgb::Rgb::<$r, $g, $b>));
        out.push(r);
    })* } }
    deep!((0 0 0) (255 255 255) (1 2 3) (10 20 30) (100 200 250) (9 99 199) (99 9 255) (100 10 1) (7 107 77) (128 64 32));
    let mut g = Rng(seed);
    for k in 0..n {
        let x = g.next();
        let c = rgb::RgbColor { red: x as u8, green: if k % 3 == 0 { k as u8 } else { (x >> 8) as u8 }, blue: if k % 5 == 0 { k as u8 % 100 } else { (x >> 16) as u8 } };
        let mut r = Rec::new(Lc::Rgb(c.red, c.green, c.blue));
        any(&mut r, "RgbColor", c);
        out.push(r);
    }
    out
}

fn exhaust(t: &Tables, from: usize, to: usize) {
    let next = std::sync::atomic::AtomicUsize::new(from);
    let rep = std::sync::Mutex::new(Report::default());
    let total = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let red = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if red >= to {
                    break;
                }
                let mut rp = Report::default();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exhaust_red(t, red as u8, &mut rp)));
                if r.is_err() {
                    rp.bad("C05", || format!("{{\"what\":\"panics\",\"red\":{red}}}"))
                }
                total.fetch_add(65536, std::sync::atomic::Ordering::SeqCst);
                rep.lock().unwrap().merge(rp);
            });
        }
    });
    for l in &rep.lock().unwrap().lines {
        println!("{l}")
    }
    println!("STAT rgb {}", total.load(std::sync::atomic::Ordering::SeqCst));
    println!("DONE");
}

fn exhaust_red(t: &Tables, red: u8, rp: &mut Report) {
    let mut b = Buf::<512>::new();
    let mut want = Vec::with_capacity(512);
    let eff = colorz::EffectFlags::new().with(colorz::Effect::Underline);
    for x in 0..65536u32 {
        let (green, blue) = ((x >> 8) as u8, x as u8);
        let c = rgb::RgbColor { red, green, blue };
        b.len = 0;
        let _ = write!(
            b,
            "{}|{}|{}|{}|{}|{}|",
            Fmt(|f: &mut fmt::Formatter<'_>| c.fmt_foreground_args(f)),
            Fmt(|f: &mut fmt::Formatter<'_>| c.fmt_background_args(f)),
            Fmt(|f: &mut fmt::Formatter<'_>| c.fmt_underline_args(f)),
            Fmt(|f: &mut fmt::Formatter<'_>| c.fmt_foreground(f)),
            Fmt(|f: &mut fmt::Formatter<'_>| c.fmt_background(f)),
            Fmt(|f: &mut fmt::Formatter<'_>| c.fmt_underline(f))
        );
        let half = b.len;
        let g = Color::Rgb(c);
        let _ = write!(
            b,
            "{}|{}|{}|{}|{}|{}|",
            Fmt(|f: &mut fmt::Formatter<'_>| g.fmt_foreground_args(f)),
            Fmt(|f: &mut fmt::Formatter<'_>| g.fmt_background_args(f)),
            Fmt(|f: &mut fmt::Formatter<'_>| g.fmt_underline_args(f)),
            Fmt(|f: &mut fmt::Formatter<'_>| g.fmt_foreground(f)),
            Fmt(|f: &mut fmt::Formatter<'_>| g.fmt_background(f)),
            Fmt(|f: &mut fmt::Formatter<'_>| g.fmt_underline(f))
        );
        want.clear();
        for (pre, post) in [(&b""[..], &b"|"[..]), (b"\x1b[", b"m|")] {
            for l in 0..3 {
                want.extend_from_slice(pre);
                want.extend_from_slice(&t.rgb_prefix[l]);
                want.extend_from_slice(&t.dec[red as usize]);
                want.push(b';');
                want.extend_from_slice(&t.dec[green as usize]);
                want.push(b';');
                want.extend_from_slice(&t.dec[blue as usize]);
                want.extend_from_slice(post);
            }
        }
        if b.bytes()[..half] != want[..] {
            rp.bad("C05", || format!("{{\"what\":\"RgbColor ({red},{green},{blue})\",\"wrote\":{:?}}}", String::from_utf8_lossy(&b.bytes()[..half]).replace('\x1b', "^")))
        }
        if b.bytes()[half..] != want[..] {
            rp.bad("C05", || format!("{{\"what\":\"Color::Rgb ({red},{green},{blue})\",\"wrote\":{:?}}}", String::from_utf8_lossy(&b.bytes()[half..]).replace('\x1b', "^")))
        }
        // and on the terminal, as part of a style
        b.len = 0;
        let _ = write!(b, "{}", Style::new().fg(c).bg(g).underline_color(c).effect_flags(eff).apply());
        let v = 0x0300_0000 | (red as u32) << 16 | x;
        if t.run(b.bytes()) != (Delta { color: [v; 3], on: t.any_underline & 8, ..Delta::default() }) {
            rp.bad("C05", || format!("{{\"what\":\"style with ({red},{green},{blue})\",\"wrote\":{:?}}}", String::from_utf8_lossy(b.bytes()).replace('\x1b', "^")))
        }
    }
}

fn main() {
    clean_env();
    quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "records" => print(&rgbs(a[2].parse().unwrap(), a[3].parse().unwrap())),
        "exhaust" => exhaust(&Tables::read(&a[2]), a[3].parse().unwrap(), a[4].parse().unwrap()),
        _ => panic!("command"),
    }
}
