//! Every compile-time color type: `statics TABLES SEED VALUES`
use colorz_driver::eng::*;
use colorz_driver::rend::*;
use colorz_driver::*;

seam!();

/// every compile-time color type, in every position
fn statics(cx: &Cx) {
    #[inline(never)]
    fn stat<C: OptionalColor + ComptimeColor + Copy>(c: C, e: EffectFlags, o: &mut Raw) -> Style {
        let st = Style::new().fg(c).bg(c).underline_color(c).effect_flags(e);
        raw(st, o);
        st.const_into_runtime_style()
    }
    type S = (fn(EffectFlags, &mut Raw) -> Style, Lc, &'static str);
    let mut all: Vec<S> = vec![];
    macro_rules! go { ($m:ident $K:ident $(($i:literal $n:ident))*) => {
        $(all.push((|e, o| stat($m::$n, e, o), Lc::$K($i), concat!(stringify!($m), "::", stringify!($n))));)* } }
    ansi_names!(go ansi Ansi);
    xterm_names!(go xterm Xterm);
    css_names!(go css Css);
    macro_rules! rgbs { ($($r:literal $g:literal $b:literal)*) => {
        $(all.push((|e, o| stat(rgb::Rgb::<$r, $g, $b>, e, o), Lc::Rgb($r, $g, $b), stringify!(Rgb<$r, $g, $b>)));)* } }
    rgbs!(0 0 0  255 255 255  9 10 99  100 101 199  200 9 10  10 200 0  99 0 100  1 20 255);
    let (mut o, mut canon) = (Raw::new(), Raw::new());
    for (f, l, name) in all {
        guarded(cx, name, &mut |rep| {
            for eff in SPECIAL {
                let ls = Ls { fg: l, bg: l, ul: l, eff };
                let er = f(cx.flags[eff as usize], &mut o);
                one(cx, rep, &ls, &o, &mut canon, name);
                same_style(cx, rep, ls, er, 0, &o, &mut canon, name);
            }
        })
    }
}


fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    clean_env();
    quiet_panics();
    let cx = context(&a);
    statics(&cx);
    finish(&cx);
}
