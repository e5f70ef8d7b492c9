//! Dumps what every accessor and conversion of every ANSI, 256-color and CSS
//! color gives, for TLC (Colors.tla).
use colorz_driver::acc::*;
use colorz_driver::eng::*;
use colorz_driver::*;

seam!();

fn named() -> Vec<Rec> {
    let mut out = vec![];
    macro_rules! ansis { ($(($i:tt $n:ident))*) => { $({
        let mut r = Rec::new(Lc::Ansi($i));
        let via = concat!("ansi::", stringify!($n));
        comptime(&mut r, via, ansi::$n);
        r.text("args", "fg", format!("{via}::FOREGROUND_ARGS"), ansi::$n::FOREGROUND_ARGS);
        r.text("args", "bg", format!("{via}::BACKGROUND_ARGS"), ansi::$n::BACKGROUND_ARGS);
        r.text("escape", "fg", format!("{via}::FOREGROUND_ESCAPE"), ansi::$n::FOREGROUND_ESCAPE);
        r.text("escape", "bg", format!("{via}::BACKGROUND_ESCAPE"), ansi::$n::BACKGROUND_ESCAPE);
        r.conv("same", format!("{via}::DYNAMIC"), ansi::$n::DYNAMIC);
        r.conv("xterm", format!("{via}::XTERM"), ansi::$n::XTERM);
        r.conv("xterm", format!("{via}::DYNAMIC_XTERM"), ansi::$n::DYNAMIC_XTERM);
        let d = ansi::AnsiColor::from(ansi::$n);
        r.conv("same", format!("AnsiColor::from({via})"), d);
        let via = concat!("AnsiColor::", stringify!($n));
        let v = ansi::AnsiColor::$n;
        any(&mut r, via, v);
        strings(&mut r, via, v);
        six(&mut r, via, six_calls!(v), ".");
        r.conv("xterm", format!("{via}.to_xterm"), v.to_xterm());
        r.conv("xterm", format!("XtermColor::from({via})"), xterm::XtermColor::from(v));
        out.push(r);
    })* } }
    ansi_names!(ansis);
    macro_rules! xterms { ($(($i:tt $n:ident))*) => { $({
        let mut r = Rec::new(Lc::Xterm($i));
        let via = concat!("xterm::", stringify!($n));
        comptime(&mut r, via, xterm::$n);
        six(&mut r, via, six_consts!(xterm::$n), "::");
        r.text("raw", "fg", format!("{via}::ARGS"), xterm::$n::ARGS);
        r.conv("same", format!("{via}::DYNAMIC"), xterm::$n::DYNAMIC);
        r.conv("same", format!("XtermColor::from({via})"), xterm::XtermColor::from(xterm::$n));
        r.conv("same", concat!("xterm_from_code!(", stringify!($i), ")").into(), colorz::xterm_from_code!($i));
        r.conv("same", concat!("XtermColor::from_code(", stringify!($i), ")").into(), xterm::XtermColor::from_code($i));
        r.conv("same", concat!("XtermColor::from(", stringify!($i), "u8)").into(), xterm::XtermColor::from($i as u8));
        let via = concat!("XtermColor::", stringify!($n));
        let v = xterm::XtermColor::$n;
        any(&mut r, via, v);
        strings(&mut r, via, v);
        six(&mut r, via, six_calls!(v), ".");
        r.text("raw", "fg", format!("{via}.args"), v.args());
        out.push(r);
    })* } }
    xterm_names!(xterms);
    macro_rules! csss { ($(($i:tt $n:ident))*) => { $({
        let mut r = Rec::new(Lc::Css($i));
        let via = concat!("css::", stringify!($n));
        comptime(&mut r, via, css::$n);
        six(&mut r, via, six_consts!(css::$n), "::");
        r.text("raw", "fg", format!("{via}::ARGS"), css::$n::ARGS);
        r.conv("same", format!("{via}::DYNAMIC"), css::$n::DYNAMIC);
        r.conv("rgb", format!("{via}::RGB"), css::$n::RGB);
        r.conv("same", format!("CssColor::from({via})"), css::CssColor::from(css::$n));
        let via = concat!("CssColor::", stringify!($n));
        let v = css::CssColor::$n;
        any(&mut r, via, v);
        strings(&mut r, via, v);
        six(&mut r, via, six_calls!(v), ".");
        r.text("raw", "fg", format!("{via}.args"), v.args());
        r.conv("rgb", format!("{via}.rgb"), v.rgb());
        r.conv("rgb", format!("RgbColor::from({via})"), rgb::RgbColor::from(v));
        out.push(r);
    })* } }
    css_names!(csss);
    let mut r = Rec::new(Lc::None);
    r.conv("same", "Option::<Color>::from(NoColor)".into(), Into::<Option<Color>>::into(NoColor));
    r.conv("same", "NoColor ComptimeColor::VALUE".into(), <NoColor as ComptimeColor>::VALUE);
    r.conv("same", "None::<Color> get".into(), OptionalColor::get(None::<Color>));
    r.conv("same", "Some(None::<Color>) get".into(), OptionalColor::get(Some(None::<Color>)));
    if OptionalColor::get(NoColor).is_some() || OptionalColor::get(Some(NoColor)).is_some() {
        r.conv("same", "NoColor get".into(), Color::Ansi(ansi::AnsiColor::Red));
    }
    r.kind("NoColor".into(), OptionalColor::color_kind(NoColor));
    r.kind("None::<Color>".into(), OptionalColor::color_kind(None::<Color>));
    r.kind("None::<ansi::Red>".into(), OptionalColor::color_kind(None::<ansi::Red>));
    out.push(r);
    out
}

fn main() {
    clean_env();
    quiet_panics();
    print(&named());
}
