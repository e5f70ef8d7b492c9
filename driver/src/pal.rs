//! Every public name of the palette, in the order of the specification.
use crate::eng::Lc;
use crate::{ansi_names, css_names, effect_names, xterm_names};
use colorz::{ansi::AnsiColor, css::CssColor, rgb::RgbColor, xterm::XtermColor, Color, Effect, EffectFlags};

macro_rules! ansi_list { ($(($i:literal $n:ident))*) => {
    pub const ANSI: [AnsiColor; 17] = [$(AnsiColor::$n),*];
    pub const ANSI_NAMES: [&str; 17] = [$(stringify!($n)),*];
    pub fn ansi_index(c: AnsiColor) -> usize {
        #[allow(unreachable_patterns)]
        match c { $(AnsiColor::$n => $i,)* _ => 99 }
    }
} }
ansi_names!(ansi_list);
macro_rules! xterm_list { ($(($i:literal $n:ident))*) => {
    pub const XTERM: [XtermColor; 256] = [$(XtermColor::$n),*];
    pub const XTERM_NAMES: [&str; 256] = [$(stringify!($n)),*];
    pub fn xterm_index(c: XtermColor) -> usize {
        #[allow(unreachable_patterns)]
        match c { $(XtermColor::$n => $i,)* _ => 0 }
    }
} }
xterm_names!(xterm_list);
macro_rules! css_list { ($(($i:literal $n:ident))*) => {
    pub const CSS: [CssColor; 147] = [$(CssColor::$n),*];
    pub const CSS_NAMES: [&str; 147] = [$(stringify!($n)),*];
    pub fn css_index(c: CssColor) -> usize {
        #[allow(unreachable_patterns)]
        match c { $(CssColor::$n => $i,)* _ => 200 }
    }
} }
css_names!(css_list);
macro_rules! effect_list { ($(($i:literal $n:ident $m:ident $im:ident))*) => {
    pub const EFFECTS: [Effect; 13] = [$(Effect::$n),*];
    pub const EFFECT_NAMES: [&str; 13] = [$(stringify!($n)),*];
    /// position of an effect in the specification's order
    pub fn effect_index(e: Effect) -> usize {
        #[allow(unreachable_patterns)]
        match e { $(Effect::$n => $i,)* _ => 99 }
    }
} }
effect_names!(effect_list);

pub fn flags(mask: u16) -> EffectFlags {
    let mut e = EffectFlags::new();
    for (i, x) in EFFECTS.iter().enumerate() {
        if mask & (1 << i) != 0 {
            e = e.with(*x)
        }
    }
    e
}

/// the runtime value of a color, found by its documented name
pub fn color(l: Lc) -> Option<Color> {
    Some(match l {
        Lc::None => return None,
        Lc::Ansi(i) => Color::Ansi(ANSI[i as usize]),
        Lc::Xterm(i) => Color::Xterm(XTERM[i as usize]),
        Lc::Css(i) => Color::Css(CSS[i as usize]),
        Lc::Rgb(red, green, blue) => Color::Rgb(RgbColor { red, green, blue }),
    })
}

/// which color of the specification a runtime color is, found by its variant (not by `==`)
pub fn logical(c: Option<Color>) -> Lc {
    match c {
        None => Lc::None,
        Some(Color::Ansi(a)) => Lc::Ansi(ansi_index(a) as u8),
        Some(Color::Xterm(a)) => Lc::Xterm(xterm_index(a) as u8),
        Some(Color::Css(a)) => Lc::Css(css_index(a) as u8),
        Some(Color::Rgb(c)) => Lc::Rgb(c.red, c.green, c.blue),
    }
}
