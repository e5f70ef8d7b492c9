//! The layers of styles and styled values, as Build.tla sees them.
use crate::eng::Lc;
use crate::pal::*;
use colorz::mode::Stream;
use colorz::{Color, EffectFlags, OptionalColor, Style, StyledValue};

pub fn lc<C: Copy + Into<Option<Color>>>(c: C) -> Lc {
    logical(c.into())
}
pub fn lcj(c: Lc) -> String {
    c.json(&CSS_NAMES)
}

/// the mask of a collection, as its queries tell; -1 if two queries disagree
pub fn mask(e: EffectFlags) -> i32 {
    let mut m = 0;
    for (i, x) in EFFECTS.iter().enumerate() {
        if e.is(*x) {
            m |= 1 << i
        }
        if e.is(*x) != e.is_any(EffectFlags::new().with(*x)) {
            return -1;
        }
    }
    if e.is_plain() != (m == 0) {
        return -2;
    }
    m
}

#[derive(Clone, PartialEq, Debug)]
pub struct Layer {
    pub fg: Lc,
    pub bg: Lc,
    pub ul: Lc,
    pub eff: i32,
    pub stream: &'static str,
}
impl Layer {
    pub fn json(&self) -> String {
        format!(
            "{{\"fg\":{},\"bg\":{},\"ul\":{},\"eff\":{},\"stream\":\"{}\"}}",
            lcj(self.fg),
            lcj(self.bg),
            lcj(self.ul),
            self.eff,
            self.stream
        )
    }
    pub fn short(&self) -> String {
        fn c(x: Lc) -> String {
            match x {
                Lc::None => "n".into(),
                Lc::Ansi(i) => format!("a{i}"),
                Lc::Xterm(i) => format!("x{i}"),
                Lc::Css(i) => format!("c{i}"),
                Lc::Rgb(r, g, b) => format!("r{r}.{g}.{b}"),
            }
        }
        format!("{}/{}/{}/{}/{}", c(self.fg), c(self.bg), c(self.ul), self.eff, self.stream)
    }
}
pub fn stream_name(s: Option<Stream>) -> &'static str {
    match s {
        None => "None",
        Some(Stream::Stdout) => "Stdout",
        Some(Stream::Stderr) => "Stderr",
        Some(Stream::AlwaysColor) => "AlwaysColor",
        Some(Stream::NeverColor) => "NeverColor",
        #[allow(unreachable_patterns)]
        Some(_) => "?",
    }
}
pub const STREAMS: [Option<Stream>; 5] =
    [None, Some(Stream::Stdout), Some(Stream::Stderr), Some(Stream::AlwaysColor), Some(Stream::NeverColor)];
pub fn stream_of(s: &str) -> Option<Stream> {
    *STREAMS.iter().find(|x| stream_name(**x) == s).unwrap()
}

pub trait Col: Copy + OptionalColor + Into<Option<Color>> {}
impl<C: Copy + OptionalColor + Into<Option<Color>>> Col for C {}

pub fn layer<F: Col, B: Col, U: Col>(s: &Style<F, B, U>, stream: Option<Stream>) -> Layer {
    let m = mask(s.effects);
    let agree = (0..13).all(|i| s.is(EFFECTS[i]) == s.effects.is(EFFECTS[i]));
    Layer {
        fg: lc(s.foreground),
        bg: lc(s.background),
        ul: lc(s.underline_color),
        eff: if agree { m } else { -3 },
        stream: stream_name(stream),
    }
}

/// a value that is neither Copy nor Clone
#[derive(PartialEq, Eq, Debug)]
pub struct Tok(pub u64);
pub trait Inner {
    fn inner(&self) -> Vec<Layer>;
    fn id(&self) -> usize;
}
impl Inner for Tok {
    fn inner(&self) -> Vec<Layer> {
        vec![]
    }
    fn id(&self) -> usize {
        self.0 as usize
    }
}
impl Inner for str {
    fn inner(&self) -> Vec<Layer> {
        vec![]
    }
    fn id(&self) -> usize {
        self.as_ptr() as usize ^ self.len()
    }
}
impl Inner for [u8] {
    fn inner(&self) -> Vec<Layer> {
        vec![]
    }
    fn id(&self) -> usize {
        self.as_ptr() as usize ^ self.len()
    }
}
impl<'a> Inner for dyn std::fmt::Display + 'a {
    fn inner(&self) -> Vec<Layer> {
        vec![]
    }
    fn id(&self) -> usize {
        self as *const Self as *const u8 as usize
    }
}
impl<T: Inner, F: Col, B: Col, U: Col> Inner for StyledValue<T, F, B, U> {
    fn inner(&self) -> Vec<Layer> {
        let mut v = self.value.inner();
        v.push(layer(&self.style, self.stream));
        v
    }
    fn id(&self) -> usize {
        self.value.id()
    }
}
impl<T: Inner + ?Sized> Inner for &T {
    fn inner(&self) -> Vec<Layer> {
        (**self).inner()
    }
    fn id(&self) -> usize {
        (**self).id()
    }
}

