//! Reference model of styles, independent of the code in stylish-style: an own
//! representation, an own way to apply restyles to it.
use stylish::{Background, Color, Foreground, Intensity, Restyle, Style, StyleDiff};

pub const COLORS: [Color; 17] = [
    Color::Black,
    Color::Red,
    Color::Green,
    Color::Yellow,
    Color::Blue,
    Color::Magenta,
    Color::Cyan,
    Color::White,
    Color::BrightBlack,
    Color::BrightRed,
    Color::BrightGreen,
    Color::BrightYellow,
    Color::BrightBlue,
    Color::BrightMagenta,
    Color::BrightCyan,
    Color::BrightWhite,
    Color::Default,
];
pub const INTENSITIES: [Intensity; 3] = [Intensity::Normal, Intensity::Bold, Intensity::Faint];
pub const N_STYLES: usize = 17 * 17 * 3;
pub const DEF: S = S { fg: 16, bg: 16, int: 0 };

/// fg, bg: index into COLORS (16 is the default); int: index into INTENSITIES
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct S {
    pub fg: u8,
    pub bg: u8,
    pub int: u8,
}

impl S {
    pub fn nth(i: usize) -> S {
        S { fg: (i % 17) as u8, bg: (i / 17 % 17) as u8, int: (i / 289) as u8 }
    }
    pub fn index(self) -> usize {
        self.fg as usize + 17 * self.bg as usize + 289 * self.int as usize
    }
    /// built by assigning the public fields, not through Restyle
    pub fn lib(self) -> Style {
        let mut s = Style::default();
        s.foreground = COLORS[self.fg as usize];
        s.background = COLORS[self.bg as usize];
        s.intensity = INTENSITIES[self.int as usize];
        s
    }
    pub fn of(s: Style) -> S {
        S { fg: color_ix(s.foreground), bg: color_ix(s.background), int: int_ix(s.intensity) }
    }
    pub fn is_default(self) -> bool {
        self == DEF
    }
}

pub fn color_ix(c: Color) -> u8 {
    // through Debug rather than PartialEq, which is code under test as well
    match format!("{c:?}").as_str() {
        "Black" => 0,
        "Red" => 1,
        "Green" => 2,
        "Yellow" => 3,
        "Blue" => 4,
        "Magenta" => 5,
        "Cyan" => 6,
        "White" => 7,
        "BrightBlack" => 8,
        "BrightRed" => 9,
        "BrightGreen" => 10,
        "BrightYellow" => 11,
        "BrightBlue" => 12,
        "BrightMagenta" => 13,
        "BrightCyan" => 14,
        "BrightWhite" => 15,
        "Default" => 16,
        other => panic!("model: unknown color {other}"),
    }
}
pub fn color_ix_fast(c: Color) -> u8 {
    match c {
        Color::Black => 0,
        Color::Red => 1,
        Color::Green => 2,
        Color::Yellow => 3,
        Color::Blue => 4,
        Color::Magenta => 5,
        Color::Cyan => 6,
        Color::White => 7,
        Color::BrightBlack => 8,
        Color::BrightRed => 9,
        Color::BrightGreen => 10,
        Color::BrightYellow => 11,
        Color::BrightBlue => 12,
        Color::BrightMagenta => 13,
        Color::BrightCyan => 14,
        Color::BrightWhite => 15,
        Color::Default => 16,
        other => panic!("model: unknown color {other:?}"),
    }
}
pub fn int_ix(i: Intensity) -> u8 {
    match i {
        Intensity::Normal => 0,
        Intensity::Bold => 1,
        Intensity::Faint => 2,
        other => panic!("model: unknown intensity {other:?}"),
    }
}
pub fn of_fast(s: Style) -> S {
    S { fg: color_ix_fast(s.foreground), bg: color_ix_fast(s.background), int: int_ix(s.intensity) }
}

/// A restyle in every form the API has.
#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Unit,
    Fg(u8),
    Bg(u8),
    Int(u8),
    Full(S),
    Diff(Option<u8>, Option<u8>, Option<u8>),
    Pair(Box<(R, R)>),
    Triple(Box<(R, R, R)>),
    Some(Box<R>),
    None,
    Slice(Vec<R>),
    Boxed(Box<R>),
    Ref(Box<R>),
    BoxedSlice(Vec<R>),
    OptPair(Option<u8>, Option<u8>),
    /// user-defined: exchange foreground and background
    Swap,
    /// user-defined: bold becomes faint becomes normal becomes bold
    Rotate,
    /// user-defined, by way of Style::with
    OhNo,
}

impl R {
    pub fn model(&self, s: S) -> S {
        match self {
            R::Unit | R::None => s,
            R::Fg(c) => S { fg: *c, ..s },
            R::Bg(c) => S { bg: *c, ..s },
            R::Int(i) => S { int: *i, ..s },
            R::Full(t) => *t,
            R::Diff(f, b, i) => {
                S { fg: f.unwrap_or(s.fg), bg: b.unwrap_or(s.bg), int: i.unwrap_or(s.int) }
            }
            R::Pair(p) => p.1.model(p.0.model(s)),
            R::Triple(p) => p.2.model(p.1.model(p.0.model(s))),
            R::Some(r) | R::Boxed(r) | R::Ref(r) => r.model(s),
            R::Slice(v) | R::BoxedSlice(v) => v.iter().fold(s, |s, r| r.model(s)),
            R::OptPair(f, b) => S { fg: f.unwrap_or(s.fg), bg: b.unwrap_or(s.bg), ..s },
            R::Swap => S { fg: s.bg, bg: s.fg, ..s },
            R::Rotate => S { int: (s.int + 2) % 3, ..s },
            R::OhNo => S { fg: 1, int: 1, ..s },
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            R::Pair(p) => 1 + p.0.depth().max(p.1.depth()),
            R::Triple(p) => 1 + p.0.depth().max(p.1.depth()).max(p.2.depth()),
            R::Some(r) | R::Boxed(r) | R::Ref(r) => 1 + r.depth(),
            R::Slice(v) | R::BoxedSlice(v) => 1 + v.iter().map(R::depth).max().unwrap_or(0),
            _ => 1,
        }
    }
}

pub fn diff(f: Option<u8>, b: Option<u8>, i: Option<u8>) -> StyleDiff {
    let mut d = StyleDiff::default();
    d.foreground = f.map(|c| COLORS[c as usize]);
    d.background = b.map(|c| COLORS[c as usize]);
    d.intensity = i.map(|c| INTENSITIES[c as usize]);
    d
}

struct Swap;
impl Restyle for Swap {
    fn apply(&self, mut style: Style) -> Style {
        std::mem::swap(&mut style.foreground, &mut style.background);
        style
    }
}
struct Rotate;
impl Restyle for Rotate {
    fn apply(&self, mut style: Style) -> Style {
        style.intensity = INTENSITIES[(int_ix(style.intensity) as usize + 2) % 3];
        style
    }
}
struct OhNo;
impl Restyle for OhNo {
    fn apply(&self, style: Style) -> Style {
        style.with(Foreground(Color::Red)).with(Intensity::Bold)
    }
}

/// `R` is itself a user-defined Restyle: each form applies the library's own
/// implementation for that form.
impl Restyle for R {
    fn apply(&self, style: Style) -> Style {
        match self {
            R::Unit => style.with(()),
            R::Fg(c) => style.with(Foreground(COLORS[*c as usize])),
            R::Bg(c) => style.with(Background(COLORS[*c as usize])),
            R::Int(i) => style.with(INTENSITIES[*i as usize]),
            R::Full(s) => style.with(s.lib()),
            R::Diff(f, b, i) => style.with(diff(*f, *b, *i)),
            R::Pair(p) => style.with((&p.0, &p.1)),
            R::Triple(p) => style.with((&p.0, &p.1, &p.2)),
            R::Some(r) => style.with(Some(&**r)),
            R::None => style.with(None::<Foreground>),
            R::Slice(v) => style.with(v.as_slice()),
            R::Boxed(r) => style.with(Box::new((**r).clone())),
            R::Ref(r) => style.with(&&**r),
            R::BoxedSlice(v) => {
                let v: Vec<Box<dyn Restyle>> =
                    v.iter().map(|r| Box::new(r.clone()) as Box<dyn Restyle>).collect();
                style.with(v.as_slice())
            }
            R::OptPair(f, b) => style.with((
                f.map(|c| Foreground(COLORS[c as usize])),
                b.map(|c| Background(COLORS[c as usize])),
            )),
            R::Swap => style.with(Swap),
            R::Rotate => style.with(Rotate),
            R::OhNo => style.with(OhNo),
        }
    }
}

pub type Chars = Vec<(char, S)>;

pub fn chars_of(runs: &[(String, S)]) -> Chars {
    runs.iter().flat_map(|(t, s)| t.chars().map(move |c| (c, *s))).collect()
}
pub fn text_of(runs: &[(String, S)]) -> String {
    runs.iter().map(|(t, _)| t.as_str()).collect()
}
/// maximal runs of one style
pub fn canonical(runs: &[(String, S)]) -> Vec<(String, S)> {
    let mut out: Vec<(String, S)> = Vec::new();
    for (t, s) in runs.iter().filter(|(t, _)| !t.is_empty()) {
        match out.last_mut() {
            Some((u, r)) if r == s => u.push_str(t),
            _ => out.push((t.clone(), *s)),
        }
    }
    out
}
pub fn first_diff<T: PartialEq + std::fmt::Debug>(got: &[T], want: &[T]) -> Option<String> {
    if got == want {
        return None;
    }
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    Some(format!(
        "first difference at {i}: got {:?}, want {:?} (lengths {} and {})",
        got.get(i),
        want.get(i),
        got.len(),
        want.len()
    ))
}
