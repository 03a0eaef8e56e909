//! Reference model of styles (the part of harness/src/model.rs that is needed here),
//! independent of the code in stylish-style.
use stylish::{Color, Intensity, Style};

pub const COLORS: [Color; 17] = [
    Color::Black,
    Color::Red,
    Color::Green,
    Color::Yellow,
    Color::Blue,
    Color::Magenta,
    Color::Cyan,
    Color::White,
    Color::BrightBlack,
    Color::BrightRed,
    Color::BrightGreen,
    Color::BrightYellow,
    Color::BrightBlue,
    Color::BrightMagenta,
    Color::BrightCyan,
    Color::BrightWhite,
    Color::Default,
];
pub const INTENSITIES: [Intensity; 3] = [Intensity::Normal, Intensity::Bold, Intensity::Faint];
pub const N_STYLES: usize = 17 * 17 * 3;
pub const DEF: S = S { fg: 16, bg: 16, int: 0 };

/// fg, bg: index into COLORS (16 is the default); int: index into INTENSITIES
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct S {
    pub fg: u8,
    pub bg: u8,
    pub int: u8,
}

impl S {
    pub fn nth(i: usize) -> S {
        S { fg: (i % 17) as u8, bg: (i / 17 % 17) as u8, int: (i / 289) as u8 }
    }
    pub fn index(self) -> usize {
        self.fg as usize + 17 * self.bg as usize + 289 * self.int as usize
    }
    /// built by assigning the public fields, not through Restyle
    pub fn lib(self) -> Style {
        let mut s = Style::default();
        s.foreground = COLORS[self.fg as usize];
        s.background = COLORS[self.bg as usize];
        s.intensity = INTENSITIES[self.int as usize];
        s
    }
    pub fn of(s: Style) -> S {
        S { fg: color_ix(s.foreground), bg: color_ix(s.background), int: int_ix(s.intensity) }
    }
    pub fn is_default(self) -> bool {
        self == DEF
    }
}

pub fn color_ix(c: Color) -> u8 {
    // through Debug rather than PartialEq, which is code under test as well
    match format!("{c:?}").as_str() {
        "Black" => 0,
        "Red" => 1,
        "Green" => 2,
        "Yellow" => 3,
        "Blue" => 4,
        "Magenta" => 5,
        "Cyan" => 6,
        "White" => 7,
        "BrightBlack" => 8,
        "BrightRed" => 9,
        "BrightGreen" => 10,
        "BrightYellow" => 11,
        "BrightBlue" => 12,
        "BrightMagenta" => 13,
        "BrightCyan" => 14,
        "BrightWhite" => 15,
        "Default" => 16,
        other => panic!("model: unknown color {other}"),
    }
}
pub fn color_ix_fast(c: Color) -> u8 {
    match c {
        Color::Black => 0,
        Color::Red => 1,
        Color::Green => 2,
        Color::Yellow => 3,
        Color::Blue => 4,
        Color::Magenta => 5,
        Color::Cyan => 6,
        Color::White => 7,
        Color::BrightBlack => 8,
        Color::BrightRed => 9,
        Color::BrightGreen => 10,
        Color::BrightYellow => 11,
        Color::BrightBlue => 12,
        Color::BrightMagenta => 13,
        Color::BrightCyan => 14,
        Color::BrightWhite => 15,
        Color::Default => 16,
        other => panic!("model: unknown color {other:?}"),
    }
}
pub fn int_ix(i: Intensity) -> u8 {
    match i {
        Intensity::Normal => 0,
        Intensity::Bold => 1,
        Intensity::Faint => 2,
        other => panic!("model: unknown intensity {other:?}"),
    }
}
pub fn of_fast(s: Style) -> S {
    S { fg: color_ix_fast(s.foreground), bg: color_ix_fast(s.background), int: int_ix(s.intensity) }
}
