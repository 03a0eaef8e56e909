// The items stylish documents, used and rendered: every line of the output is
// one observation, named so that configurations can be compared.
#[path = "api.rs"]
mod api;
#[path = "extra.rs"]
mod extra;
use core::fmt::Write as FW;
use stylish::{Background, Color, Foreground, Formatter, Intensity, Restyle, Style, StyleDiff, Write as SW};

/// a fixed buffer: the sink of configurations without an allocator
pub struct Buf {
    b: [u8; 32768],
    n: usize,
}
impl Buf {
    pub fn new() -> Self {
        Buf { b: [0; 32768], n: 0 }
    }
    pub fn text(&self) -> &str {
        core::str::from_utf8(&self.b[..self.n]).unwrap()
    }
}
impl FW for Buf {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let e = self.n + s.len();
        if e > self.b.len() {
            return Err(core::fmt::Error);
        }
        self.b[self.n..e].copy_from_slice(s.as_bytes());
        self.n = e;
        Ok(())
    }
}

/// a writer of the user's own: shows every piece with its style
pub struct Rec(pub Buf);
impl SW for Rec {
    fn write_str(&mut self, s: &str, style: Style) -> core::fmt::Result {
        FW::write_fmt(&mut self.0, core::format_args!("<{:?}/{:?}/{:?}:{}>", style.foreground, style.background, style.intensity, s))
    }
}

/// a value that displays itself in pieces, with nested restyling
pub struct Val(pub u64);
impl stylish::Display for Val {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        let mut r = self.0 | 1;
        let mut next = |n: u64| {
            r ^= r << 13;
            r ^= r >> 7;
            r ^= r << 17;
            r % n
        };
        for _ in 0..next(4) + 1 {
            let t = TEXTS[next(TEXTS.len() as u64) as usize];
            match next(5) {
                0 => f.write_str(t)?,
                1 => f.with(Foreground(COLORS[next(17) as usize])).write_str(t)?,
                2 => f.with(Background(COLORS[next(17) as usize])).with(INTENSITIES[next(3) as usize]).write_str(t)?,
                3 => {
                    let d = style(next(10_000)).diff_from(style(next(10_000)));
                    let mut g = f.with(d);
                    g.write_str(t)?;
                    FW::write_char(&mut g, '\u{e9}')?;
                    FW::write_fmt(&mut g, core::format_args!("{:>4}|{:?}", next(100), t))?;
                }
                _ => SW::write_str(f, t, style(next(10_000)))?,
            }
        }
        Ok(())
    }
}

pub const TEXTS: [&str; 8] = ["a", "", "<&>\"'/", "two words", "\u{1f600}", "e\u{301}", "x\ny", "%2B"];
pub const COLORS: [Color; 17] = [
    Color::Black, Color::Red, Color::Green, Color::Yellow, Color::Blue, Color::Magenta, Color::Cyan, Color::White,
    Color::BrightBlack, Color::BrightRed, Color::BrightGreen, Color::BrightYellow, Color::BrightBlue, Color::BrightMagenta,
    Color::BrightCyan, Color::BrightWhite, Color::Default,
];
pub const INTENSITIES: [Intensity; 3] = [Intensity::Normal, Intensity::Bold, Intensity::Faint];

pub fn style(n: u64) -> Style {
    let mut s = Style::default();
    s.foreground = COLORS[(n % 17) as usize];
    s.background = COLORS[(n / 17 % 17) as usize];
    s.intensity = INTENSITIES[(n / 289 % 3) as usize];
    s
}

/// the pieces of a document, written straight to a writer
pub fn document(w: &mut dyn SW, k: u64) -> stylish::Result {
    let mut r = k * 2_654_435_761 + 12_345;
    let mut next = |n: u64| {
        r = r.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
        (r >> 33) % n
    };
    for _ in 0..next(6) + 1 {
        let t = TEXTS[next(TEXTS.len() as u64) as usize];
        if next(4) == 0 {
            w.write_char('\u{df}', style(next(867)))?;
        }
        w.write_str(t, style(next(867)))?;
    }
    Ok(())
}

/// the sink of the sweeps: of what was written only a digest is kept
pub struct Digest(pub u64, pub u64);
impl Digest {
    pub fn new() -> Self {
        Digest(0xcbf2_9ce4_8422_2325, 0)
    }
    fn add(&mut self, b: &[u8]) {
        for b in b {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
        self.1 += b.len() as u64;
    }
}
impl FW for Digest {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.add(s.as_bytes());
        Ok(())
    }
}
/// the same of what a writer of the user's own is given, in which style
pub struct RecDigest(pub Digest);
impl SW for RecDigest {
    fn write_str(&mut self, s: &str, style: Style) -> core::fmt::Result {
        let k = [style.foreground as u8, style.background as u8, style.intensity as u8];
        for b in s.bytes() {
            self.0.add(&[b, k[0], k[1], k[2]]);
        }
        Ok(())
    }
}
#[cfg(feature = "std")]
impl std::io::Write for Digest {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(5000);
        self.add(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
#[cfg(feature = "std")]
extern crate std;

/// texts of all kinds: what the sources name, any characters, long ones
pub struct Stream {
    r: u64,
    last: u64,
}
impl Stream {
    pub fn new(seed: u64) -> Self {
        Stream { r: seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678_9abc_def1, last: 0 }
    }
    fn next(&mut self, n: u64) -> u64 {
        self.r ^= self.r << 13;
        self.r ^= self.r >> 7;
        self.r ^= self.r << 17;
        (self.r >> 11) % n
    }
    pub fn style(&mut self) -> Style {
        self.last = match self.next(6) {
            0 => 288,
            1 => self.last,
            2 => self.last / 17 * 17 + self.next(17),
            3 => self.last % 289 + 289 * self.next(3),
            _ => self.next(867),
        };
        style(self.last)
    }
    pub fn text<T>(&mut self, f: impl FnOnce(&str) -> T) -> T {
        match self.next(12) {
            0..=2 => f(TEXTS[self.next(TEXTS.len() as u64) as usize]),
            3..=5 if !extra::DICT.is_empty() => f(extra::DICT[self.next(extra::DICT.len() as u64) as usize]),
            6 if self.next(40) == 0 => {
                let n = match self.next(2) {
                    0 => extra::SIZES[self.next(extra::SIZES.len() as u64) as usize],
                    _ => self.next(extra::LONG.len() as u64) as usize,
                };
                f(&extra::LONG[..n.min(extra::LONG.len())])
            }
            _ => {
                let mut b = [0; 64];
                let mut n = 0;
                for _ in 0..self.next(16) {
                    let hi = [0x7f, 0x7f, 0x800, 0x10000, 0x110000][self.next(5) as usize];
                    let c = char::from_u32(self.next(hi) as u32).unwrap_or('\u{fffd}');
                    n += c.encode_utf8(&mut b[n..]).len();
                }
                f(core::str::from_utf8(&b[..n]).unwrap())
            }
        }
    }
    /// many pieces in changing styles, straight to a writer
    pub fn pour(&mut self, w: &mut dyn SW, n: u64) {
        for _ in 0..n {
            let s = self.style();
            if self.next(9) == 0 {
                let c = char::from_u32(self.next(0x3000) as u32).unwrap_or('x');
                w.write_char(c, s).unwrap();
            }
            self.text(|t| w.write_str(t, s)).unwrap();
        }
    }
}
impl Out<'_> {
    fn digest(&mut self, label: &str, d: &Digest) {
        self.1 += 1;
        core::writeln!(self.0, "{label}\t{} bytes with digest {:x}", d.1, d.0).unwrap();
    }
}
/// as a value: what it shows is that of a stream
#[derive(Clone, Copy)]
pub struct Streamed(pub u64);
impl stylish::Display for Streamed {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        let mut s = Stream::new(self.0);
        for k in 0..self.0 % 7 + 1 {
            let st = s.style();
            match s.next(4) {
                0 => s.text(|t| f.write_str(t))?,
                1 => s.text(|t| f.with(st).write_str(t))?,
                2 => s.text(|t| SW::write_str(f, t, st))?,
                _ => {
                    let mut g = f.with((Foreground(st.background), Some(st.intensity)));
                    s.text(|t| FW::write_str(&mut g, t))?
                }
            }
        }
        Ok(())
    }
}

pub struct Out<'a>(pub &'a mut dyn FW, pub u64);
impl Out<'_> {
    pub fn put(&mut self, label: &str, value: &str) {
        self.1 += 1;
        core::writeln!(self.0, "{label}\t{}", value.escape_debug()).unwrap();
    }
    pub fn val(&mut self, label: &str, value: core::fmt::Arguments) {
        let mut b = Buf::new();
        b.write_fmt(value).unwrap();
        let mut l = Buf::new();
        let _ = l.write_str(label);
        self.1 += 1;
        core::writeln!(self.0, "{label}\t{}", b.text().escape_debug()).unwrap();
    }
}

macro_rules! label {
    ($b:ident, $($t:tt)*) => {{ $b = Buf::new(); core::write!($b, $($t)*).unwrap(); $b.text() }};
}

pub fn run(sink: &mut dyn FW, base: u64, docs: u64) -> u64 {
    let mut o = Out(sink, 0);
    let mut l;
    // styles and differences
    for n in (0..867).step_by(23) {
        let (a, b) = (style(n), style(n * 7 + 3));
        let d: StyleDiff = b.diff_from(a);
        o.val(label!(l, "diff {n}"), core::format_args!("{:?} {:?} {}", d, a.with(d), a.with(d) == b));
        o.val(label!(l, "restyle {n}"), core::format_args!("{:?}", a.with(Foreground(b.foreground)).with(&Background(b.background)).with(&&b.intensity)));
        let list = [a.intensity];
        let triple = (Foreground(a.background), (), &list[..]);
        let some: [Option<&dyn Restyle>; 3] = [Some(&b), None, Some(&triple)];
        o.val(label!(l, "composed {n}"), core::format_args!("{:?} {:?} {:?}", a.with(&some[..]), a.with((some[0], &some[2])), a.with((d, b.intensity, Background(a.foreground)))));
        let dynr: &dyn Restyle = &b;
        o.val(label!(l, "dyn {n}"), core::format_args!("{:?}", a.with(dynr)));
        o.val(label!(l, "combine {n}"), core::format_args!("{:?} {:?}", Style::default(), StyleDiff::default()));
    }
    sweeps(&mut o, base, docs);
    // writers of the user's own
    for k in base..base + docs {
        let mut w = Rec(Buf::new());
        document(&mut w, k).unwrap();
        o.put(label!(l, "user writer {k}"), w.0.text());
    }
    let _: (fn(&mut Rec, stylish::Arguments<'_>) -> stylish::Result, stylish::Error) = (<Rec as SW>::write_fmt, stylish::Error);

    #[cfg(feature = "macros")]
    {
        for k in base..base + docs {
            let mut w = Rec(Buf::new());
            stylish::write!(w, "{:s}", Val(k)).unwrap();
            stylish::writeln!(w, "{0:(fg=red,bg=brightblue,bold)s}|{x:>+7.2(faint)}|{0:s}|{{}}|{1:#?}", Val(k), Some("q"), x = k as f64 / 3.0).unwrap();
            stylish::writeln!(w).unwrap();
            o.put(label!(l, "macros {k}"), w.0.text());
            let mut w = Rec(Buf::new());
            w.write_fmt(stylish::format_args!(concat!("<{:s}", "{:(fg=default)s}>"), Val(k), stylish::format_args!("{k:04x}"))).unwrap();
            o.put(label!(l, "arguments {k}"), w.0.text());
        }
    }
    #[cfg(feature = "alloc")]
    {
        extern crate alloc;
        for k in base..base + docs {
            let mut s = stylish::String::new();
            document(&mut s, k).unwrap();
            o.val(label!(l, "string {k}"), core::format_args!("{:?}", s));
            o.val(label!(l, "string default {k}"), core::format_args!("{:?}", stylish::String::default()));
            let _ = stylish::format as fn(stylish::Arguments<'_>) -> stylish::String;
            #[cfg(feature = "macros")]
            {
                use stylish::ToStylishString as _;
                let mut w = Rec(Buf::new());
                stylish::write!(w, "{:(faint)s}{:s}{:s}", s.clone(), stylish::format!("{:s}{:(bg=cyan)}", Val(k), k), Val(k).to_stylish_string()).unwrap();
                o.put(label!(l, "string replay {k}"), w.0.text());
                o.val(label!(l, "string format {k}"), core::format_args!("{:?}", stylish::format(stylish::format_args!("{:s}", Val(k)))));
            }
        }
    }
    #[cfg(feature = "ansi")]
    for k in base..base + docs {
        let mut w = stylish::ansi(Buf::new());
        document(&mut w, k).unwrap();
        o.put(label!(l, "ansi {k}"), w.finish().unwrap().text());
        #[cfg(feature = "macros")]
        {
            let mut w = stylish::Ansi::new(Buf::new());
            stylish::write!(w, "{:(fg=green,bold)s}{:s}{:(bg=default)}", Val(k), Val(k + 1), k).unwrap();
            o.put(label!(l, "ansi macros {k}"), w.finish().unwrap().text());
            #[cfg(feature = "alloc")]
            {
                use stylish::ToAnsiString as _;
                o.put(label!(l, "ansi format {k}"), &stylish::ansi::format!("{:s}{k:>5(fg=blue)?}", Val(k)));
                o.put(label!(l, "ansi format fn {k}"), &stylish::ansi::format(stylish::format_args!("{:s}{:s}", Val(k), stylish::format!("{:s}", Val(k)))));
                o.put(label!(l, "ansi to string {k}"), &Val(k).to_ansi_string());
            }
        }
    }
    #[cfg(feature = "html")]
    for k in base..base + docs {
        let mut w = stylish::html(Buf::new());
        document(&mut w, k).unwrap();
        o.put(label!(l, "html {k}"), w.finish().unwrap().text());
        #[cfg(feature = "macros")]
        {
            let mut w = stylish::Html::new(Buf::new());
            stylish::write!(w, "{:(fg=green,bold)s}{:s}{:(bg=default)}", Val(k), Val(k + 1), k).unwrap();
            o.put(label!(l, "html macros {k}"), w.finish().unwrap().text());
            #[cfg(feature = "alloc")]
            {
                use stylish::ToHtmlString as _;
                o.put(label!(l, "html format {k}"), &stylish::html::format!("{:s}{k:>5(fg=blue)?}", Val(k)));
                o.put(label!(l, "html format fn {k}"), &stylish::html::format(stylish::format_args!("{:s}{:s}", Val(k), stylish::format!("{:s}", Val(k)))));
                o.put(label!(l, "html to string {k}"), &Val(k).to_html_string());
            }
        }
    }
    #[cfg(feature = "plain")]
    for k in base..base + docs {
        let mut w = stylish::plain(Buf::new());
        document(&mut w, k).unwrap();
        o.put(label!(l, "plain {k}"), w.into_inner().text());
        #[cfg(feature = "macros")]
        {
            let mut w = stylish::Plain::new(Buf::new());
            stylish::write!(w, "{:(fg=green,bold)s}{:s}{:(bg=default)}", Val(k), Val(k + 1), k).unwrap();
            o.put(label!(l, "plain macros {k}"), w.into_inner().text());
            #[cfg(feature = "alloc")]
            {
                use stylish::ToPlainString as _;
                o.put(label!(l, "plain format {k}"), &stylish::plain::format!("{:s}{k:>5(fg=blue)?}", Val(k)));
                o.put(label!(l, "plain format fn {k}"), &stylish::plain::format(stylish::format_args!("{:s}{:s}", Val(k), stylish::format!("{:s}", Val(k)))));
                o.put(label!(l, "plain to string {k}"), &Val(k).to_plain_string());
            }
        }
    }
    #[cfg(feature = "std")]
    io(&mut o, base, docs);
    o.1
}

/// each writer through all styles and texts of all kinds
fn sweeps(o: &mut Out, base: u64, docs: u64) {
    let mut l;
    macro_rules! sweep {
        ($name:literal, |$s:ident| $new:expr, |$w:ident| $end:expr) => {
            for part in 0..17 {
                let $s = Digest::new();
                let mut $w = $new;
                for n in part * 51..(part + 1) * 51 {
                    SW::write_str(&mut $w, "a", style(n)).unwrap();
                    SW::write_str(&mut $w, "b", Style::default()).unwrap();
                    SW::write_str(&mut $w, "c", style(n)).unwrap();
                    SW::write_str(&mut $w, "d", style(n * 5 + 7)).unwrap();
                }
                let d = $end;
                o.digest(label!(l, "{} in styles {part}", $name), &d);
            }
            for k in base..base + docs {
                let $s = Digest::new();
                let mut $w = $new;
                Stream::new(k).pour(&mut $w, 100);
                let d = $end;
                o.digest(label!(l, "{} of texts {k}", $name), &d);
                #[cfg(feature = "macros")]
                {
                    let $s = Digest::new();
                    let mut $w = $new;
                    for j in 0..20 {
                        let v = Streamed(k * 31 + j);
                        SW::write_fmt(&mut $w, stylish::format_args!("{:s}{:(bg=red)s}{v:(faint)s}\n", v, v)).unwrap();
                    }
                    let d = $end;
                    o.digest(label!(l, "{} of values {k}", $name), &d);
                }
            }
            #[cfg(feature = "macros")]
            {
                let $s = Digest::new();
                let mut $w = $new;
                extra::specs(&mut $w);
                let d = $end;
                o.digest(label!(l, "{} of formats", $name), &d);
            }
        };
    }
    sweep!("a user's writer", |s| RecDigest(s), |w| w.0);
    #[cfg(feature = "ansi")]
    sweep!("ansi", |s| stylish::Ansi::new(s), |w| w.finish().unwrap());
    #[cfg(feature = "html")]
    sweep!("html", |s| stylish::Html::new(s), |w| w.finish().unwrap());
    #[cfg(feature = "plain")]
    sweep!("plain", |s| stylish::Plain::new(s), |w| w.into_inner());
    #[cfg(feature = "alloc")]
    {
        sweep!("string", |s| stylish::String::new(), |w| {
            let mut d = Digest::new();
            core::write!(d, "{:?}", w).unwrap();
            #[cfg(feature = "macros")]
            {
                let mut d = RecDigest(Digest::new());
                stylish::write!(d, "{:s}", w).unwrap();
                o.digest(label!(l, "replay {}", d.0.1), &d.0);
            }
            d
        });
    }
    #[cfg(feature = "macros")]
    extra::each(|spec, f| {
        let mut w = Rec(Buf::new());
        f(&mut w);
        o.put(spec, w.0.text());
    });
    #[cfg(feature = "std")]
    {
        use stylish::io::Write as _;
        macro_rules! sweep_io {
            ($name:literal, |$s:ident| $new:expr, |$w:ident| $end:expr) => {
                for part in 0..17 {
                    let $s = Digest::new();
                    let mut $w = $new;
                    for n in part * 51..(part + 1) * 51 {
                        $w.write_all(b"a", style(n)).unwrap();
                        $w.write_all(b"b", Style::default()).unwrap();
                        $w.write_all(b"c", style(n)).unwrap();
                        $w.write_all(b"d", style(n * 5 + 7)).unwrap();
                    }
                    let d = $end;
                    o.digest(label!(l, "{} in styles {part}", $name), &d);
                }
                for k in base..base + docs {
                    let $s = Digest::new();
                    let mut $w = $new;
                    let mut s = Stream::new(k);
                    for _ in 0..100 {
                        let st = s.style();
                        s.text(|t| $w.write_all(t.as_bytes(), st)).unwrap();
                    }
                    let d = $end;
                    o.digest(label!(l, "{} of texts {k}", $name), &d);
                    #[cfg(feature = "macros")]
                    {
                        let $s = Digest::new();
                        let mut $w = $new;
                        for j in 0..20 {
                            stylish::write!($w, "{:s}", Streamed(k * 31 + j)).unwrap();
                        }
                        let d = $end;
                        o.digest(label!(l, "{} of values {k}", $name), &d);
                    }
                }
            };
        }
        #[cfg(feature = "ansi")]
        sweep_io!("io ansi", |s| stylish::io::Ansi::new(s), |w| w.finish().unwrap());
        #[cfg(feature = "plain")]
        sweep_io!("io plain", |s| stylish::io::Plain::new(s), |w| w.into_inner());
    }
}

#[cfg(feature = "std")]
fn io(o: &mut Out, base: u64, docs: u64) {
    extern crate std;
    use std::{io, string::String as StdString, vec::Vec};
    use stylish::io::Write as _;
    /// takes a few bytes at a time and is interrupted
    struct Slow(Vec<u8>, usize);
    impl io::Write for Slow {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.1 += 1;
            if self.1 % 5 == 0 {
                return Err(io::ErrorKind::Interrupted.into());
            }
            let n = b.len().min(1 + self.1 % 4);
            self.0.extend_from_slice(&b[..n]);
            Ok(n)
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    struct User(StdString);
    impl stylish::io::Write for User {
        fn write(&mut self, b: &[u8], s: Style) -> stylish::io::Result<usize> {
            use core::fmt::Write as _;
            let n = b.len().min(3);
            core::write!(self.0, "{:?}{:?}", s, &b[..n]).unwrap();
            Ok(n)
        }
        fn flush(&mut self) -> stylish::io::Result<()> {
            Ok(())
        }
    }
    fn doc(w: &mut dyn stylish::io::Write, k: u64) {
        for i in 0..k % 5 + 1 {
            w.write_all(TEXTS[((k * 7 + i * 3) % 8) as usize].as_bytes(), style(k * 31 + i * 289 + i)).unwrap();
        }
        w.flush().unwrap();
    }
    let _ = stylish::io::Error::from(stylish::io::ErrorKind::Other);
    let mut l;
    for k in base..base + docs {
        let mut w = User(StdString::new());
        doc(&mut w, k);
        #[cfg(not(feature = "macros"))]
        w.0.push_str("");
        o.val(label!(l, "io user writer {k}"), core::format_args!("{}", w.0));
        #[cfg(feature = "macros")]
        {
            let mut w = User(StdString::new());
            stylish::write!(w, "{:(fg=red)s}{:s}", Val(k), Val(k + 2)).unwrap();
            stylish::writeln!(w.by_ref(), "{:?}", k).unwrap();
            o.put(label!(l, "io user writer macros {k}"), &w.0);
        }
        #[cfg(feature = "ansi")]
        {
            let mut w = stylish::io::ansi(Slow(Vec::new(), k as usize));
            doc(&mut w, k);
            o.put(label!(l, "io ansi {k}"), &StdString::from_utf8(w.finish().unwrap().0).unwrap());
            #[cfg(feature = "macros")]
            {
                let mut w = stylish::io::Ansi::new(Slow(Vec::new(), k as usize));
                stylish::write!(w, "{:(fg=red)s}{:s}", Val(k), Val(k + 2)).unwrap();
                o.put(label!(l, "io ansi macros {k}"), &StdString::from_utf8(w.finish().unwrap().0).unwrap());
            }
        }
        #[cfg(feature = "plain")]
        {
            let mut w = stylish::io::plain(Slow(Vec::new(), k as usize));
            doc(&mut w, k);
            o.put(label!(l, "io plain {k}"), &StdString::from_utf8(w.into_inner().0).unwrap());
            #[cfg(feature = "macros")]
            {
                let mut w = stylish::io::Plain::new(Slow(Vec::new(), k as usize));
                stylish::write!(w, "{:(fg=red)s}{:s}", Val(k), Val(k + 2)).unwrap();
                o.put(label!(l, "io plain macros {k}"), &StdString::from_utf8(w.into_inner().0).unwrap());
            }
        }
    }
}
