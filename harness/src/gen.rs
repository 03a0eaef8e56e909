//! Workload generators.
use crate::model::{R, S, DEF, N_STYLES};
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Text {
    Ascii,
    Html,
    Unicode,
    Control,
    /// a mixture, without escape characters
    Any,
    /// a mixture with escape characters and sequences
    Raw,
}

const HOSTILE: &[&str] = &[
    "<", ">", "&", "\"", "'", "</span>", "<span style=color:red>", "<script>alert(1)</script>",
    "&lt;", "&gt;", "&quot;", "&apos;", "&#39;", "&#34;", "&#38;", "&#x27;", "&#X22;", "&nbsp;", "&amp;amp;", "&amp;", "&#60;", "&#x3c;", "&", ";", "=", "/", "<!--", "-->", "<![CDATA[", "]]>", "<b",
    "style=", "&lt", "&&", "<<", "\">", "'>", "`", "a<b>c&d\"e'f",
];
const UNI: &[char] = &[
    'é', 'ß', '\u{0}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '☎', '⚠', '𓀄',
    '\u{301}', '\u{200d}', '\u{fe0f}', '\u{feff}', '\u{202e}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '日', '本', '🦀',
    '\u{a0}', '\u{ad}', '\u{9b}', '\u{85}', '\u{2028}',
];
const ESCAPES: &[&str] = &[
    "\x1b", "\x1b[", "\x1b[0m", "\x1b[31m", "\x1b[m", "[31m", "0m", "\x1b]8;;x\x07", "\x1b[2J", "\x1b[1;31", ";1m", "m",
];

/// Texts and numbers that occur in the sources of the code under test, with weights.
pub struct Dict {
    texts: Vec<String>,
    /// those without escape characters
    quiet: Vec<String>,
    numbers: Vec<usize>,
}
pub fn dict() -> &'static Dict {
    static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    DICT.get_or_init(|| {
        let mut d = Dict { texts: vec![], quiet: vec![], numbers: vec![] };
        let file = std::env::var("SVH_DICT").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        for l in file.lines() {
            let mut f = l.split(' ');
            let (Some(kind), Some(weight), Some(x)) = (f.next(), f.next().and_then(|w| w.parse::<usize>().ok()), f.next()) else { continue };
            if kind == "n" {
                if let Ok(n) = x.parse::<usize>() {
                    d.numbers.extend(std::iter::repeat(n).take(weight));
                }
                continue;
            }
            let b: Option<Vec<u8>> = (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).ok()).collect();
            if let Some(t) = b.and_then(|b| String::from_utf8(b).ok()) {
                for _ in 0..weight {
                    if !t.contains('\x1b') {
                        d.quiet.push(t.clone());
                    }
                    d.texts.push(t.clone());
                }
            }
        }
        for n in [127, 128, 255, 256, 1024, 4096, 65535, 65536] {
            d.numbers.push(n);
        }
        if d.texts.is_empty() {
            d.texts.push("x".into());
        }
        if d.quiet.is_empty() {
            d.quiet.push("x".into());
        }
        d
    })
}
/// a text of the dictionary
pub fn word(r: &mut Rng, t: Text) -> &'static str {
    r.pick(if t == Text::Raw { &dict().texts } else { &dict().quiet })
}
/// a number of the dictionary of at most this size, or next to one
pub fn number(r: &mut Rng, max: usize) -> usize {
    for _ in 0..4 {
        let n = r.pick(&dict().numbers).saturating_add(r.below(3)).saturating_sub(1);
        if n <= max {
            return n;
        }
    }
    r.range(0, max.min(20))
}

pub fn ch(r: &mut Rng, t: Text) -> char {
    match t {
        Text::Ascii => (b' ' + r.below(95) as u8) as char,
        Text::Html => *r.pick(&['<', '>', '&', '"', '\'', '/', 'a', 'b', ';', '#', '3', '=', ' ']),
        Text::Unicode => {
            if r.one_in(3) {
                *r.pick(UNI)
            } else {
                loop {
                    let hi = *r.pick(&[0x80, 0x800, 0x10000, 0x110000]);
                    if let Some(c) = char::from_u32(r.below(hi) as u32) {
                        if c != '\x1b' {
                            return c;
                        }
                    }
                }
            }
        }
        Text::Control => loop {
            let c = *r.pick(&['\n', '\r', '\t', ' ', '\x08', '\x07', '\0', '\x7f', '\x0b', '\x0c', '\x01']);
            if c != '\x1b' {
                return c;
            }
        },
        Text::Any => {
            let t = *r.pick(&[Text::Ascii, Text::Ascii, Text::Html, Text::Unicode, Text::Control]);
            ch(r, t)
        }
        Text::Raw => {
            if r.one_in(4) {
                '\x1b'
            } else {
                ch(r, Text::Any)
            }
        }
    }
}

pub fn len(r: &mut Rng) -> usize {
    match r.below(2000) {
        0..=199 => 0,
        200..=799 => 1,
        800..=1599 => r.range(2, 9),
        1600..=1939 => r.range(10, 70),
        1940..=1996 => r.range(71, 700),
        1997 => r.range(701, 5000),
        1998 => number(r, 300_000),
        _ if r.one_in(25) => giant(r),
        _ => r.range(5000, 70000),
    }
}
/// far longer than what any buffer holds, often by one
pub fn giant(r: &mut Rng) -> usize {
    if cfg!(miri) {
        return 300;
    }
    match r.below(3) {
        0 => (1usize << r.range(12, 20)) + r.below(3) - 1,
        1 => number(r, 1_500_000),
        _ => {
            let hi = 1usize << r.range(13, 20);
            r.range(5000, hi)
        }
    }
}

pub fn text(r: &mut Rng, t: Text) -> String {
    if r.one_in(25) {
        return word(r, t).into();
    }
    let n = len(r);
    text_n(r, t, n)
}
pub fn small_text(r: &mut Rng, t: Text) -> String {
    if r.one_in(25) {
        return word(r, t).into();
    }
    if r.one_in(4000) {
        // of little that has to be escaped
        let n = giant(r);
        let mut s = text_n(r, Text::Ascii, 30).repeat(n / 30 + 1);
        s.truncate(n);
        s.push_str(&text_n(r, t, 2));
        return s;
    }
    let n = r.below(7);
    text_n(r, t, n)
}
pub fn text_n(r: &mut Rng, t: Text, n: usize) -> String {
    let mut s = String::new();
    if n > 700 {
        // long text: repeat a short unit, with a break somewhere
        let k = r.range(1, 40);
        let unit: String = (0..k).map(|_| ch(r, t)).collect();
        while s.len() < n {
            s.push_str(&unit);
            if r.one_in(50) {
                s.push(ch(r, t));
            }
        }
        return s;
    }
    for _ in 0..n {
        match (t, r.below(6)) {
            _ if r.one_in(30) => s.push_str(word(r, t)),
            (Text::Html | Text::Any, 0) => s.push_str(r.pick(HOSTILE)),
            (Text::Raw, 0) => s.push_str(r.pick(ESCAPES)),
            _ => s.push(ch(r, t)),
        }
    }
    s
}

pub fn kind(r: &mut Rng) -> Text {
    *r.pick(&[Text::Ascii, Text::Html, Text::Unicode, Text::Control, Text::Any, Text::Any])
}

pub fn style(r: &mut Rng) -> S {
    match r.below(8) {
        0 => DEF,
        1 => S { fg: r.below(17) as u8, ..DEF },
        2 => S { int: r.below(3) as u8, ..DEF },
        3 => S { bg: r.below(17) as u8, ..DEF },
        _ => S::nth(r.below(N_STYLES)),
    }
}

/// a style for the next write, given the last one
pub fn next_style(r: &mut Rng, last: S, palette: &[S]) -> S {
    match r.below(10) {
        0 => DEF,
        1 | 2 => last,
        3 => S { fg: r.below(17) as u8, ..last },
        4 => S { bg: r.below(17) as u8, ..last },
        5 => S { int: r.below(3) as u8, ..last },
        6 => S { fg: last.bg, bg: last.fg, ..last },
        7 | 8 => *r.pick(palette),
        _ => style(r),
    }
}

pub type Runs = Vec<(String, S)>;

pub fn script(r: &mut Rng, t: Option<Text>) -> Runs {
    let n = match r.below(100) {
        0..=1 => 0,
        2..=9 => 1,
        10..=59 => r.range(2, 6),
        60..=96 => r.range(7, 30),
        97..=98 => r.range(31, 200),
        _ if r.one_in(4) => number(r, 10_000),
        _ => r.range(200, 1500),
    };
    script_n(r, t, n)
}
pub fn script_n(r: &mut Rng, t: Option<Text>, n: usize) -> Runs {
    let palette: Vec<S> = (0..r.range(1, 4)).map(|_| style(r)).collect();
    let mut last = DEF;
    let mut total = 0;
    (0..n)
        .map(|_| {
            let k = t.unwrap_or_else(|| kind(r));
            last = next_style(r, last, &palette);
            let s = if n > 30 || total > 3000 { small_text(r, k) } else { text(r, k) };
            total += s.len();
            (s, last)
        })
        .collect()
}

/// Cut the same styled characters into different writes, with empty ones added.
pub fn refragment(r: &mut Rng, runs: &[(String, S)]) -> Runs {
    let mut out = Vec::new();
    let mode = r.below(4);
    for (t, s) in crate::model::canonical(runs) {
        let cs: Vec<char> = t.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            let n = match mode {
                0 => 1,
                1 => cs.len(),
                2 => r.range(1, 3),
                _ => r.range(1, cs.len()),
            }
            .min(cs.len() - i);
            if r.one_in(4) {
                out.push((String::new(), style(r)));
            }
            out.push((cs[i..i + n].iter().collect(), s));
            i += n;
        }
    }
    while r.one_in(3) {
        out.push((String::new(), style(r)));
    }
    out
}

pub fn restyle(r: &mut Rng, depth: usize) -> R {
    let c = |r: &mut Rng| r.below(17) as u8;
    let o = |r: &mut Rng, n: usize| (!r.one_in(3)).then(|| r.below(n) as u8);
    let k = if depth == 0 { r.below(11) } else { r.below(19) };
    match k {
        0 | 1 => R::Fg(c(r)),
        2 | 3 => R::Bg(c(r)),
        4 => R::Int(r.below(3) as u8),
        5 => R::Full(style(r)),
        6 => R::Diff(o(r, 17), o(r, 17), o(r, 3)),
        7 => R::Unit,
        8 => r.pick(&[R::Swap, R::Rotate, R::OhNo]).clone(),
        9 => R::OptPair(o(r, 17), o(r, 17)),
        10 => R::None,
        11 => R::Pair(Box::new((restyle(r, depth - 1), restyle(r, depth - 1)))),
        12 => R::Triple(Box::new((restyle(r, depth - 1), restyle(r, depth - 1), restyle(r, depth - 1)))),
        13 => R::Some(Box::new(restyle(r, depth - 1))),
        14 => R::Boxed(Box::new(restyle(r, depth - 1))),
        15 => R::Ref(Box::new(restyle(r, depth - 1))),
        16 => {
            let n = r.below(5);
            R::BoxedSlice((0..n).map(|_| restyle(r, depth - 1)).collect())
        }
        _ => {
            let n = r.below(6);
            R::Slice((0..n).map(|_| restyle(r, depth - 1)).collect())
        }
    }
}

pub fn key(runs: &[(String, S)]) -> Vec<u8> {
    let mut v = Vec::new();
    for (t, s) in runs {
        v.extend_from_slice(&(s.index() as u16).to_le_bytes());
        v.extend_from_slice(t.as_bytes());
        v.push(0xff);
    }
    v
}

pub fn show(runs: &[(String, S)]) -> String {
    let mut o = String::new();
    for (t, s) in runs.iter().take(40) {
        let short: String = t.chars().take(60).collect();
        o.push_str(&format!(
            "({short:?}{} fg={} bg={} int={}) ",
            if short.len() < t.len() { format!("..{} bytes", t.len()) } else { String::new() },
            s.fg,
            s.bg,
            s.int
        ));
    }
    if runs.len() > 40 {
        o.push_str(&format!("... {} in all", runs.len()));
    }
    o
}
