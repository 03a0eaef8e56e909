//! The reader of HTML output: a strict tokenizer for fragments that may only
//! consist of character data and span elements with a style attribute.
use crate::model::S;

/// colors as 0xrrggbb, None where not set
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct H {
    pub fg: Option<u32>,
    pub bg: Option<u32>,
    pub weight: u8,
}
pub const PLAIN: H = H { fg: None, bg: None, weight: 0 };

const RGB: [u32; 16] = [
    0x000000, 0xff0000, 0x008000, 0xffff00, 0x0000ff, 0xff00ff, 0x00ffff, 0xffffff, // named
    0x808080, 0xaf0000, 0x00ff00, 0xffff00, 0x0000ff, 0xff00ff, 0x00ffff, 0xffffff, // bright
];

pub fn want(s: S) -> H {
    H { fg: RGB.get(s.fg as usize).copied(), bg: RGB.get(s.bg as usize).copied(), weight: s.int }
}

fn color(v: &str) -> Result<Option<u32>, String> {
    Ok(Some(match v.to_ascii_lowercase().as_str() {
        "inherit" | "initial" | "unset" => return Ok(None),
        "black" => 0x000000,
        "red" => 0xff0000,
        "green" => 0x008000,
        "lime" => 0x00ff00,
        "yellow" => 0xffff00,
        "blue" => 0x0000ff,
        "magenta" | "fuchsia" => 0xff00ff,
        "cyan" | "aqua" => 0x00ffff,
        "white" => 0xffffff,
        "gray" | "grey" => 0x808080,
        "maroon" => 0x800000,
        h if h.starts_with('#') && h.len() == 7 && h.is_ascii() => {
            u32::from_str_radix(&h[1..], 16).map_err(|_| format!("bad color {h}"))?
        }
        h if h.starts_with('#') && h.len() == 4 && h.is_ascii() => {
            let v = u32::from_str_radix(&h[1..], 16).map_err(|_| format!("bad color {h}"))?;
            (v >> 8) * 0x110000 + (v >> 4 & 15) * 0x1100 + (v & 15) * 0x11
        }
        other => return Err(format!("unknown color {other:?}")),
    }))
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub spans: usize,
    pub max_depth: usize,
    pub references: usize,
    pub empty_spans: usize,
    /// raw characters that HTML gives a meaning to in some context
    pub raw_special: usize,
    pub unclosed: usize,
}

fn style_value(v: &str, outer: H) -> Result<H, String> {
    let mut h = outer;
    for decl in v.split(';') {
        let decl = decl.trim();
        if decl.is_empty() {
            continue;
        }
        let (name, val) = decl.split_once(':').ok_or_else(|| format!("bad declaration {decl:?}"))?;
        match (name.trim(), val.trim()) {
            ("color", v) => h.fg = color(v)?.or(outer.fg),
            ("background-color" | "background", v) => h.bg = color(v)?.or(outer.bg),
            ("font-weight", "bolder" | "bold") => h.weight = 1,
            ("font-weight", "lighter") => h.weight = 2,
            ("font-weight", "inherit") => h.weight = outer.weight,
            ("font-weight", "normal") => h.weight = 0,
            _ => return Err(format!("unexpected declaration {decl:?}")),
        }
    }
    Ok(h)
}

fn span_tag(s: &str, outer: H) -> Result<(usize, H), String> {
    // `<span style=VALUE>`
    let rest = s.strip_prefix("<span").ok_or("not a span")?;
    let trimmed = rest.trim_start_matches(|c: char| c.is_ascii_whitespace());
    if trimmed.len() == rest.len() {
        return Err("junk in span tag".into());
    }
    let rest = trimmed.strip_prefix("style=").ok_or("span without style attribute")?;
    let (value, rest) = match rest.as_bytes().first() {
        Some(&q @ (b'"' | b'\'')) => {
            let end = rest[1..].find(q as char).ok_or("unterminated attribute")? + 1;
            (&rest[1..end], &rest[end + 1..])
        }
        _ => {
            let end = rest
                .find(|c: char| {
                    c.is_ascii_whitespace() || matches!(c, '>' | '"' | '\'' | '=' | '<' | '`')
                })
                .ok_or("unterminated tag")?;
            if end == 0 {
                return Err("empty style attribute".into());
            }
            (&rest[..end], &rest[end..])
        }
    };
    let rest = rest.trim_start_matches(|c: char| c.is_ascii_whitespace());
    let rest = rest.strip_prefix('>').ok_or("junk after style attribute")?;
    Ok((s.len() - rest.len(), style_value(value, outer)?))
}

fn reference(s: &str) -> Result<(usize, char), String> {
    let end = s.find(';').filter(|e| *e <= 12).ok_or("bare &")?;
    let body = &s[1..end];
    let c = if let Some(n) = body.strip_prefix('#') {
        let v = if let Some(h) = n.strip_prefix('x').or_else(|| n.strip_prefix('X')) {
            u32::from_str_radix(h, 16)
        } else {
            n.parse()
        }
        .map_err(|_| format!("bad character reference &{body};"))?;
        char::from_u32(v).ok_or_else(|| format!("bad character reference &{body};"))?
    } else {
        match body {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            "sol" => '/',
            _ => return Err(format!("bad character reference &{body};")),
        }
    };
    Ok((end + 1, c))
}

/// `complete`: a finished fragment has to have all its elements closed
pub fn run(out: &str, complete: bool) -> Result<(Vec<(char, H)>, Stats), String> {
    let mut cells = Vec::new();
    let mut stats = Stats::default();
    let mut stack: Vec<(H, usize)> = Vec::new();
    let mut i = 0;
    while i < out.len() {
        let cur = stack.last().map_or(PLAIN, |x| x.0);
        let rest = &out[i..];
        let err = |e: String| {
            let a: String = rest.chars().take(40).collect();
            format!("{e} at byte {i}: {a:?}")
        };
        if rest.starts_with("</span>") {
            let (_, start) = stack.pop().ok_or_else(|| err("closing tag without element".into()))?;
            if start == cells.len() {
                stats.empty_spans += 1;
            }
            i += "</span>".len();
        } else if rest.starts_with('<') {
            let (n, h) = span_tag(rest, cur).map_err(err)?;
            stack.push((h, cells.len()));
            stats.spans += 1;
            stats.max_depth = stats.max_depth.max(stack.len());
            i += n;
        } else if rest.starts_with('&') {
            let (n, c) = reference(rest).map_err(err)?;
            stats.references += 1;
            cells.push((c, cur));
            i += n;
        } else {
            let c = rest.chars().next().unwrap();
            if matches!(c, '>' | '"' | '\'') {
                stats.raw_special += 1;
            }
            cells.push((c, cur));
            i += c.len_utf8();
        }
    }
    stats.unclosed = stack.len();
    if complete && !stack.is_empty() {
        return Err(format!("{} elements left open at the end", stack.len()));
    }
    Ok((cells, stats))
}

pub fn compare(cells: &[(char, H)], want_chars: &[(char, S)]) -> Result<(), String> {
    let w: Vec<(char, H)> = want_chars.iter().map(|(c, s)| (*c, want(*s))).collect();
    match crate::model::first_diff(cells, &w) {
        None => Ok(()),
        Some(d) => Err(d),
    }
}
