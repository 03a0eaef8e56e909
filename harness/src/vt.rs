//! The terminal that looks at ANSI output.
use crate::model::S;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Term {
    /// 0..=7 normal, 8..=15 bright, 16 default
    pub fg: u8,
    pub bg: u8,
    pub bold: bool,
    pub faint: bool,
}
pub const RESET: Term = Term { fg: 16, bg: 16, bold: false, faint: false };

/// What a terminal has to be set to for text in this style
pub fn want(s: S) -> Term {
    Term { fg: s.fg, bg: s.bg, bold: s.int == 1, faint: s.int == 2 }
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub sequences: usize,
    pub codes: usize,
    /// sequences that left the terminal as it was, or text-less pairs of them
    pub redundant: usize,
    /// codes in a sequence that set what was already set
    pub redundant_codes: usize,
}

/// Parse one SGR sequence at the start of `b`: its length, and its effect.
pub fn sgr(b: &[u8], t: Term) -> Result<(usize, Term, Vec<u16>), String> {
    if !b.starts_with(b"\x1b[") {
        return Err("no escape sequence".into());
    }
    let end = b[2..]
        .iter()
        .position(|c| !matches!(c, b'0'..=b'9' | b';'))
        .ok_or("unterminated escape sequence")?
        + 2;
    if b[end] != b'm' {
        return Err(format!("escape sequence {:?} is not SGR", String::from_utf8_lossy(&b[..=end])));
    }
    let mut t = t;
    let mut codes = Vec::new();
    for p in b[2..end].split(|&c| c == b';') {
        let p: u16 = if p.is_empty() {
            0
        } else {
            std::str::from_utf8(p).unwrap().parse().map_err(|_| "bad SGR parameter")?
        };
        codes.push(p);
        match p {
            0 => t = RESET,
            1 => t.bold = true,
            2 => t.faint = true,
            22 => {
                t.bold = false;
                t.faint = false;
            }
            30..=37 => t.fg = (p - 30) as u8,
            39 => t.fg = 16,
            40..=47 => t.bg = (p - 40) as u8,
            49 => t.bg = 16,
            90..=97 => t.fg = (p - 90 + 8) as u8,
            100..=107 => t.bg = (p - 100 + 8) as u8,
            _ => return Err(format!("unexpected SGR parameter {p}")),
        }
    }
    Ok((end + 1, t, codes))
}

/// Interpret `out` as a terminal does; for text without escape characters.
pub fn run(out: &[u8]) -> Result<(Vec<(char, Term)>, Term, Stats), String> {
    run_from(out, RESET)
}

pub fn run_from(out: &[u8], start: Term) -> Result<(Vec<(char, Term)>, Term, Stats), String> {
    let s = std::str::from_utf8(out).map_err(|e| format!("output is not UTF-8: {e}"))?;
    let b = s.as_bytes();
    let mut t = start;
    let mut cells = Vec::new();
    let mut stats = Stats::default();
    let mut i = 0;
    let mut since_text = 0;
    while i < b.len() {
        if b[i] == 0x1b {
            let (n, t2, codes) = sgr(&b[i..], t).map_err(|e| format!("{e} at byte {i}"))?;
            stats.sequences += 1;
            stats.codes += codes.len();
            since_text += 1;
            if t2 == t || since_text > 1 {
                stats.redundant += 1;
            }
            // a code is redundant if leaving it out gives the same result
            if codes.len() > 1 {
                for skip in 0..codes.len() {
                    let alt: Vec<String> = codes
                        .iter()
                        .enumerate()
                        .filter(|(k, _)| *k != skip)
                        .map(|(_, c)| c.to_string())
                        .collect();
                    let alt = format!("\x1b[{}m", alt.join(";"));
                    if sgr(alt.as_bytes(), t).unwrap().1 == t2 {
                        stats.redundant_codes += 1;
                    }
                }
            }
            t = t2;
            i += n;
        } else {
            let c = s[i..].chars().next().unwrap();
            cells.push((c, t));
            since_text = 0;
            i += c.len_utf8();
        }
    }
    Ok((cells, t, stats))
}

/// Check that `out` is exactly the runs of text in order, with nothing between
/// them but SGR sequences that put the terminal into the style of the next run.
/// Works for texts that contain escape characters themselves.
/// Returns the state the terminal is left in.
pub fn lockstep(out: &[u8], runs: &[(Vec<u8>, S)]) -> Result<Term, String> {
    let mut t = RESET;
    let mut i = 0;
    for (k, (text, s)) in runs.iter().enumerate() {
        if text.is_empty() {
            continue;
        }
        loop {
            if t == want(*s) && out[i..].starts_with(text) {
                i += text.len();
                break;
            }
            if !out[i..].starts_with(b"\x1b[") {
                return Err(format!(
                    "before text {k} {:?}: terminal is {t:?}, want {:?}, next bytes {:?}",
                    String::from_utf8_lossy(&text[..text.len().min(40)]),
                    want(*s),
                    String::from_utf8_lossy(&out[i..out.len().min(i + 40)])
                ));
            }
            let (n, t2, _) = sgr(&out[i..], t).map_err(|e| format!("before text {k}: {e}"))?;
            i += n;
            t = t2;
        }
    }
    while i < out.len() {
        let (n, t2, _) = sgr(&out[i..], t).map_err(|e| format!("after all text: {e}"))?;
        i += n;
        t = t2;
    }
    Ok(t)
}

pub fn compare(cells: &[(char, Term)], want_chars: &[(char, S)]) -> Result<(), String> {
    let w: Vec<(char, Term)> = want_chars.iter().map(|(c, s)| (*c, want(*s))).collect();
    match crate::model::first_diff(cells, &w) {
        None => Ok(()),
        Some(d) => Err(d),
    }
}
