//! Ways to push a list of styled texts through a writer.
use crate::model::S;
use std::io as sio;
use stylish::{Display, Formatter};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Drv {
    /// one write per text
    Str,
    /// one write per character
    Chars,
    /// through a trait object
    Dyn,
    /// one rendering, a sub-formatter per text
    Nested,
    /// one rendering per text
    Each,
    /// a different way for every text
    Mixed,
    /// one rendering, the texts as arguments of std traits under sub-formatters
    Args,
    /// single calls of `write` for the writers of bytes, also for nothing at all; a piece of
    /// every text and the rest of it for the others, with a rendering of nothing in between
    Single,
}
pub const DRVS: [Drv; 8] = [Drv::Str, Drv::Chars, Drv::Dyn, Drv::Nested, Drv::Each, Drv::Mixed, Drv::Args, Drv::Single];

type Run = (String, S);

pub struct Nested<'a>(pub &'a [Run]);
impl Display for Nested<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        for (t, s) in self.0 {
            f.with(s.lib()).write_str(t)?;
        }
        Ok(())
    }
}
pub struct NestedArgs<'a>(pub &'a [Run]);
impl Display for NestedArgs<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        for (t, s) in self.0 {
            stylish::write!(f.with(s.lib()), "{}", t)?;
        }
        Ok(())
    }
}

pub fn feed(w: &mut dyn stylish::Write, runs: &[Run], drv: Drv) -> stylish::Result {
    match drv {
        Drv::Nested => return w.write_fmt(stylish::format_args!("{:s}", Nested(runs))),
        Drv::Args => return w.write_fmt(stylish::format_args!("{:s}", NestedArgs(runs))),
        _ => {}
    }
    for (i, (t, s)) in runs.iter().enumerate() {
        let drv = if drv == Drv::Mixed { [Drv::Str, Drv::Chars, Drv::Dyn, Drv::Each, Drv::Single][i % 5] } else { drv };
        match drv {
            Drv::Chars => {
                for c in t.chars() {
                    w.write_char(c, s.lib())?;
                }
            }
            Drv::Dyn => {
                let mut w = &mut *w;
                let w: &mut dyn stylish::Write = &mut w;
                w.write_str(t, s.lib())?;
            }
            Drv::Each => w.write_fmt(stylish::format_args!("{:s}", Nested(&runs[i..=i])))?,
            Drv::Single => {
                let (a, b) = t.split_at(t.char_indices().nth(1).map_or(t.len(), |x| x.0));
                w.write_str(a, s.lib())?;
                stylish::write!(w, "{:s}", stylish::format_args!(""))?;
                w.write_str(b, s.lib())?;
            }
            _ => w.write_str(t, s.lib())?,
        }
    }
    Ok(())
}

pub fn feed_io(w: &mut dyn stylish::io::Write, runs: &[Run], drv: Drv) -> sio::Result<()> {
    // whether a write of nothing changes the style is up to the writer, and among escape
    // characters of the text it could not be told what it did
    let raw = runs.iter().any(|r| r.0.contains('\x1b'));
    match drv {
        Drv::Nested => return w.write_fmt(stylish::format_args!("{:s}", Nested(runs))),
        Drv::Args => return w.write_fmt(stylish::format_args!("{:s}", NestedArgs(runs))),
        _ => {}
    }
    for (i, (t, s)) in runs.iter().enumerate() {
        let drv = if drv == Drv::Mixed { [Drv::Str, Drv::Chars, Drv::Dyn, Drv::Each, Drv::Single][i % 5] } else { drv };
        match drv {
            Drv::Chars => {
                for c in t.chars() {
                    w.write_all(c.encode_utf8(&mut [0; 4]).as_bytes(), s.lib())?;
                }
            }
            Drv::Dyn => {
                let mut w = &mut *w;
                let w: &mut dyn stylish::io::Write = &mut w;
                w.write_all(t.as_bytes(), s.lib())?;
            }
            Drv::Each => w.write_fmt(stylish::format_args!("{:s}", Nested(&runs[i..=i])))?,
            Drv::Single if !(raw && t.is_empty()) => {
                let mut b = t.as_bytes();
                loop {
                    let n = match w.write(b, s.lib()) {
                        Err(e) if e.kind() == sio::ErrorKind::Interrupted => continue,
                        n => n?,
                    };
                    if n > b.len() {
                        return Err(sio::Error::other(format!("{n} of {} bytes were reported as written", b.len())));
                    }
                    b = &b[n..];
                    if b.is_empty() {
                        break;
                    }
                    if n == 0 {
                        return Err(sio::ErrorKind::WriteZero.into());
                    }
                }
            }
            _ => w.write_all(t.as_bytes(), s.lib())?,
        }
    }
    Ok(())
}

pub fn ansi(runs: &[Run], drv: Drv) -> Result<String, String> {
    let mut w = stylish::Ansi::new(String::new());
    feed(&mut w, runs, drv).map_err(|_| "write into a String failed")?;
    Ok(w.finish().map_err(|_| "finish into a String failed")?)
}
pub fn html(runs: &[Run], drv: Drv) -> Result<String, String> {
    let mut w = stylish::Html::new(String::new());
    feed(&mut w, runs, drv).map_err(|_| "write into a String failed")?;
    Ok(w.finish().map_err(|_| "finish into a String failed")?)
}
pub fn plain(runs: &[Run], drv: Drv) -> Result<String, String> {
    let mut w = stylish::Plain::new(String::new());
    feed(&mut w, runs, drv).map_err(|_| "write into a String failed")?;
    Ok(w.into_inner())
}
pub fn io_ansi(runs: &[Run], drv: Drv) -> Result<Vec<u8>, String> {
    let mut w = stylish::io::Ansi::new(Vec::new());
    feed_io(&mut w, runs, drv).map_err(|e| format!("write into a Vec failed: {e}"))?;
    w.finish().map_err(|e| format!("finish into a Vec failed: {e}"))
}
pub fn io_plain(runs: &[Run], drv: Drv) -> Result<Vec<u8>, String> {
    let mut w = stylish::io::Plain::new(Vec::new());
    feed_io(&mut w, runs, drv).map_err(|e| format!("write into a Vec failed: {e}"))?;
    Ok(w.into_inner())
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Back {
    Ansi,
    Html,
    Plain,
    IoAnsi,
    IoPlain,
}
pub const BACKS: [Back; 5] = [Back::Ansi, Back::Html, Back::Plain, Back::IoAnsi, Back::IoPlain];

pub fn render(b: Back, runs: &[Run], drv: Drv) -> Result<Vec<u8>, String> {
    match b {
        Back::Ansi => ansi(runs, drv).map(Into::into),
        Back::Html => html(runs, drv).map(Into::into),
        Back::Plain => plain(runs, drv).map(Into::into),
        Back::IoAnsi => io_ansi(runs, drv),
        Back::IoPlain => io_plain(runs, drv),
    }
}

/// Render any value through a backend.
pub fn render_value(b: Back, d: &dyn Display) -> Result<Vec<u8>, String> {
    let bad = |e: &dyn std::fmt::Debug| format!("rendering into memory failed: {e:?}");
    Ok(match b {
        Back::Ansi => {
            let mut w = stylish::Ansi::new(String::new());
            stylish::write!(w, "{:s}", d).map_err(|e| bad(&e))?;
            w.finish().map_err(|e| bad(&e))?.into()
        }
        Back::Html => {
            let mut w = stylish::Html::new(String::new());
            stylish::write!(w, "{:s}", d).map_err(|e| bad(&e))?;
            w.finish().map_err(|e| bad(&e))?.into()
        }
        Back::Plain => {
            let mut w = stylish::Plain::new(String::new());
            stylish::write!(w, "{:s}", d).map_err(|e| bad(&e))?;
            w.into_inner().into()
        }
        Back::IoAnsi => {
            let mut w = stylish::io::Ansi::new(Vec::new());
            stylish::write!(w, "{:s}", d).map_err(|e| bad(&e))?;
            w.finish().map_err(|e| bad(&e))?
        }
        Back::IoPlain => {
            let mut w = stylish::io::Plain::new(Vec::new());
            stylish::write!(w, "{:s}", d).map_err(|e| bad(&e))?;
            w.into_inner()
        }
    })
}

/// Check that the output of a backend shows these characters in their styles.
pub fn verify_style(b: Back, out: &[u8], runs: &[Run]) -> Result<(), String> {
    use crate::model::{canonical, chars_of, text_of};
    match b {
        Back::Ansi | Back::IoAnsi => {
            if runs.iter().any(|(t, _)| t.contains('\x1b')) {
                let r: Vec<(Vec<u8>, S)> =
                    canonical(runs).into_iter().map(|(t, s)| (t.into_bytes(), s)).collect();
                crate::vt::lockstep(out, &r).map(|_| ())
            } else {
                let (cells, _, _) = crate::vt::run(out)?;
                crate::vt::compare(&cells, &chars_of(runs))
            }
        }
        Back::Html => {
            let s = std::str::from_utf8(out).map_err(|e| format!("not UTF-8: {e}"))?;
            let (cells, _) = crate::html::run(s, true)?;
            crate::html::compare(&cells, &chars_of(runs))
        }
        Back::Plain | Back::IoPlain => {
            let want = text_of(runs);
            match crate::model::first_diff(out, want.as_bytes()) {
                None => Ok(()),
                Some(d) => Err(format!("plain output: {d}")),
            }
        }
    }
}
