//! Documents: trees of styled pieces that render themselves through every way
//! the API has to write through a formatter, and that know what they should
//! render as.
use crate::gen::{self, Runs, Text};
use crate::model::{R, S};
use crate::rng::Rng;
use std::cell::Cell;
use stylish::{Display, Formatter, Result};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TextVia {
    WriteStr,
    Args,
    Macro,
    CoreWriteStr,
    CoreWriteChars,
    CoreWriteFmt,
    WriteTraitFmt,
    StrArg,
    /// with literals of the format string before and after
    Line,
    Around,
    CoreAround,
    /// with attributes in the format string
    Attrs,
}
pub const TEXT_VIAS: [TextVia; 12] = [
    TextVia::WriteStr,
    TextVia::Args,
    TextVia::Macro,
    TextVia::CoreWriteStr,
    TextVia::CoreWriteChars,
    TextVia::CoreWriteFmt,
    TextVia::WriteTraitFmt,
    TextVia::StrArg,
    TextVia::Line,
    TextVia::Around,
    TextVia::CoreAround,
    TextVia::Attrs,
];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Via {
    Each,
    Args,
    ArgsEach,
    Dyn,
    WriteTrait,
    RefRef,
    /// every one between literals, on a line of its own
    Lines,
}
pub const VIAS: [Via; 7] = [Via::Each, Via::Args, Via::ArgsEach, Via::Dyn, Via::WriteTrait, Via::RefRef, Via::Lines];

#[derive(Clone, Debug)]
pub enum Doc {
    Text(String, TextVia),
    Seq(Vec<Doc>, Via),
    With(R, Vec<Doc>, Via),
    /// through `impl stylish::Write for Formatter`, which takes whole styles
    Abs(String, S),
    AbsChars(String, S),
    /// a styled string made of these runs
    Str(Runs),
    /// a value that goes on after the failure of a part of it
    Try(Vec<Doc>),
    /// this value's formatting fails
    Fail,
    /// a std value whose formatting fails after some text
    StdFail(String),
    /// user code that panics after some text
    Panic(String, Where),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Where {
    Value,
    Std,
    /// a std value, asked for through std's formatting
    Core,
    /// in the middle of a std value of several parts
    Debug,
    /// with flags, and attributes
    Flags,
    /// in the restyle of a sub-formatter
    Restyle,
    /// below another value, which holds a sub-formatter
    Below,
}
pub const WHERES: [Where; 7] = [Where::Value, Where::Std, Where::Core, Where::Debug, Where::Flags, Where::Restyle, Where::Below];

pub struct Payload(u64);
thread_local! {
    static BOOMS: Cell<u64> = const { Cell::new(0) };
    static UNWINDING: Cell<u64> = const { Cell::new(0) };
}
/// Panic in a way that can be told from all others
pub fn boom() -> ! {
    note_failure();
    let n = BOOMS.with(|b| b.get()) + 1;
    BOOMS.with(|b| b.set(n));
    if n % 3 == 0 {
        panic!("boom {n}")
    }
    std::panic::panic_any(Payload(n))
}
/// Called by sinks that are given something
pub fn note_write(n: usize) {
    if n > 0 && std::thread::panicking() {
        UNWINDING.with(|u| u.set(u.get() + 1));
    }
}
/// How often a sink was given something while a panic was on its way out
pub fn written_unwinding() -> u64 {
    UNWINDING.with(|u| u.get())
}
pub fn booms() -> u64 {
    BOOMS.with(|b| b.get())
}
/// Is this what the last `boom` threw?
pub fn is_boom(p: &(dyn std::any::Any + Send)) -> std::result::Result<(), String> {
    let n = booms();
    if let Some(Payload(k)) = p.downcast_ref() {
        return if *k == n { Ok(()) } else { Err(format!("the payload of panic {k} came out of panic {n}")) };
    }
    let text = p.downcast_ref::<String>().map(|s| s.as_str()).or(p.downcast_ref::<&str>().copied());
    if n % 3 == 0 && text == Some(&format!("boom {n}")) {
        return Ok(());
    }
    Err(format!("another panic: {text:?}"))
}

struct Panics<'a>(&'a str);
impl std::fmt::Display for Panics<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)?;
        boom()
    }
}
impl std::fmt::Debug for Panics<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(self, f)
    }
}
impl stylish::Restyle for Panics<'_> {
    fn apply(&self, _: stylish::Style) -> stylish::Style {
        boom()
    }
}

thread_local! {
    static FAILED: Cell<bool> = const { Cell::new(false) };
    static AFTER: Cell<usize> = const { Cell::new(0) };
    static VISITS: Cell<usize> = const { Cell::new(0) };
}
/// Called by whatever injects a failure
pub fn note_failure() {
    FAILED.with(|f| f.set(true));
}
pub fn reset_failure() {
    FAILED.with(|f| f.set(false));
    AFTER.with(|f| f.set(0));
    VISITS.with(|f| f.set(0));
}
/// Look at something without it counting as formatted
pub fn reset_failure_keep_after(f: impl FnOnce()) {
    let (a, b, c) = (FAILED.with(|x| x.get()), AFTER.with(|x| x.get()), VISITS.with(|x| x.get()));
    f();
    FAILED.with(|x| x.set(a));
    AFTER.with(|x| x.set(b));
    VISITS.with(|x| x.set(c));
}
/// Values formatted after a failure was injected
pub fn formatted_after_failure() -> usize {
    AFTER.with(|a| a.get())
}
fn visit() {
    VISITS.with(|v| v.set(v.get() + 1));
    if FAILED.with(|f| f.get()) {
        AFTER.with(|a| a.set(a.get() + 1));
    }
}

/// a std value that counts as visited when formatted
struct Counted<'a>(&'a str);
impl std::fmt::Display for Counted<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        visit();
        f.write_str(self.0)
    }
}
struct StdFail<'a>(&'a str);
impl std::fmt::Display for StdFail<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        visit();
        f.write_str(self.0)?;
        note_failure();
        Err(std::fmt::Error)
    }
}

struct Children<'a>(&'a [Doc]);
impl Display for Children<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> Result {
        for d in self.0 {
            d.fmt(f)?;
        }
        Ok(())
    }
}

fn children(c: &[Doc], via: Via, f: &mut Formatter<'_>) -> Result {
    match via {
        Via::Each => {
            for d in c {
                d.fmt(f)?;
            }
            Ok(())
        }
        Via::Args => f.write_fmt(stylish::format_args!("{:s}", Children(c))),
        Via::ArgsEach => {
            for d in c {
                f.write_fmt(stylish::format_args!("{:s}{}", d, ""))?;
            }
            Ok(())
        }
        Via::Dyn => {
            for d in c {
                let d: &dyn Display = d;
                stylish::write!(f, "{d:s}")?;
            }
            Ok(())
        }
        Via::WriteTrait => {
            let w: &mut dyn stylish::Write = f;
            for d in c {
                w.write_fmt(stylish::format_args!("{0:s}", d))?;
            }
            Ok(())
        }
        Via::RefRef => {
            let c = Children(c);
            (&&&c).fmt(f)
        }
        Via::Lines => {
            for d in c {
                stylish::writeln!(f, "<é>{:s};", d)?;
            }
            Ok(())
        }
    }
}

impl Display for Doc {
    fn fmt(&self, f: &mut Formatter<'_>) -> Result {
        visit();
        match self {
            Doc::Text(t, via) => match via {
                TextVia::WriteStr => f.write_str(t),
                TextVia::Args => f.write_fmt(stylish::format_args!("{}", Counted(t))),
                TextVia::Macro => stylish::write!(f, "{t}"),
                TextVia::CoreWriteStr => core::fmt::Write::write_str(f, t),
                TextVia::CoreWriteChars => {
                    for c in t.chars() {
                        core::fmt::Write::write_char(f, c)?;
                    }
                    Ok(())
                }
                TextVia::CoreWriteFmt => core::fmt::Write::write_fmt(f, format_args!("{}", Counted(t))),
                TextVia::WriteTraitFmt => stylish::Write::write_fmt(f, stylish::format_args!("{0}{1}", "", t)),
                TextVia::StrArg => {
                    let (a, b) = t.split_at(t.char_indices().nth(1).map_or(0, |x| x.0));
                    stylish::write!(f, "{}{b}", a, b = b)
                }
                TextVia::Line => stylish::writeln!(f, "{t}"),
                TextVia::Around => stylish::write!(f, "{{é{}<", Counted(t)),
                TextVia::CoreAround => core::fmt::Write::write_fmt(f, format_args!("-{}\n", Counted(t))),
                TextVia::Attrs => stylish::write!(f, "a{:(fg=red,bold)}{:(bg=blue)}", Counted(t), "\n"),
            },
            Doc::Seq(c, via) => children(c, *via, f),
            Doc::With(r, c, via) => children(c, *via, &mut f.with(r)),
            Doc::Abs(t, s) => stylish::Write::write_str(f, t, s.lib()),
            Doc::AbsChars(t, s) => {
                for c in t.chars() {
                    stylish::Write::write_char(f, c, s.lib())?;
                }
                Ok(())
            }
            Doc::Str(runs) => {
                let s = styled_string(runs);
                s.fmt(f)
            }
            Doc::Try(c) => {
                let _ = children(c, Via::Each, f);
                Ok(())
            }
            Doc::Fail => {
                note_failure();
                Err(stylish::Error)
            }
            Doc::StdFail(t) => stylish::write!(f, "{}", StdFail(t)),
            Doc::Panic(t, at) => match at {
                Where::Value => {
                    f.write_str(t)?;
                    boom()
                }
                Where::Std => stylish::write!(f, "{}never", Panics(t)),
                Where::Core => core::fmt::Write::write_fmt(f, format_args!("{}never", Panics(t))),
                Where::Debug => stylish::write!(f, "{:?}", (7, Panics(t), "never")),
                Where::Flags => stylish::write!(f, "{:>+#012.3(fg=red,bold)?}", Panics(t)),
                Where::Restyle => {
                    f.write_str(t)?;
                    f.with((stylish::Intensity::Bold, Panics(t))).write_str("never")
                }
                Where::Below => {
                    let mut g = f.with((stylish::Foreground(stylish::Color::Green), stylish::Intensity::Bold));
                    g.write_str(t)?;
                    let below = Doc::Panic(t.clone(), Where::Value);
                    stylish::write!(g.with(stylish::Background(stylish::Color::Blue)), "{:s}", below)?;
                    g.write_str("never")
                }
            },
        }
    }
}

pub fn styled_string(runs: &[(String, S)]) -> stylish::String {
    let mut s = stylish::String::new();
    for (t, st) in runs {
        stylish::Write::write_str(&mut s, t, st.lib()).expect("a String takes everything");
    }
    s
}

fn model_all(c: &[Doc], v: Via, s: S, out: &mut Runs) -> bool {
    c.iter().all(|d| {
        let lines = v == Via::Lines;
        if lines {
            out.push(("<é>".to_string(), s));
        }
        let ok = d.model(s, out);
        if lines && ok {
            out.push((";\n".to_string(), s));
        }
        ok
    })
}

impl Doc {
    /// What a formatter in style `s` should be given; false where it stops with a failure
    pub fn model(&self, s: S, out: &mut Runs) -> bool {
        match self {
            Doc::Text(t, v) => match v {
                TextVia::Line => out.push((format!("{t}\n"), s)),
                TextVia::Around => out.push((format!("{{é{t}<"), s)),
                TextVia::CoreAround => out.push((format!("-{t}\n"), s)),
                TextVia::Attrs => out.extend([("a".to_string(), s), (t.clone(), S { fg: 1, int: 1, ..s }), ("\n".to_string(), S { bg: 4, ..s })]),
                _ => out.push((t.clone(), s)),
            },
            Doc::Abs(t, s) | Doc::AbsChars(t, s) => out.push((t.clone(), *s)),
            Doc::Str(runs) => out.extend(runs.iter().cloned()),
            Doc::Seq(c, v) => return model_all(c, *v, s, out),
            Doc::With(r, c, v) => return model_all(c, *v, r.model(s), out),
            Doc::Try(c) => {
                let _ = model_all(c, Via::Each, s, out);
            }
            Doc::Fail => return false,
            Doc::StdFail(t) => {
                out.push((t.clone(), s));
                return false;
            }
            Doc::Panic(t, at) => {
                match at {
                    Where::Debug => out.push((format!("(7, {t}"), s)),
                    Where::Flags => out.push((t.clone(), S { fg: 1, int: 1, ..s })),
                    Where::Below => out.extend([(t.clone(), S { fg: 2, int: 1, ..s }), (t.clone(), S { fg: 2, bg: 4, int: 1 })]),
                    _ => out.push((t.clone(), s)),
                }
                return false;
            }
        }
        true
    }
    pub fn runs(&self) -> Runs {
        let mut o = Vec::new();
        self.model(crate::model::DEF, &mut o);
        o
    }
    pub fn depth(&self) -> usize {
        match self {
            Doc::Seq(c, _) | Doc::With(_, c, _) | Doc::Try(c) => 1 + c.iter().map(Doc::depth).max().unwrap_or(0),
            _ => 1,
        }
    }
    pub fn nodes(&self) -> usize {
        match self {
            Doc::Seq(c, _) | Doc::With(_, c, _) | Doc::Try(c) => 1 + c.iter().map(Doc::nodes).sum::<usize>(),
            _ => 1,
        }
    }
    /// Replace the n-th leaf (counting from 0) by a failing one
    pub fn with_failure(&self, n: &mut isize, std: bool) -> Doc {
        match self {
            Doc::Seq(c, v) => Doc::Seq(c.iter().map(|d| d.with_failure(n, std)).collect(), *v),
            Doc::With(r, c, v) => Doc::With(r.clone(), c.iter().map(|d| d.with_failure(n, std)).collect(), *v),
            Doc::Try(c) => Doc::Try(c.iter().map(|d| d.with_failure(n, std)).collect()),
            leaf => {
                *n -= 1;
                if *n == -1 {
                    if std {
                        Doc::StdFail("tail".into())
                    } else {
                        Doc::Fail
                    }
                } else {
                    leaf.clone()
                }
            }
        }
    }
    /// Put panics where failures are
    pub fn panicking(&self, t: &str, at: Where) -> Doc {
        let rec = |c: &[Doc]| c.iter().map(|d| d.panicking(t, at)).collect();
        match self {
            Doc::Seq(c, v) => Doc::Seq(rec(c), *v),
            Doc::With(r, c, v) => Doc::With(r.clone(), rec(c), *v),
            Doc::Try(c) => Doc::Try(rec(c)),
            Doc::Fail | Doc::StdFail(_) => Doc::Panic(t.to_string(), at),
            leaf => leaf.clone(),
        }
    }
    pub fn leaves(&self) -> usize {
        match self {
            Doc::Seq(c, _) | Doc::With(_, c, _) | Doc::Try(c) => c.iter().map(Doc::leaves).sum::<usize>(),
            _ => 1,
        }
    }
    /// Smaller documents, for shrinking
    pub fn smaller(&self) -> Vec<Doc> {
        let mut out = Vec::new();
        match self {
            Doc::Text(t, v) => {
                for u in smaller_text(t) {
                    out.push(Doc::Text(u, *v));
                }
                if *v != TextVia::WriteStr {
                    out.push(Doc::Text(t.clone(), TextVia::WriteStr));
                }
            }
            Doc::Abs(t, s) => smaller_text(t).into_iter().for_each(|u| out.push(Doc::Abs(u, *s))),
            Doc::AbsChars(t, s) => smaller_text(t).into_iter().for_each(|u| out.push(Doc::AbsChars(u, *s))),
            Doc::Str(r) => {
                for i in 0..r.len() {
                    let mut q = r.clone();
                    q.remove(i);
                    out.push(Doc::Str(q));
                }
            }
            Doc::Seq(c, v) => {
                out.extend(c.iter().cloned());
                list(c, &mut |c| out.push(Doc::Seq(c, *v)));
                if *v != Via::Each {
                    out.push(Doc::Seq(c.clone(), Via::Each));
                }
            }
            Doc::With(r, c, v) => {
                out.extend(c.iter().cloned());
                list(c, &mut |c| out.push(Doc::With(r.clone(), c, *v)));
                if *v != Via::Each {
                    out.push(Doc::With(r.clone(), c.clone(), Via::Each));
                }
                for s in [R::Fg(1), R::Int(1), R::Bg(2)] {
                    if r.depth() > 1 || matches!(r, R::Full(_) | R::Diff(..) | R::OptPair(..)) {
                        out.push(Doc::With(s, c.clone(), *v));
                    }
                }
            }
            Doc::Try(c) => {
                out.extend(c.iter().cloned());
                list(c, &mut |c| out.push(Doc::Try(c)));
            }
            Doc::Fail => {}
            Doc::StdFail(_) => out.push(Doc::Fail),
            Doc::Panic(t, at) => {
                for u in smaller_text(t) {
                    out.push(Doc::Panic(u, *at));
                }
                if *at != Where::Value {
                    out.push(Doc::Panic(t.clone(), Where::Value));
                }
            }
        }
        out
    }
}

fn smaller_text(t: &str) -> Vec<String> {
    let cs: Vec<char> = t.chars().collect();
    if cs.is_empty() {
        return vec![];
    }
    let mut v = vec![String::new()];
    if cs.len() > 1 {
        v.push(cs[..cs.len() / 2].iter().collect());
        v.push(cs[cs.len() / 2..].iter().collect());
        v.push(cs[1..].iter().collect());
        v.push(cs[..cs.len() - 1].iter().collect());
    }
    v
}
fn list(c: &[Doc], f: &mut impl FnMut(Vec<Doc>)) {
    for i in 0..c.len() {
        let mut d = c.to_vec();
        d.remove(i);
        f(d);
    }
    for i in 0..c.len() {
        for s in c[i].smaller().into_iter().take(30) {
            let mut d = c.to_vec();
            d[i] = s;
            f(d);
        }
    }
}

pub fn shrink(d: &Doc, mut fails: impl FnMut(&Doc) -> bool) -> Doc {
    let mut cur = d.clone();
    let mut budget = 4000;
    'outer: loop {
        for s in cur.smaller() {
            if budget == 0 || crate::mon::shrinking_is_over() {
                return cur;
            }
            budget -= 1;
            if crate::mon::while_shrinking(|| fails(&s)) {
                cur = s;
                continue 'outer;
            }
        }
        return cur;
    }
}

pub fn gen(r: &mut Rng, t: Option<Text>) -> Doc {
    let depth = match r.below(100) {
        0 => 60,
        1..=9 => r.range(8, 20),
        _ => r.range(1, 7),
    };
    let budget = if r.one_in(40) { 300 } else { r.range(1, 40) };
    gen_d(r, t, depth, &mut { budget })
}

pub fn gen_d(r: &mut Rng, t: Option<Text>, depth: usize, budget: &mut usize) -> Doc {
    *budget = budget.saturating_sub(1);
    let k = t.unwrap_or_else(|| gen::kind(r));
    if depth == 0 || *budget == 0 || r.one_in(4) {
        return match r.below(12) {
            0 => Doc::Abs(gen::small_text(r, k), gen::style(r)),
            1 => Doc::AbsChars(gen::small_text(r, k), gen::style(r)),
            2 => {
                let n = r.below(5);
                let mut runs = gen::script_n(r, Some(k), n);
                for (t, _) in &mut runs {
                    if t.len() > 100 {
                        *t = gen::small_text(r, k);
                    }
                }
                Doc::Str(runs)
            }
            _ => {
                let s = if r.one_in(60) { gen::text(r, k) } else { gen::small_text(r, k) };
                Doc::Text(s, *r.pick(&TEXT_VIAS))
            }
        };
    }
    let n = if depth > 15 { r.range(1, 2) } else { r.range(0, 5) };
    let c: Vec<Doc> = (0..n).map(|_| gen_d(r, t, depth - 1, budget)).collect();
    if r.one_in(5) {
        Doc::Seq(c, *r.pick(&VIAS))
    } else {
        Doc::With(gen::restyle(r, 2), c, *r.pick(&VIAS))
    }
}

pub fn key(d: &Doc) -> Vec<u8> {
    format!("{d:?}").into_bytes()
}

impl Doc {
    /// Does rendering this end with a failure?
    pub fn fails(&self) -> bool {
        !self.model(crate::model::DEF, &mut Vec::new())
    }
}

/// Put failing parts in, inside values that go on after them.
pub fn with_tries(r: &mut Rng, d: &Doc) -> Doc {
    let rec = |c: &[Doc], r: &mut Rng| c.iter().map(|d| with_tries(r, d)).collect::<Vec<_>>();
    let d = match d {
        Doc::Seq(c, v) => Doc::Seq(rec(c, r), *v),
        Doc::With(s, c, v) => Doc::With(s.clone(), rec(c, r), *v),
        d => d.clone(),
    };
    if r.one_in(5) {
        let fail = if r.one_in(2) { Doc::Fail } else { Doc::StdFail(gen::small_text(r, Text::Html)) };
        let fail = if r.one_in(2) { Doc::With(gen::restyle(r, 1), vec![fail], Via::Each) } else { fail };
        Doc::Try(vec![d, fail, Doc::Text("never".into(), TextVia::WriteStr)])
    } else {
        d
    }
}
