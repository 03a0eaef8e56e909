//! C22: what users define (writers, values, restyles, sinks) is used exactly as asked.
use super::fail::small_doc;
use crate::doc::Doc;
use crate::gen;
use crate::model::{chars_of, of_fast, DEF, R, S};
use crate::mon::{checked, guard, Mon};
use crate::rng::Rng;
use crate::sink::{Styled, E};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::io as sio;
use stylish::Write as _;
use stylish::{Arguments, Display, Formatter, Restyle, Style};

type Bytes = Vec<(u8, S)>;

fn bytes_of(runs: &[(String, S)]) -> Bytes {
    runs.iter().flat_map(|(t, s)| t.bytes().map(move |b| (b, *s))).collect()
}
fn shown(args: Arguments<'_>) -> Bytes {
    let mut rec = Styled::new();
    let _ = stylish::Write::write_fmt(&mut rec, args);
    bytes_of(&rec.events)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum M {
    Str,
    Char,
    Fmt,
    Write,
    All,
    Flush,
}
/// One call of a method of a user's writer: what it was given and what it answered
#[derive(Clone, Debug)]
struct Call {
    m: M,
    text: Bytes,
    /// of the call, where the text may be empty
    style: S,
    answer: Answer,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Answer {
    Ok,
    /// of `write`: that many were accepted
    N(usize),
    Err(E),
    FmtErr,
}

#[derive(Default)]
struct User {
    log: Vec<Call>,
    /// what the next calls are answered with; afterwards all is well
    plan: VecDeque<Answer>,
}
impl User {
    fn call(&mut self, m: M, text: Bytes, style: S) -> Answer {
        let answer = match self.plan.pop_front() {
            Some(Answer::N(n)) if m == M::Write => Answer::N(n.min(text.len())),
            Some(Answer::Err(e)) => Answer::Err(e),
            Some(Answer::FmtErr) => Answer::FmtErr,
            _ if m == M::Write => Answer::N(text.len()),
            _ => Answer::Ok,
        };
        assert!(self.log.len() < crate::sink::LIMIT, "no progress");
        self.log.push(Call { m, text, style, answer });
        answer
    }
    fn fmt(&mut self, m: M, text: Bytes, style: S) -> stylish::Result {
        match self.call(m, text, style) {
            Answer::Ok => Ok(()),
            _ => Err(stylish::Error),
        }
    }
    fn io(&mut self, m: M, text: Bytes, style: S) -> sio::Result<()> {
        match self.call(m, text, style) {
            Answer::Err(e) => Err(e.make()),
            _ => Ok(()),
        }
    }
}
fn styled(b: &[u8], s: S) -> Bytes {
    b.iter().map(|b| (*b, s)).collect()
}

macro_rules! fmt_writer {
    ($name:ident, $char:literal, $fmt:literal, { $($more:item)* }) => {
        #[derive(Default)]
        struct $name(User);
        impl stylish::Write for $name {
            fn write_str(&mut self, s: &str, style: Style) -> stylish::Result {
                self.0.fmt(M::Str, styled(s.as_bytes(), of_fast(style)), of_fast(style))
            }
            $($more)*
        }
        impl UserFmt for $name {
            const CHAR: bool = $char;
            const FMT: bool = $fmt;
            fn user(&mut self) -> &mut User {
                &mut self.0
            }
        }
    };
}
trait UserFmt: stylish::Write + Default {
    const CHAR: bool;
    const FMT: bool;
    fn user(&mut self) -> &mut User;
}
fmt_writer!(FmtMin, false, false, {});
fmt_writer!(FmtChar, true, false, {
    fn write_char(&mut self, c: char, style: Style) -> stylish::Result {
        self.0.fmt(M::Char, styled(c.to_string().as_bytes(), of_fast(style)), of_fast(style))
    }
});
fmt_writer!(FmtFmt, false, true, {
    fn write_fmt(&mut self, args: Arguments<'_>) -> stylish::Result {
        self.0.fmt(M::Fmt, shown(args), DEF)
    }
});
fmt_writer!(FmtAll, true, true, {
    fn write_char(&mut self, c: char, style: Style) -> stylish::Result {
        self.0.fmt(M::Char, styled(c.to_string().as_bytes(), of_fast(style)), of_fast(style))
    }
    fn write_fmt(&mut self, args: Arguments<'_>) -> stylish::Result {
        self.0.fmt(M::Fmt, shown(args), DEF)
    }
});

macro_rules! io_writer {
    ($name:ident, $all:literal, $fmt:literal, { $($more:item)* }) => {
        #[derive(Default)]
        struct $name(User);
        impl stylish::io::Write for $name {
            fn write(&mut self, b: &[u8], style: Style) -> sio::Result<usize> {
                match self.0.call(M::Write, styled(b, of_fast(style)), of_fast(style)) {
                    Answer::N(n) => Ok(n),
                    Answer::Err(e) => Err(e.make()),
                    _ => unreachable!(),
                }
            }
            fn flush(&mut self) -> sio::Result<()> {
                self.0.io(M::Flush, vec![], DEF)
            }
            $($more)*
        }
        impl UserIo for $name {
            const ALL: bool = $all;
            const FMT: bool = $fmt;
            fn user(&mut self) -> &mut User {
                &mut self.0
            }
        }
    };
}
trait UserIo: stylish::io::Write + Default {
    const ALL: bool;
    const FMT: bool;
    fn user(&mut self) -> &mut User;
}
io_writer!(IoMin, false, false, {});
io_writer!(IoAll, true, false, {
    fn write_all(&mut self, b: &[u8], style: Style) -> sio::Result<()> {
        self.0.io(M::All, styled(b, of_fast(style)), of_fast(style))
    }
});
io_writer!(IoFmt, false, true, {
    fn write_fmt(&mut self, args: Arguments<'_>) -> sio::Result<()> {
        self.0.io(M::Fmt, shown(args), DEF)
    }
});
io_writer!(IoEvery, true, true, {
    fn write_all(&mut self, b: &[u8], style: Style) -> sio::Result<()> {
        self.0.io(M::All, styled(b, of_fast(style)), of_fast(style))
    }
    fn write_fmt(&mut self, args: Arguments<'_>) -> sio::Result<()> {
        self.0.io(M::Fmt, shown(args), DEF)
    }
});

#[derive(Clone, Debug)]
enum Op {
    Str(String, S),
    Char(char, S),
    /// formatted through one of these macros and methods
    Fmt(Doc, How),
    Write(Vec<u8>, S),
    All(Vec<u8>, S),
    Flush,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Method,
    Macro,
    Named,
    Line,
    Newline,
    Literal,
}
const HOWS: [How; 6] = [How::Method, How::Macro, How::Named, How::Line, How::Newline, How::Literal];
impl Op {
    fn text(&self) -> Bytes {
        match self {
            Op::Str(t, s) => styled(t.as_bytes(), *s),
            Op::Char(c, s) => styled(c.to_string().as_bytes(), *s),
            Op::Write(b, s) | Op::All(b, s) => styled(b, *s),
            Op::Flush => vec![],
            Op::Fmt(d, h) => {
                let mut runs = match h {
                    How::Newline | How::Literal => vec![],
                    _ => d.runs(),
                };
                match h {
                    How::Literal => runs.push(("a{é}".into(), DEF)),
                    How::Line | How::Newline => runs.push(("\n".into(), DEF)),
                    _ => {}
                }
                bytes_of(&runs)
            }
        }
    }
    fn style(&self) -> S {
        match self {
            Op::Str(_, s) | Op::Char(_, s) | Op::Write(_, s) | Op::All(_, s) => *s,
            _ => DEF,
        }
    }
}

fn fmt_op<W: stylish::Write + ?Sized>(w: &mut W, op: &Op) -> stylish::Result {
    match op {
        Op::Str(t, s) => w.write_str(t, s.lib()),
        Op::Char(c, s) => w.write_char(*c, s.lib()),
        Op::Fmt(d, h) => match h {
            How::Method => w.write_fmt(stylish::format_args!("{:s}", d)),
            How::Macro => stylish::write!(w, "{:s}", d),
            How::Named => stylish::write!(w, "{d:s}{0}", ""),
            How::Line => stylish::writeln!(w, "{:s}", d),
            How::Newline => stylish::writeln!(w),
            How::Literal => stylish::write!(w, "a{{é}}"),
        },
        _ => unreachable!(),
    }
}
/// through the library's implementation for references, whatever it is a reference to
fn fmt_generic(mut w: impl stylish::Write, op: &Op) -> stylish::Result {
    fmt_op(&mut w, op)
}
fn io_op<W: stylish::io::Write + ?Sized>(w: &mut W, op: &Op) -> sio::Result<Option<usize>> {
    match op {
        Op::Write(b, s) => return w.write(b, s.lib()).map(Some),
        Op::All(b, s) => w.write_all(b, s.lib()),
        Op::Flush => w.flush(),
        Op::Fmt(d, h) => match h {
            How::Method => w.write_fmt(stylish::format_args!("{:s}", d)),
            How::Macro => stylish::write!(w, "{:s}", d),
            How::Named => stylish::write!(w, "{d:s}{0}", ""),
            How::Line => stylish::writeln!(w, "{:s}", d),
            How::Newline => stylish::writeln!(w),
            How::Literal => stylish::write!(w, "a{{é}}"),
        },
        _ => unreachable!(),
    }
    .map(|()| None)
}
fn io_generic(mut w: impl stylish::io::Write, op: &Op) -> sio::Result<Option<usize>> {
    io_op(&mut w, op)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    Direct,
    Ref,
    RefRef,
    Dyn,
    RefDyn,
    RefRefDyn,
    ByRef,
    RefByRef,
}
const WAYS: [Way; 8] = [Way::Direct, Way::Ref, Way::RefRef, Way::Dyn, Way::RefDyn, Way::RefRefDyn, Way::ByRef, Way::RefByRef];

fn fmt_way<W: UserFmt>(w: &mut W, way: Way, op: &Op) -> stylish::Result {
    match way {
        Way::Direct => fmt_op(w, op),
        Way::Ref | Way::ByRef => fmt_generic(w, op),
        Way::RefRef | Way::RefByRef => fmt_generic(&mut &mut *w, op),
        Way::Dyn => fmt_op::<dyn stylish::Write>(w, op),
        Way::RefDyn => {
            let w: &mut dyn stylish::Write = w;
            fmt_generic(w, op)
        }
        Way::RefRefDyn => {
            let mut w: &mut dyn stylish::Write = w;
            let w: &mut dyn stylish::Write = &mut w;
            fmt_generic(w, op)
        }
    }
}
fn io_way<W: UserIo>(w: &mut W, way: Way, op: &Op) -> sio::Result<Option<usize>> {
    use stylish::io::Write as _;
    match way {
        Way::Direct => io_op(w, op),
        Way::Ref => io_generic(w, op),
        Way::RefRef => io_generic(&mut &mut *w, op),
        Way::Dyn => io_op::<dyn stylish::io::Write>(w, op),
        Way::RefDyn => {
            let w: &mut dyn stylish::io::Write = w;
            io_generic(w, op)
        }
        Way::RefRefDyn => {
            let mut w: &mut dyn stylish::io::Write = w;
            let w: &mut dyn stylish::io::Write = &mut w;
            io_generic(w, op)
        }
        Way::ByRef => io_generic(w.by_ref(), op),
        Way::RefByRef => io_generic((&mut &mut *w).by_ref(), op),
    }
}

#[derive(Default)]
struct Count {
    calls: u64,
    one: u64,
    provided: u64,
    failed: u64,
}

fn is(answer: Answer, e: &sio::Error) -> bool {
    matches!(answer, Answer::Err(x) if x.is(e))
}

/// exactly this one call, answered the same to the caller
fn one(log: &[Call], m: M, op: &Op) -> Result<Answer, String> {
    match log {
        [c] if c.m == m => {
            let styles = matches!(m, M::Fmt | M::Flush) || c.style == op.style();
            if c.text != op.text() || !styles {
                return Err(format!("{m:?} was called with {:?} in {:?} for {:?} in {:?}", show(&c.text), c.style, show(&op.text()), op.style()));
            }
            Ok(c.answer)
        }
        _ => Err(format!("instead of one call of {m:?} there was {:?}", log.iter().map(|c| c.m).collect::<Vec<_>>())),
    }
}
fn show(b: &Bytes) -> String {
    format!("{:?} in {:?}", String::from_utf8_lossy(&b.iter().map(|b| b.0).collect::<Vec<_>>()), b.iter().map(|b| (b.1.fg, b.1.bg, b.1.int)).collect::<Vec<_>>())
}

fn fmt_history<W: UserFmt>(ops: &[(Op, Way, Vec<Answer>)], c: &mut Count) -> Result<(), String> {
    let mut w = W::default();
    for (i, (op, way, plan)) in ops.iter().enumerate() {
        w.user().log.clear();
        w.user().plan = plan.iter().copied().collect();
        let r = fmt_way(&mut w, *way, op);
        let log = std::mem::take(&mut w.user().log);
        let at = |e: String| format!("step {i}, {way:?}: {e}");
        c.calls += log.len() as u64;
        let m = match op {
            Op::Str(..) => M::Str,
            Op::Char(..) => M::Char,
            _ => M::Fmt,
        };
        if m == M::Str || (m == M::Char && W::CHAR) || (m == M::Fmt && W::FMT) {
            let a = one(&log, m, op).map_err(at)?;
            c.one += 1;
            c.failed += (a != Answer::Ok) as u64;
            if r.is_ok() != (a == Answer::Ok) {
                return Err(at(format!("it returned {a:?}, to the caller {r:?} was returned")));
            }
            continue;
        }
        // the provided methods, in terms of those that are there
        c.provided += 1;
        if let Some(x) = log.iter().find(|x| x.m == M::Fmt || (x.m == M::Char && !W::CHAR)) {
            return Err(at(format!("{:?} was called", x.m)));
        }
        verdict(&log, op, r.is_ok(), c).map_err(at)?;
        if let (M::Char, [x]) = (m, &log[..]) {
            if x.style != op.style() {
                return Err(at("another style".into()));
            }
        }
    }
    Ok(())
}

/// the calls make up the text, or up to the one that failed, which is the last
fn verdict(log: &[Call], op: &Op, ok: bool, c: &mut Count) -> Result<(), String> {
    let bad = |a: &Call| match a.answer {
        Answer::Ok => false,
        Answer::N(n) => n == 0 && !a.text.is_empty(),
        Answer::Err(E::Os(4) | E::Simple(sio::ErrorKind::Interrupted) | E::Custom(sio::ErrorKind::Interrupted, _)) if a.m == M::Write => false,
        _ => true,
    };
    let failed = log.iter().position(bad);
    if let Some(k) = failed {
        c.failed += 1;
        if k + 1 != log.len() {
            return Err(format!("{} calls after the one that failed", log.len() - k - 1));
        }
    }
    if ok != failed.is_none() {
        return Err(format!("returned {} after {:?}", if ok { "Ok" } else { "Err" }, log.iter().map(|c| c.answer).collect::<Vec<_>>()));
    }
    let want = op.text();
    let mut got = Bytes::new();
    for x in log {
        // what is offered continues what has been accepted
        let offered = got.len() + x.text.len();
        if offered > want.len() || want[got.len()..offered] != x.text[..] {
            return Err(format!("after {} bytes {:?} was handed over, which is not what follows in {}", got.len(), show(&x.text), show(&want)));
        }
        match x.answer {
            Answer::Ok => got.extend(&x.text),
            Answer::N(n) => got.extend(&x.text[..n]),
            _ => {}
        }
    }
    if ok && got != want {
        return Err(format!("the writer was given {} for {}", show(&got), show(&want)));
    }
    Ok(())
}

fn io_history<W: UserIo>(ops: &[(Op, Way, Vec<Answer>)], c: &mut Count) -> Result<(), String> {
    let mut w = W::default();
    for (i, (op, way, plan)) in ops.iter().enumerate() {
        w.user().log.clear();
        w.user().plan = plan.iter().copied().collect();
        let r = io_way(&mut w, *way, op);
        let log = std::mem::take(&mut w.user().log);
        let at = |e: String| format!("step {i}, {way:?}: {e}");
        c.calls += log.len() as u64;
        let m = match op {
            Op::Write(..) => M::Write,
            Op::All(..) => M::All,
            Op::Flush => M::Flush,
            _ => M::Fmt,
        };
        if matches!(m, M::Write | M::Flush) || (m == M::All && W::ALL) || (m == M::Fmt && W::FMT) {
            let a = one(&log, m, op).map_err(at)?;
            c.one += 1;
            let same = match (&a, &r) {
                (Answer::Ok, Ok(None)) => true,
                (Answer::N(n), Ok(Some(k))) => n == k,
                (a, Err(e)) => is(*a, e),
                _ => false,
            };
            c.failed += r.is_err() as u64;
            if !same {
                return Err(at(format!("it returned {a:?}, to the caller {r:?} was returned")));
            }
            continue;
        }
        c.provided += 1;
        if let Some(x) = log.iter().find(|x| x.m != if W::ALL { M::All } else { M::Write }) {
            return Err(at(format!("{:?} was called for {m:?}", x.m)));
        }
        verdict(&log, op, r.is_ok(), c).map_err(at)?;
        if let (Err(e), Some(Call { answer: a @ Answer::Err(_), .. })) = (&r, log.last()) {
            if !is(*a, e) {
                return Err(at(format!("the writer failed with {a:?}, reported was {e:?}")));
            }
        }
    }
    Ok(())
}

fn ops(r: &mut Rng, io: bool) -> Vec<(Op, Way, Vec<Answer>)> {
    (0..r.range(1, 6))
        .map(|_| {
            let k = gen::kind(r);
            let s = gen::style(r);
            let doc = |r: &mut Rng| Op::Fmt(small_doc(r, None), *r.pick(&HOWS));
            let op = if io {
                match r.below(6) {
                    0 => Op::Flush,
                    1 => Op::Write(gen::small_text(r, k).into_bytes(), s),
                    2 => {
                        let n = if r.one_in(200) { gen::giant(r) } else { r.below(9) };
                        Op::Write((0..n).map(|_| r.below(256) as u8).collect(), s)
                    }
                    3 => Op::All(gen::small_text(r, k).into_bytes(), s),
                    _ => doc(r),
                }
            } else {
                match r.below(5) {
                    0 | 1 => Op::Str(gen::small_text(r, k), s),
                    2 => Op::Char(gen::ch(r, k), s),
                    _ => doc(r),
                }
            };
            let bare = matches!(op, Op::Write(..) | Op::Flush);
            let n = if r.one_in(2) { 0 } else { r.range(1, 6) };
            let plan = (0..n)
                .map(|i| match r.below(4) {
                    _ if !io && (i + 1 == n) => Answer::FmtErr,
                    _ if !io => Answer::Ok,
                    0 | 1 => Answer::N(if bare || r.one_in(9) { r.below(5) } else { r.range(1, 5) }),
                    2 if bare || i + 1 == n => Answer::Err(if bare { E::any_or_interrupted(r) } else { E::any(r) }),
                    2 => Answer::Err(E::Simple(sio::ErrorKind::Interrupted)),
                    _ => Answer::Ok,
                })
                .collect();
            (op, *r.pick(&WAYS), plan)
        })
        .collect()
}

fn histories(ops: &[(Op, Way, Vec<Answer>)], io: bool, c: &mut Count) -> Result<(), String> {
    if io {
        // what a writer that defines the whole of write_all does about interruptions is its own business
        io_history::<IoMin>(ops, c).map_err(|e| format!("a writer of bytes with the required methods: {e}"))?;
        io_history::<IoAll>(ops, c).map_err(|e| format!("a writer of bytes with write_all: {e}"))?;
        io_history::<IoFmt>(ops, c).map_err(|e| format!("a writer of bytes with write_fmt: {e}"))?;
        io_history::<IoEvery>(ops, c).map_err(|e| format!("a writer of bytes with all methods: {e}"))
    } else {
        fmt_history::<FmtMin>(ops, c).map_err(|e| format!("a writer with the required method: {e}"))?;
        fmt_history::<FmtChar>(ops, c).map_err(|e| format!("a writer with write_char: {e}"))?;
        fmt_history::<FmtFmt>(ops, c).map_err(|e| format!("a writer with write_fmt: {e}"))?;
        fmt_history::<FmtAll>(ops, c).map_err(|e| format!("a writer with all methods: {e}"))
    }
}

/// Not a writer of the library's, but it has a `write_fmt`: the macros take it as it is.
struct Odd<'a>(&'a RefCell<Vec<Bytes>>);
impl Odd<'_> {
    fn write_fmt(&self, args: Arguments<'_>) -> Result<u64, &'static str> {
        self.0.borrow_mut().push(shown(args));
        match self.0.borrow().len() as u64 {
            4 => Err("mine"),
            n => Ok(n),
        }
    }
}

fn macros(d: &Doc, c: &mut Count) -> Result<(), String> {
    let log = RefCell::new(vec![]);
    let evaluated = Cell::new(0);
    let odd = Odd(&log);
    let o = || {
        evaluated.set(evaluated.get() + 1);
        &odd
    };
    let answers = [
        stylish::write!(o(), "{:s}", d),
        stylish::writeln!(o(), "{d:s}"),
        stylish::writeln!(o()),
        stylish::write!(o(), "{0:s}{0:s}", d),
        stylish::writeln!(o(), "{x:(fg=red)}", x = "y"),
        stylish::writeln!(o(), concat!("{:s}", "{{"), d),
        stylish::write!(o(), concat!("{", "0:s}"), d),
    ];
    let runs = d.runs();
    let with = |after: &str| {
        let mut r = runs.clone();
        r.push((after.to_string(), DEF));
        bytes_of(&r)
    };
    let twice = [runs.clone(), runs.clone()].concat();
    let want = [with(""), with("\n"), bytes_of(&[("\n".into(), DEF)]), bytes_of(&twice), bytes_of(&[("y".into(), S { fg: 1, ..DEF }), ("\n".into(), DEF)]), with("{\n"), with("")];
    c.one += 7;
    if evaluated.get() != 7 {
        return Err(format!("7 destinations were evaluated {} times", evaluated.get()));
    }
    if answers != [Ok(1), Ok(2), Ok(3), Err("mine"), Ok(5), Ok(6), Ok(7)] {
        return Err(format!("the macros returned {answers:?}"));
    }
    for (i, (g, w)) in log.borrow().iter().zip(want.iter()).enumerate() {
        if g != w {
            return Err(format!("macro {i} handed over {} for {}", show(g), show(w)));
        }
    }
    Ok(())
}

/// A value that counts how often it is formatted, in whatever style
struct Spy<'a>(&'a Cell<u32>, &'a Doc);
impl Display for Spy<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        self.0.set(self.0.get() + 1);
        self.1.fmt(f)
    }
}
struct StdSpy<'a>(&'a Cell<u32>);
macro_rules! std_spy {
    ($($t:ident)*) => {
        $(impl std::fmt::$t for StdSpy<'_> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                self.0.set(self.0.get() + 1);
                f.write_str(stringify!($t))
            }
        })*
    };
}
std_spy!(Display Debug LowerHex UpperHex LowerExp UpperExp Octal Binary Pointer);

/// Every entry point formats the value once.
#[allow(dropping_copy_types)]
fn values(d: &Doc, c: &mut Count) -> Result<(), String> {
    use stylish::{ToAnsiString as _, ToHtmlString as _, ToPlainString as _, ToStylishString as _};
    let n = Cell::new(0);
    let v = Spy(&n, d);
    let vr = &v;
    let dynamic: &dyn Display = &v;
    let mut what = Vec::new();
    let mut step = |name: &str, want: u32| {
        let got = n.replace(0);
        c.one += 1;
        if got != want {
            what.push(format!("{name} formatted the value {got} times, want {want}"));
        }
    };
    macro_rules! each {
        ($($want:literal: $e:expr;)*) => {$( { let r = $e; drop(r); step(stringify!($e), $want); } )*};
    }
    each! {
        1: stylish::ansi::format!("{:s}", v);
        1: stylish::html::format!("{:s}", v);
        1: stylish::plain::format!("{:s}", v);
        1: stylish::format!("{:s}", v);
        1: stylish::ansi::format(stylish::format_args!("{:s}", &v));
        1: stylish::html::format(stylish::format_args!("{:s}", &&v));
        1: stylish::plain::format(stylish::format_args!("{vr:s}"));
        1: stylish::format(stylish::format_args!("{:s}", dynamic));
        1: v.to_ansi_string();
        1: v.to_html_string();
        1: v.to_plain_string();
        1: v.to_stylish_string();
        1: vr.to_ansi_string();
        2: stylish::ansi::format!("{0:s}{0:s}", v);
        2: stylish::html::format!("{v:s}{v:s}", v = v);
        3: stylish::plain::format!("{:s}{0:s}{vr:s}", v);
        1: stylish::ansi::format!("{:(fg=red)}", stylish::ansi::format!("{:s}", v));
        1: stylish::write!(stylish::Html::new(String::new()), "{:s}", v);
        1: stylish::writeln!(stylish::Ansi::new(String::new()), "{:s}", v);
        1: stylish::writeln!(stylish::Plain::new(String::new()), "{:s}", v);
        1: stylish::writeln!(stylish::io::Ansi::new(Vec::new()), "{:s}", v);
        1: stylish::write!(stylish::io::Plain::new(Vec::new()), "{:s}", v);
        1: stylish::write!(Styled::new(), "{:s}", v);
        1: stylish::html::format!("{:s}", stylish::format_args!("{:s}", v));
        0: drop(stylish::format_args!("{:s}", v));
    }
    let sv = StdSpy(&n);
    each! {
        1: stylish::ansi::format!("{}", sv);
        1: stylish::html::format!("{:?}", sv);
        1: stylish::plain::format!("{:#x}", sv);
        1: stylish::format!("{:X}", sv);
        1: stylish::ansi::format!("{:e}", sv);
        1: stylish::html::format!("{:>9E}", sv);
        1: stylish::plain::format!("{:(bg=red)b}", sv);
        1: stylish::format!("{:08o}", sv);
        1: stylish::ansi::format!("{:p}", sv);
        9: stylish::html::format!("{0}{0:?}{0:x}{0:X}{0:e}{0:E}{0:b}{0:o}{0:p}", sv);
        1: stylish::writeln!(stylish::io::Ansi::new(Vec::new()), "{:(bold)}", sv);
    }
    match what.first() {
        None => Ok(()),
        Some(w) => Err(w.clone()),
    }
}

/// A restyle that notes when it is applied, and to what
#[derive(Clone)]
struct Noted<'a>(&'a RefCell<Vec<(usize, S)>>, usize, R);
impl Restyle for Noted<'_> {
    fn apply(&self, style: Style) -> Style {
        self.0.borrow_mut().push((self.1, S::of(style)));
        self.2.apply(style)
    }
}

fn restyles(rs: &[R], at: S, c: &mut Count) -> Result<(), String> {
    let log = RefCell::new(vec![]);
    let p: Vec<Noted> = rs.iter().enumerate().map(|(i, r)| Noted(&log, i, r.clone())).collect();
    // of four: each form applies these parts in this order
    type Form<'a, 'b> = (&'static str, &'static [usize], Box<dyn Fn(Style) -> Style + 'a>);
    let l = |k: usize| &p[k];
    let forms: Vec<Form> = vec![
        ("itself", &[0], Box::new(|s| s.with(l(0).clone()))),
        ("a reference", &[0], Box::new(|s| s.with(l(0)))),
        ("a reference to a reference", &[0], Box::new(|s| s.with(&&&l(0)))),
        ("a trait object", &[1], Box::new(|s| s.with(l(1) as &dyn Restyle))),
        ("a box", &[1], Box::new(|s| s.with(Box::new(l(1).clone())))),
        ("a boxed trait object", &[1], Box::new(|s| s.with(Box::new(l(1).clone()) as Box<dyn Restyle>))),
        ("Some", &[2], Box::new(|s| s.with(Some(l(2))))),
        ("None", &[], Box::new(|s| s.with(None::<&Noted>))),
        ("a pair", &[0, 1], Box::new(|s| s.with((l(0), l(1))))),
        ("a pair the other way", &[1, 0], Box::new(|s| s.with((l(1), l(0))))),
        ("a triple", &[2, 0, 1], Box::new(|s| s.with((l(2), l(0), l(1))))),
        ("a triple of one", &[2, 2, 2], Box::new(|s| s.with((l(2), l(2), l(2))))),
        ("a slice", &[0, 1, 2, 3], Box::new(|s| s.with(&p[..]))),
        ("a slice of one", &[3], Box::new(|s| s.with(&p[3..]))),
        ("an empty slice", &[], Box::new(|s| s.with(&p[..0]))),
        ("a slice of options", &[0, 2], Box::new(|s| s.with(&[Some(l(0)), None, Some(l(2))][..]))),
        ("a nested pair", &[0, 1, 2, 3], Box::new(|s| s.with(((l(0), (l(1), ())), (Some(l(2)), l(3)))))),
        ("one after the other", &[0, 1], Box::new(|s| s.with(l(0)).with(l(1)))),
        ("by apply", &[3, 1], Box::new(|s| (l(3), l(1)).apply(s))),
    ];
    for (name, parts, form) in &forms {
        let mut want = vec![];
        let mut s = at;
        for k in *parts {
            want.push((*k, s));
            s = rs[*k].model(s);
        }
        let got = S::of(form(at.lib()));
        let noted = std::mem::take(&mut *log.borrow_mut());
        c.one += 1;
        if noted != want {
            return Err(format!("{name}: applied were {noted:?}, want {want:?}"));
        }
        if got != s {
            return Err(format!("{name}: got {got:?}, want {s:?}"));
        }
    }
    // by a formatter: once, when it is made, not with what is written
    struct F<'a>(&'a [Noted<'a>], usize);
    impl Display for F<'_> {
        fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
            let mut a = f.with(&self.0[0]);
            for _ in 0..self.1 {
                a.write_str("x")?;
                stylish::write!(a, "{}{}", "y", 'z')?;
            }
            let mut b = a.with((&self.0[1], &self.0[2]));
            for _ in 0..self.1 {
                b.write_str("x")?;
            }
            drop(b);
            a.write_str("w")?;
            f.write_str("v")
        }
    }
    for n in [0, 1, 3] {
        let mut w = Styled::new();
        stylish::write!(w, "{:s}", F(&p, n)).map_err(|_| "failed")?;
        let noted = std::mem::take(&mut *log.borrow_mut());
        let a = rs[0].model(DEF);
        let b = rs[1].model(a);
        let want = vec![(0, DEF), (1, a), (2, b)];
        c.one += 1;
        if noted != want {
            return Err(format!("by formatters: applied were {noted:?}, want {want:?}"));
        }
        let b = rs[2].model(b);
        let want: Vec<(String, S)> = vec![("xyz".repeat(n), a), ("x".repeat(n), b), ("w".into(), a), ("v".into(), DEF)];
        if let Some(d) = crate::model::first_diff(&chars_of(&w.events), &chars_of(&want)) {
            return Err(format!("by formatters: {d}"));
        }
    }
    Ok(())
}

/// Sinks that define more than they have to, consistently
#[derive(Default, Clone, Debug)]
struct RichFmt(String, u32);
impl std::fmt::Write for RichFmt {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.1 += 1;
        self.0.push_str(s);
        Ok(())
    }
    fn write_char(&mut self, c: char) -> std::fmt::Result {
        self.1 += 1;
        self.0.push(c);
        Ok(())
    }
    fn write_fmt(&mut self, args: std::fmt::Arguments<'_>) -> std::fmt::Result {
        self.1 += 1;
        self.0.push_str(&args.to_string());
        Ok(())
    }
}
#[derive(Default, Clone, Debug)]
struct RichIo(Vec<u8>, u32);
impl sio::Write for RichIo {
    fn write(&mut self, b: &[u8]) -> sio::Result<usize> {
        self.1 += 1;
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> sio::Result<()> {
        Ok(())
    }
    fn write_vectored(&mut self, b: &[sio::IoSlice<'_>]) -> sio::Result<usize> {
        self.1 += 1;
        b.iter().for_each(|b| self.0.extend_from_slice(b));
        Ok(b.iter().map(|b| b.len()).sum())
    }
    fn write_all(&mut self, b: &[u8]) -> sio::Result<()> {
        self.1 += 1;
        self.0.extend_from_slice(b);
        Ok(())
    }
    fn write_fmt(&mut self, args: std::fmt::Arguments<'_>) -> sio::Result<()> {
        self.1 += 1;
        self.0.extend_from_slice(args.to_string().as_bytes());
        Ok(())
    }
}

fn sinks(d: &Doc, c: &mut Count) -> Result<(), String> {
    use std::fmt::Write as FW;
    fn ansi<T: FW>(t: T, d: &Doc) -> Result<T, String> {
        let mut w = stylish::Ansi::new(t);
        stylish::write!(w, "{:s}", d).map_err(|_| "a write failed")?;
        Ok(w.finish().map_err(|_| "finish failed")?)
    }
    fn html<T: FW>(t: T, d: &Doc) -> Result<T, String> {
        let mut w = stylish::Html::new(t);
        stylish::write!(w, "{:s}", d).map_err(|_| "a write failed")?;
        Ok(w.finish().map_err(|_| "finish failed")?)
    }
    fn plain<T: FW>(t: T, d: &Doc) -> Result<T, String> {
        let mut w = stylish::Plain::new(t);
        stylish::write!(w, "{:s}", d).map_err(|_| "a write failed")?;
        Ok(w.into_inner())
    }
    fn io_ansi<T: sio::Write>(t: T, d: &Doc) -> Result<T, String> {
        let mut w = stylish::io::Ansi::new(t);
        stylish::write!(w, "{:s}", d).map_err(|e| format!("a write failed: {e}"))?;
        w.finish().map_err(|e| format!("finish failed: {e}"))
    }
    fn io_plain<T: sio::Write>(t: T, d: &Doc) -> Result<T, String> {
        let mut w = stylish::io::Plain::new(t);
        stylish::write!(w, "{:s}", d).map_err(|e| format!("a write failed: {e}"))?;
        Ok(w.into_inner())
    }
    let want = [ansi(String::new(), d)?, html(String::new(), d)?, plain(String::new(), d)?];
    let mut same = |name: &str, k: usize, got: &[u8]| {
        c.one += 1;
        match crate::model::first_diff(got, want[k].as_bytes()) {
            None => Ok(()),
            Some(x) => Err(format!("{name}, against a String: {x}")),
        }
    };
    macro_rules! fmt_sinks {
        ($k:literal $f:ident) => {
            same("a sink with methods of its own", $k, $f(RichFmt::default(), d)?.0.as_bytes())?;
            let mut t = RichFmt::default();
            $f(&mut t, d)?;
            same("a reference to a sink", $k, t.0.as_bytes())?;
            $f(&mut &mut t, d)?;
            same("the second rendering by reference", $k, &t.0.as_bytes()[want[$k].len()..])?;
            let mut t = String::new();
            $f(&mut t as &mut dyn FW, d)?;
            same("a reference to a trait object", $k, t.as_bytes())?;
        };
    }
    fmt_sinks!(0 ansi);
    fmt_sinks!(1 html);
    fmt_sinks!(2 plain);
    macro_rules! io_sinks {
        ($k:literal $f:ident) => {
            same("an IO sink with methods of its own", $k, &$f(RichIo::default(), d)?.0)?;
            let mut t = RichIo::default();
            $f(&mut t, d)?;
            same("a reference to an IO sink", $k, &t.0)?;
            let mut t = Vec::new();
            $f(&mut t as &mut dyn sio::Write, d)?;
            same("a reference to an IO trait object", $k, &t)?;
            let mut t = b"before".to_vec();
            $f(Box::new(&mut t) as Box<dyn sio::Write + '_>, d).map(drop)?;
            same("a boxed IO trait object", $k, &t[6..])?;
            let b = $f(sio::BufWriter::with_capacity(5, Vec::new()), d)?.into_inner().map_err(|e| e.to_string())?;
            same("a buffer", $k, &b)?;
            let b = $f(sio::LineWriter::new(RichIo::default()), d)?.into_inner().map_err(|e| e.to_string())?;
            same("a line buffer", $k, &b.0)?;
            same("a cursor", $k, &$f(sio::Cursor::new(Vec::new()), d)?.into_inner())?;
            let mut a = vec![0u8; want[$k].len()];
            let left = $f(&mut a[..], d)?.len();
            same("a slice", $k, &a)?;
            if left != 0 {
                return Err(format!("{left} bytes of the slice are left"));
            }
            let q = $f(VecDeque::new(), d)?;
            same("a queue", $k, &q.into_iter().collect::<Vec<_>>())?;
        };
    }
    io_sinks!(0 io_ansi);
    io_sinks!(2 io_plain);
    Ok(())
}

pub fn run(mut m: Mon) -> ! {
    let mut r = m.rng(1);
    let mut c = Count::default();
    // every operation through every way, alone and with every answer
    for (i, way) in WAYS.into_iter().enumerate() {
        for io in [false, true] {
            let doc = Doc::With(R::Fg(1), vec![Doc::Text("aé".into(), crate::doc::TextVia::Macro), Doc::Text("b".into(), crate::doc::TextVia::CoreWriteChars)], crate::doc::Via::Args);
            let s = S { fg: 2, bg: 3, int: 1 };
            let mut list: Vec<Op> = HOWS.iter().map(|h| Op::Fmt(doc.clone(), *h)).collect();
            if io {
                list.extend([Op::Flush, Op::Write(vec![], s), Op::Write(b"abc".to_vec(), s), Op::Write(vec![0xff, 0xc3], s), Op::All(vec![], s), Op::All(b"abc\xf0".to_vec(), s)]);
            } else {
                list.extend([Op::Str(String::new(), s), Op::Str("abc".into(), s), Op::Str("\u{10ffff}".into(), s)]);
                list.extend("a\0é\u{7ff}\u{800}\u{ffff}\u{10000}\u{10ffff}<\x1b".chars().map(|c| Op::Char(c, s)));
            }
            let answers: Vec<Vec<Answer>> = if io {
                vec![
                    vec![],
                    vec![Answer::N(0)],
                    vec![Answer::N(1)],
                    vec![Answer::N(2), Answer::N(1)],
                    vec![Answer::Err(E::Os(32))],
                    vec![Answer::Err(E::Custom(sio::ErrorKind::WouldBlock, 7))],
                    vec![Answer::Err(E::Simple(sio::ErrorKind::Interrupted)), Answer::Err(E::Os(5))],
                    vec![Answer::Ok, Answer::Err(E::Custom(sio::ErrorKind::Other, 1))],
                ]
            } else {
                vec![vec![], vec![Answer::FmtErr], vec![Answer::Ok, Answer::FmtErr]]
            };
            for op in &list {
                for plan in &answers {
                    let h = vec![(op.clone(), way, plan.clone()), (op.clone(), WAYS[(i + 1) % 8], vec![])];
                    m.case(format!("{io}{h:?}").as_bytes(), true);
                    if let Err(e) = checked(|| histories(&h, io, &mut c)) {
                        m.violation(e, format!("{h:?}"));
                        m.finish();
                    }
                }
            }
        }
    }
    m.exhaustive("22 to 31 operations with every kind of answer through each of 8 ways to eight user-defined writers");
    for i in 0..m.n(60_000, 4_000_000) {
        let io = i % 2 == 1;
        let h = ops(&mut r, io);
        m.case(format!("{io}{h:?}").as_bytes(), true);
        if checked(|| histories(&h, io, &mut c)).is_err() {
            let mut cc = Count::default();
            let min = crate::mon::shrink(h, |h| checked(|| histories(h, io, &mut cc)).is_err());
            m.violation(checked(|| histories(&min, io, &mut cc)).err().unwrap_or_default(), format!("{min:?}"));
            m.finish();
        }
        m.sample(|| format!("{h:?}"));
        if i % 256 == 0 && m.out_of_time() {
            break;
        }
    }
    m.count("calls of user-defined writers checked", c.calls);
    m.count("calls passed on one to one", c.one);
    m.count("provided methods used", c.provided);
    m.count("failures passed on", c.failed);
    for (name, n, f) in [
        ("macros over other types", 4_000, macros as fn(&Doc, &mut Count) -> Result<(), String>),
        ("values formatted by every entry point", 2_000, values),
        ("values rendered into sinks of other kinds", 4_000, sinks),
    ] {
        let mut c = Count::default();
        for i in 0..m.n(n, n * 30) {
            let k = gen::kind(&mut r);
            let d = small_doc(&mut r, Some(k));
            m.case(format!("{name}{d:?}").as_bytes(), d.nodes() > 1);
            if checked(|| f(&d, &mut c)).is_err() {
                let mut cc = Count::default();
                let d = crate::doc::shrink(&d, |d| checked(|| f(d, &mut cc)).is_err());
                m.violation(format!("{name}: {}", checked(|| f(&d, &mut cc)).err().unwrap_or_default()), format!("{d:?}"));
                m.finish();
            }
            if i % 64 == 0 && m.out_of_time() {
                break;
            }
        }
        m.count(name, c.one);
        m.require(name);
    }
    let mut c = Count::default();
    for i in 0..m.n(5_000, 300_000) {
        let rs: Vec<R> = (0..4).map(|_| gen::restyle(&mut r, 1)).collect();
        let at = gen::style(&mut r);
        m.case(format!("{rs:?}{at:?}").as_bytes(), true);
        if let Err(e) = guard(|| restyles(&rs, at, &mut c)).and_then(|r| r) {
            m.violation(format!("user-defined restyles: {e}"), format!("{rs:?} applied to {at:?}"));
            m.finish();
        }
        if i % 64 == 0 && m.out_of_time() {
            break;
        }
    }
    m.count("applications of user-defined restyles checked", c.one);
    for k in ["calls of user-defined writers checked", "calls passed on one to one", "provided methods used", "failures passed on", "applications of user-defined restyles checked"] {
        m.require(k);
    }
    m.finish()
}
