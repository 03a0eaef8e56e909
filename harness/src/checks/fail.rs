//! C15: failures stop the output at once and are reported unchanged.
//! C16: a writer stays correct after a failed write.
use super::io::{ROUTES, Route};
use crate::doc::{self, Doc};
use crate::drive::{self, Drv, DRVS};
use crate::gen::{self, Runs, Text};
use crate::model::{chars_of, DEF, S};
use crate::mon::{checked, Mon};
use crate::rng::Rng;
use crate::sink::{Act, FmtSink, IoSink, Styled, E};
use crate::{html, vt};
use std::io as sio;
use stylish::Write as _;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T {
    Ansi,
    Html,
    Plain,
    String,
    User,
    IoAnsi,
    IoPlain,
}
const FMT: [T; 5] = [T::Ansi, T::Html, T::Plain, T::User, T::String];
const IO: [T; 2] = [T::IoAnsi, T::IoPlain];

#[derive(Clone, Debug)]
pub enum Work {
    Value(Doc),
    Script(Runs, Drv),
}

pub fn push(w: &mut dyn stylish::Write, work: &Work, route: Route) -> stylish::Result {
    let mut w = w;
    match work {
        Work::Script(r, d) => drive::feed(w, r, *d),
        Work::Value(v) => match route {
            Route::Direct => w.write_fmt(stylish::format_args!("{:s}", v)),
            Route::Ref => stylish::write!(&mut w, "{:s}", v),
            Route::Dyn => stylish::write!(w, "{v:s}{}", ""),
            Route::ByRef => {
                let v: &dyn stylish::Display = v;
                stylish::Write::write_fmt(&mut &mut w, stylish::format_args!("{}{:s}", "", v))
            }
        },
    }
}
pub fn push_io(w: &mut dyn stylish::io::Write, work: &Work, route: Route) -> sio::Result<()> {
    let mut w = w;
    match work {
        Work::Script(r, d) => drive::feed_io(w, r, *d),
        Work::Value(v) => match route {
            Route::Direct => w.write_fmt(stylish::format_args!("{:s}", v)),
            Route::Ref => stylish::write!(&mut w, "{:s}", v),
            Route::Dyn => stylish::write!(w, "{v:s}{}", ""),
            Route::ByRef => stylish::write!(stylish::io::Write::by_ref(&mut w), "{}{:s}", "", v),
        },
    }
}

/// One rendering and finishing with a fault; what became of it.
struct Seen {
    /// the sink's content
    bytes: Vec<u8>,
    /// events where the sink is a user's styled writer
    chars: Option<Vec<(char, S)>>,
    calls: usize,
    failures: usize,
    after: usize,
    formatted_after: usize,
    /// None: everything succeeded
    error: Option<Option<sio::Error>>,
}

fn exec(t: T, work: &Work, route: Route, fault: Option<(usize, E)>) -> Seen {
    doc::reset_failure();
    let mut seen = Seen { bytes: vec![], chars: None, calls: 0, failures: 0, after: 0, formatted_after: 0, error: None };
    if IO.contains(&t) {
        let sink = IoSink::with(move |n, _| match fault {
            Some((k, e)) if n >= k => Act::Fail(e),
            _ => Act::All,
        });
        let r = match t {
            T::IoAnsi => {
                let mut w = stylish::io::Ansi::new(sink.clone());
                push_io(&mut w, work, route).and_then(|()| w.finish().map(|_| ()))
            }
            _ => {
                let mut w = stylish::io::Plain::new(sink.clone());
                push_io(&mut w, work, route)
            }
        };
        let st = sink.0.borrow();
        seen.bytes = st.buf.clone();
        seen.calls = st.calls;
        seen.failures = st.hard;
        seen.after = st.calls_after_hard;
        seen.error = r.err().map(Some);
    } else if t == T::User {
        let mut w = Styled::new();
        w.fail_at = fault.map(|f| f.0);
        let r = push(&mut w, work, route);
        seen.calls = w.calls;
        if let Some((k, _)) = fault {
            seen.failures = (w.calls > k) as usize;
            seen.after = w.calls.saturating_sub(k + 1);
        }
        seen.bytes = w.events.iter().map(|e| e.0.as_str()).collect::<String>().into_bytes();
        seen.chars = Some(chars_of(&w.events));
        seen.error = r.err().map(|_| None);
    } else if t == T::String {
        let mut w = stylish::String::new();
        let r = push(&mut w, work, route);
        let mut rec = Styled::new();
        doc::reset_failure_keep_after(|| {
            let _ = stylish::write!(rec, "{:s}", w);
        });
        seen.bytes = rec.events.iter().map(|e| e.0.as_str()).collect::<String>().into_bytes();
        seen.chars = Some(chars_of(&rec.events));
        seen.error = r.err().map(|_| None);
    } else {
        let sink = match fault {
            Some((k, _)) => FmtSink::failing_at(k),
            None => FmtSink::new(),
        };
        let r = match t {
            T::Ansi => {
                let mut w = stylish::Ansi::new(sink.clone());
                push(&mut w, work, route).and_then(|()| w.finish().map(|_| ()))
            }
            T::Html => {
                let mut w = stylish::Html::new(sink.clone());
                push(&mut w, work, route).and_then(|()| w.finish().map(|_| ()))
            }
            _ => {
                let mut w = stylish::Plain::new(sink.clone());
                push(&mut w, work, route)
            }
        };
        let st = sink.0.borrow();
        seen.bytes = st.buf.clone().into();
        seen.calls = st.calls;
        seen.failures = st.failures;
        seen.after = st.calls_after_failure;
        seen.error = r.err().map(|_| None);
    }
    seen.formatted_after = doc::formatted_after_failure();
    seen
}

fn prefix(s: &Seen, base: &Seen) -> Result<(), String> {
    if !base.bytes.starts_with(&s.bytes) {
        return Err(format!(
            "the sink holds {:?}, which is not a prefix of {:?}",
            String::from_utf8_lossy(&s.bytes),
            String::from_utf8_lossy(&base.bytes)
        ));
    }
    if let (Some(a), Some(b)) = (&s.chars, &base.chars) {
        if !b.starts_with(a) {
            return Err(format!("styled characters {a:?} are not a prefix of {b:?}"));
        }
    }
    if s.after > 0 {
        return Err(format!("the sink was called {} times after it had failed", s.after));
    }
    if s.formatted_after > 0 {
        return Err(format!("{} values were formatted after the failure", s.formatted_after));
    }
    Ok(())
}

fn sink_fault(t: T, work: &Work, route: Route, k: usize, e: E, base: &Seen) -> Result<(), String> {
    let s = exec(t, work, route, Some((k, e)));
    prefix(&s, base)?;
    if s.failures != 1 {
        return Err(format!("{} failures were injected instead of one", s.failures));
    }
    match &s.error {
        None => Err("the failure of the sink was swallowed".into()),
        Some(None) => Ok(()),
        Some(Some(x)) if e.is(x) => Ok(()),
        Some(Some(x)) => Err(format!("the sink failed with {e:?}, reported was {x:?}")),
    }
}

fn value_fault(t: T, d: &Doc, route: Route, leaf: usize, std: bool, base: &Seen) -> Result<(), String> {
    let f = d.with_failure(&mut (leaf as isize), std);
    let work = Work::Value(f.clone());
    let s = exec(t, &work, route, None);
    if s.error.is_none() {
        return Err(format!("the failure of a value was swallowed: {f:?}"));
    }
    // text the failing value wrote itself is not part of the fault-free output
    let mut want = Vec::new();
    f.model(DEF, &mut want);
    let text = crate::model::text_of(&want);
    let base_len = if std { text.len() - "tail".len() } else { text.len() };
    let _ = base_len;
    if s.formatted_after > 0 {
        return Err(format!("{} values were formatted after the failure", s.formatted_after));
    }
    match t {
        T::Plain | T::IoPlain => {
            if s.bytes != text.as_bytes() {
                return Err(format!("the sink holds {:?}, want {text:?}", String::from_utf8_lossy(&s.bytes)));
            }
        }
        T::User | T::String => {
            if s.chars.as_ref() != Some(&chars_of(&want)) {
                return Err(format!("the sink holds {:?}, want {want:?}", s.chars));
            }
        }
        _ if !std => prefix(&s, base)?,
        _ => {}
    }
    if !std {
        prefix(&s, base)?;
    }
    // all that was formatted before the failure is there, in its style
    match t {
        T::Ansi | T::IoAnsi => vt::compare(&vt::run(&s.bytes)?.0, &chars_of(&want)),
        T::Html => html::compare(&html::run(std::str::from_utf8(&s.bytes).map_err(|_| "not UTF-8")?, false)?.0, &chars_of(&want)),
        _ => Ok(()),
    }
}

pub fn small_doc(r: &mut Rng, k: Option<Text>) -> Doc {
    let (depth, mut b) = (r.range(1, 5), r.range(1, 16));
    doc::gen_d(r, k, depth, &mut b)
}

pub fn c15(mut m: Mon) -> ! {
    let mut r = m.rng(1);
    for i in 0..m.n(9_000, 500_000) {
        let route = ROUTES[i % 4];
        let k = gen::kind(&mut r);
        let work = if i % 3 == 0 {
            let n = r.below(7);
            let runs: Runs = gen::script_n(&mut r, Some(k), n).into_iter().map(|(t, s)| (t.chars().take(40).collect(), s)).collect();
            Work::Script(runs, *r.pick(&DRVS))
        } else {
            Work::Value(small_doc(&mut r, Some(k)))
        };
        for t in FMT.iter().chain(&IO) {
            let t = *t;
            let res = checked(|| {
                let base = exec(t, &work, route, None);
                if base.error.is_some() {
                    return Err("failed without a fault".into());
                }
                if t != T::String {
                    for k in 0..base.calls.min(120) {
                        let e = E::any(&mut r);
                        m.case(format!("{t:?}{k}{e:?}{work:?}").as_bytes(), true);
                        m.count("sink failures injected", 1);
                        if k > 0 {
                            m.count("sink failures after some output", 1);
                        }
                        sink_fault(t, &work, route, k, e, &base).map_err(|x| format!("sink call {k} of {} failing: {x}", base.calls))?;
                    }
                }
                if let Work::Value(d) = &work {
                    for leaf in 0..d.leaves() {
                        for std in [false, true] {
                            m.case(format!("{t:?}{leaf}{std}{work:?}").as_bytes(), true);
                            m.count("failing values rendered", 1);
                            value_fault(t, d, route, leaf, std, &base).map_err(|x| format!("leaf {leaf} failing (std value: {std}): {x}"))?;
                        }
                    }
                }
                Ok(())
            });
            if let Err(e) = res {
                // shrink values; scripts are small already
                let mut shown = format!("{work:?}");
                let mut e = e;
                if let Work::Value(d) = &work {
                    let mut er = m.rng(77);
                    let mut f = |d: &Doc| {
                        let work = Work::Value(d.clone());
                        checked(|| {
                            let base = exec(t, &work, route, None);
                            if t != T::String {
                                for k in 0..base.calls.min(60) {
                                    sink_fault(t, &work, route, k, E::any(&mut er), &base).map_err(|x| format!("sink call {k} failing: {x}"))?;
                                }
                            }
                            for leaf in 0..d.leaves() {
                                for std in [false, true] {
                                    value_fault(t, d, route, leaf, std, &base).map_err(|x| format!("leaf {leaf} failing (std value: {std}): {x}"))?;
                                }
                            }
                            Ok(())
                        })
                    };
                    let min = doc::shrink(d, |d| f(d).is_err());
                    if let Err(x) = f(&min) {
                        e = x;
                        shown = format!("{min:?}");
                    }
                }
                m.violation(format!("{t:?} through {route:?}: {e}"), shown);
                m.finish();
            }
        }
        m.sample(|| format!("through {route:?}: {work:?}"));
        if i % 64 == 0 && m.out_of_time() {
            break;
        }
    }
    // error identities: every kind, in every form, at the first and a later call, from finish and from flush
    let mut kinds = Vec::new();
    use sio::ErrorKind::*;
    for k in [NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, UnexpectedEof, Unsupported, OutOfMemory, Other, StorageFull] {
        kinds.push(E::Simple(k));
        kinds.push(E::Custom(k, 1));
        kinds.push(E::Custom(k, u64::MAX));
    }
    for n in [1, 2, 5, 9, 11, 12, 13, 22, 27, 28, 30, 32, 104, 110] {
        kinds.push(E::Os(n));
    }
    let works = [
        Work::Script(vec![("a".into(), S { fg: 1, ..DEF }), ("b".into(), S { bg: 2, int: 1, ..DEF })], Drv::Str),
        Work::Script(vec![("a".into(), S { fg: 1, ..DEF }), ("b".into(), S { bg: 2, int: 1, ..DEF })], Drv::Nested),
        Work::Value(Doc::With(crate::model::R::Fg(1), vec![Doc::Text("a".into(), doc::TextVia::Macro), Doc::Text("b".into(), doc::TextVia::CoreWriteFmt)], doc::Via::Args)),
    ];
    for e in kinds {
        for t in IO {
            for (wi, work) in works.iter().enumerate() {
                for route in ROUTES {
                    let res = checked(|| {
                        let base = exec(t, work, route, None);
                        for k in 0..base.calls {
                            m.case(format!("id{t:?}{k}{e:?}{wi}{route:?}").as_bytes(), true);
                            m.count("error identities checked", 1);
                            sink_fault(t, work, route, k, e, &base).map_err(|x| format!("sink call {k}: {x}"))?;
                        }
                        Ok(())
                    });
                    if let Err(x) = res {
                        m.violation(format!("{t:?} through {route:?}: {x}"), format!("error {e:?}, {work:?}"));
                        m.finish();
                    }
                }
            }
        }
    }
    m.exhaustive("20 error kinds in three forms and 14 OS errors at every sink call of three works through both IO writers and four routes");
    // an old error is not reported again
    for e in [E::Custom(BrokenPipe, 3), E::Os(28), E::Simple(TimedOut)] {
        let res = checked(|| {
            let sink = IoSink::with(move |n, _| if n == 1 { Act::Fail(e) } else { Act::All });
            let mut w = stylish::io::Ansi::new(sink.clone());
            let first = stylish::write!(w, "{}{}", "a", "b");
            if !first.as_ref().is_err_and(|x| e.is(x)) {
                return Err(format!("first rendering returned {first:?}, want {e:?}"));
            }
            match stylish::write!(w, "{}{:s}", "c", Doc::Fail) {
                Ok(()) => Err("the failure of a value was swallowed".into()),
                Err(x) if e.is(&x) => Err("the failure of a value was reported as an old error of the sink".into()),
                Err(_) => Ok(()),
            }
        });
        m.case(format!("stale{e:?}").as_bytes(), true);
        if let Err(x) = res {
            m.violation(x, format!("{e:?}"));
        }
    }
    // values that do without some of their texts: the failure that ends a rendering is
    // the one reported, and one that a value got over is none
    for i in 0..m.n(6_000, 300_000) {
        let n = r.range(1, 6);
        let parts: Vec<Part> = (0..n)
            .map(|_| {
                let t = gen::small_text(&mut r, Text::Html);
                let t = if r.one_in(2) { marked(&mut r, t) } else { t };
                (t, gen::style(&mut r), r.below(4), r.one_in(2))
            })
            .collect();
        let v = GetsOver(parts, r.one_in(4));
        let t = IO[i % 2];
        m.case(format!("{t:?}{v:?}").as_bytes(), v.0.iter().filter(|p| p.0.contains(MARK)).count() > 1);
        m.sample(|| format!("{t:?}: {v:?}"));
        if let Err(e) = checked(|| gets_over(t, &v, ROUTES[i / 2 % 4], &mut m)) {
            let min = crate::mon::shrink(v.0.clone(), |p| checked(|| gets_over(t, &GetsOver(p.to_vec(), v.1), ROUTES[i / 2 % 4], &mut Mon::new("C15", ""))).is_err());
            m.violation(format!("{t:?}: {e}"), format!("{:?}", GetsOver(min, v.1)));
            m.finish();
        }
    }
    // functions that return strings have no other way to report a failure
    for i in 0..m.n(1_500, 60_000) {
        let d = small_doc(&mut r, None);
        let leaf = r.below(d.leaves().max(1));
        let d = d.with_failure(&mut (leaf as isize), r.one_in(2));
        if !d.fails() {
            continue;
        }
        use stylish::{ToAnsiString as _, ToHtmlString as _, ToPlainString as _, ToStylishString as _};
        let all: [(&str, &dyn Fn() -> usize); 15] = [
            ("plain::format!", &|| stylish::plain::format!("{:s}", d).len()),
            ("ansi::format!", &|| stylish::ansi::format!("{:s}", d).len()),
            ("html::format!", &|| stylish::html::format!("{:s}", d).len()),
            ("format!", &|| stylish::format!("a{:s}b", d).to_plain_string().len()),
            ("plain::format", &|| stylish::plain::format(stylish::format_args!("{:s}{}", d, 1)).len()),
            ("ansi::format", &|| stylish::ansi::format(stylish::format_args!("{:s}{}", d, 1)).len()),
            ("html::format", &|| stylish::html::format(stylish::format_args!("{:s}{}", d, 1)).len()),
            ("format", &|| stylish::format(stylish::format_args!("{:s}{}", d, 1)).to_plain_string().len()),
            ("to_plain_string", &|| d.to_plain_string().len()),
            ("to_ansi_string", &|| d.to_ansi_string().len()),
            ("to_html_string", &|| d.to_html_string().len()),
            ("to_stylish_string", &|| d.to_stylish_string().to_plain_string().len()),
            ("plain::format! of a std value", &|| stylish::plain::format!("a{:(fg=red)}b", StdFail).len()),
            ("ansi::format! of a std value", &|| stylish::ansi::format!("a{:?}b", StdFail).len()),
            ("html::format! of a std value", &|| stylish::html::format!("a{}b", StdFail).len()),
        ];
        for (name, f) in all {
            m.case(format!("{name}{i}").as_bytes(), true);
            m.count("failing values given to functions that return strings", 1);
            doc::reset_failure();
            if let Ok(n) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                m.violation(format!("{name} swallowed the failure of a value and returned {n} bytes"), format!("{d:?}"));
                m.finish();
            }
        }
    }
    for k in ["sink failures after some output", "failing values rendered", "error identities checked", "failures that a value got over", "renderings ended by a later failure", "failing values given to functions that return strings"] {
        m.require(k);
    }
    m.finish()
}

struct StdFail;
impl std::fmt::Display for StdFail {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("tail")?;
        Err(std::fmt::Error)
    }
}
impl std::fmt::Debug for StdFail {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Err(std::fmt::Error)
    }
}

/// text, style, way to write it, and whether a failure of it is got over
type Part = (String, S, usize, bool);
/// writes its parts, and fails in the end if asked to
#[derive(Debug, Clone)]
struct GetsOver(Vec<Part>, bool);
impl stylish::Display for GetsOver {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
        for (t, s, way, over) in &self.0 {
            let mut f = f.with(s.lib());
            let res = match way {
                0 => f.write_str(t),
                1 => stylish::write!(f, "{}", t),
                2 => std::fmt::Write::write_fmt(&mut f, std::format_args!("{t}")),
                _ => stylish::write!(f, "{:s}", GetsOver(vec![(t.clone(), *s, 0, false)], false)),
            };
            if !over {
                res?;
            }
        }
        if self.1 {
            return Err(stylish::Error);
        }
        Ok(())
    }
}
fn gets_over(t: T, v: &GetsOver, route: Route, m: &mut Mon) -> Result<(), String> {
    let mark = MARK.to_string().into_bytes();
    let n = std::rc::Rc::new(std::cell::Cell::new(0));
    let made = n.clone();
    let sink = IoSink::with(move |_, b| {
        if b.windows(mark.len()).any(|w| w == mark) {
            made.set(made.get() + 1);
            Act::Fail(E::Custom(sio::ErrorKind::Other, made.get()))
        } else {
            Act::All
        }
    });
    // what becomes of it: the number of failures, and of the one that ends it
    let (mut fails, mut end) = (0, None);
    for (t, _, _, over) in &v.0 {
        if t.contains(MARK) {
            fails += 1;
            if !over {
                end = Some(fails);
                break;
            }
            m.count("failures that a value got over", 1);
        }
    }
    fn go(w: &mut dyn stylish::io::Write, v: &GetsOver, route: Route) -> sio::Result<()> {
        let mut w = w;
        match route {
            Route::Direct => w.write_fmt(stylish::format_args!("{:s}", v)),
            Route::Ref => stylish::write!(&mut w, "{:s}", v),
            Route::Dyn => stylish::write!(w, "{v:s}{}", ""),
            Route::ByRef => stylish::write!(stylish::io::Write::by_ref(&mut w), "{}{:s}", "", v),
        }
    }
    let res = match t {
        T::IoAnsi => go(&mut stylish::io::Ansi::new(sink.clone()), v, route),
        _ => go(&mut stylish::io::Plain::new(sink.clone()), v, route),
    };
    if n.get() != fails {
        return Err(format!("{} texts were refused, want {fails}", n.get()));
    }
    match (end, res) {
        (Some(k), Err(e)) if E::Custom(sio::ErrorKind::Other, k).is(&e) => {
            if k > 1 {
                m.count("renderings ended by a later failure", 1);
            }
            Ok(())
        }
        (Some(k), res) => Err(format!("failure {k} of the sink ended the rendering, reported was {res:?}")),
        (None, Err(_)) if v.1 => Ok(()),
        (None, Ok(())) if !v.1 => Ok(()),
        (None, res) => Err(format!("the value got over {fails} failures and returned {}, reported was {res:?}", if v.1 { "Err" } else { "Ok" })),
    }
}

/// the sink fails where the text has this,
pub const MARK: char = '\u{2620}';
/// and panics where it has this
pub const BOOM: char = '\u{2623}';

#[derive(Clone, Debug)]
pub enum Step {
    /// one write of a text, which the sink refuses if it has a MARK
    Text(String, S),
    /// a single call of write, of which the sink may take less than all
    Once(String, S),
    /// a value with failing parts, or texts the sink refuses
    Value(Doc),
}

/// How the sink refuses a text
#[derive(Clone, Copy, Debug)]
pub struct How {
    /// it takes what is before the mark first
    pub short: bool,
    /// 0..4: which way it refuses the rest
    pub no: usize,
}
impl How {
    pub fn any(r: &mut Rng) -> How {
        How { short: r.one_in(2), no: r.below(4) }
    }
    fn act(self) -> Act {
        match self.no {
            0 => Act::Fail(E::Os(28)),
            1 => Act::Zero,
            2 => Act::Fail(E::Simple(sio::ErrorKind::WouldBlock)),
            _ => Act::Fail(E::Custom(sio::ErrorKind::Other, 5)),
        }
    }
}

fn marked(r: &mut Rng, t: String) -> String {
    let mut cs: Vec<char> = t.chars().collect();
    let at = r.below(cs.len() + 1);
    cs.insert(at, MARK);
    cs.into_iter().collect()
}

pub fn steps(r: &mut Rng) -> Vec<Step> {
    let palette: Vec<S> = (0..3).map(|_| gen::style(r)).collect();
    let mut last = DEF;
    (0..r.range(2, 10))
        .map(|_| {
            let k = *r.pick(&[Text::Html, Text::Ascii, Text::Unicode, Text::Any]);
            match r.below(6) {
                0 | 1 => {
                    last = gen::next_style(r, last, &palette);
                    Step::Text(gen::small_text(r, k), last)
                }
                5 => {
                    last = gen::next_style(r, last, &palette);
                    let t = gen::small_text(r, k);
                    Step::Once(if r.one_in(3) { t } else { marked(r, t) }, last)
                }
                2 => {
                    last = gen::next_style(r, last, &palette);
                    let t = gen::small_text(r, k);
                    Step::Text(marked(r, t), last)
                }
                3 => {
                    let d = small_doc(r, Some(k));
                    let leaf = r.below(d.leaves().max(1));
                    let std = r.one_in(2);
                    Step::Value(d.with_failure(&mut (leaf as isize), std))
                }
                _ => {
                    let d = small_doc(r, Some(k));
                    let t = gen::small_text(r, k);
                    let t = marked(r, t);
                    Step::Value(Doc::Seq(vec![Doc::Text("ok".into(), doc::TextVia::WriteStr), Doc::With(gen::restyle(r, 1), vec![d, Doc::Text(t, doc::TextVia::WriteStr), Doc::Text("never".into(), doc::TextVia::Macro)], doc::Via::Each)], doc::Via::Each))
                }
            }
        })
        .collect()
}

/// Cells of unfinished output
pub fn cells(t: T, out: &[u8]) -> Result<Vec<(char, String)>, String> {
    Ok(match t {
        T::Html => html::run(std::str::from_utf8(out).map_err(|_| "not UTF-8")?, false)?.0.into_iter().map(|(c, h)| (c, format!("{h:?}"))).collect(),
        T::Ansi | T::IoAnsi => vt::run(out)?.0.into_iter().map(|(c, h)| (c, format!("{h:?}"))).collect(),
        _ => std::str::from_utf8(out).map_err(|_| "not UTF-8")?.chars().map(|c| (c, String::new())).collect(),
    })
}
pub fn wanted(t: T, runs: &[(String, S)]) -> Vec<(char, String)> {
    chars_of(runs)
        .into_iter()
        .map(|(c, s)| {
            (c, match t {
                T::Html => format!("{:?}", html::want(s)),
                T::Ansi | T::IoAnsi => format!("{:?}", vt::want(s)),
                _ => String::new(),
            })
        })
        .collect()
}

#[derive(Default)]
pub struct C16 {
    pub refused: u64,
    pub failed_values: u64,
    pub after: u64,
    pub panics: u64,
    pub parts: u64,
}

pub fn reuse(t: T, steps: &[Step], how: How, c: &mut C16) -> Result<(), String> {
    enum Wr {
        Ansi(stylish::Ansi<FmtSink>),
        Html(stylish::Html<FmtSink>),
        Plain(stylish::Plain<FmtSink>),
        IoAnsi(stylish::io::Ansi<IoSink>),
        IoPlain(stylish::io::Plain<IoSink>),
    }
    let fs = FmtSink::new();
    fs.0.borrow_mut().fail_on = Some(MARK);
    fs.0.borrow_mut().panic_on = Some(BOOM);
    let pats = [MARK, BOOM].map(|c| c.to_string().into_bytes());
    let refused = std::rc::Rc::new(std::cell::Cell::new(false));
    let refused_part = refused.clone();
    let is = IoSink::with(move |_, b| {
        let at = |p: &[u8]| b.windows(p.len()).position(|w| w == p);
        let has = match (at(&pats[0]), at(&pats[1])) {
            (Some(a), Some(b)) => Some(a.min(b)),
            (a, b) => a.or(b),
        };
        match has {
            // first accept what is before the mark, then refuse the rest
            Some(at) if how.short && at > 0 && !refused_part.get() => {
                refused_part.set(true);
                Act::Short(at)
            }
            Some(i) => {
                refused_part.set(false);
                if b[i..].starts_with(&pats[1]) {
                    Act::Panic
                } else {
                    how.act()
                }
            }
            None => Act::All,
        }
    });
    let mut w = match t {
        T::Ansi => Wr::Ansi(stylish::Ansi::new(fs.clone())),
        T::Html => Wr::Html(stylish::Html::new(fs.clone())),
        T::Plain => Wr::Plain(stylish::Plain::new(fs.clone())),
        T::IoAnsi => Wr::IoAnsi(stylish::io::Ansi::new(is.clone())),
        _ => Wr::IoPlain(stylish::io::Plain::new(is.clone())),
    };
    let bytes = || -> Vec<u8> {
        if IO.contains(&t) {
            is.bytes()
        } else {
            fs.text().into_bytes()
        }
    };
    let mut seen = 0;
    let mut failed = false;
    for (k, step) in steps.iter().enumerate() {
        let booms = doc::booms();
        // what a single write says it has taken
        let mut took = None;
        let caught = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match step {
            Step::Text(s, st) => {
                let l = st.lib();
                let ok = match &mut w {
                    Wr::Ansi(w) => stylish::Write::write_str(w, s, l).is_ok(),
                    Wr::Html(w) => stylish::Write::write_str(w, s, l).is_ok(),
                    Wr::Plain(w) => stylish::Write::write_str(w, s, l).is_ok(),
                    Wr::IoAnsi(w) => stylish::io::Write::write_all(w, s.as_bytes(), l).is_ok(),
                    Wr::IoPlain(w) => stylish::io::Write::write_all(w, s.as_bytes(), l).is_ok(),
                };
                (ok, vec![(s.clone(), *st)])
            }
            Step::Once(s, st) => {
                let l = st.lib();
                let ok = match &mut w {
                    Wr::Ansi(w) => stylish::Write::write_str(w, s, l).is_ok(),
                    Wr::Html(w) => stylish::Write::write_str(w, s, l).is_ok(),
                    Wr::Plain(w) => stylish::Write::write_str(w, s, l).is_ok(),
                    Wr::IoAnsi(w) => {
                        took = stylish::io::Write::write(w, s.as_bytes(), l).ok();
                        took.is_some()
                    }
                    Wr::IoPlain(w) => {
                        took = stylish::io::Write::write(w, s.as_bytes(), l).ok();
                        took.is_some()
                    }
                };
                (ok, vec![(s.clone(), *st)])
            }
            Step::Value(d) => {
                let ok = match &mut w {
                    Wr::Ansi(w) => stylish::write!(w, "{:s}", d).is_ok(),
                    Wr::Html(w) => stylish::write!(w, "{:s}", d).is_ok(),
                    Wr::Plain(w) => stylish::write!(w, "{:s}", d).is_ok(),
                    Wr::IoAnsi(w) => stylish::write!(w, "{:s}", d).is_ok(),
                    Wr::IoPlain(w) => stylish::write!(w, "{:s}", d).is_ok(),
                };
                let mut runs = Vec::new();
                d.model(DEF, &mut runs);
                (ok, runs)
            }
        }));
        let panicked = doc::booms() > booms;
        let (ok, mut runs) = match caught {
            Ok(x) if !panicked => x,
            Ok(_) => return Err(format!("step {k}: the panic did not reach the caller")),
            Err(p) => {
                // one of the library's own is not for this one to judge
                if !panicked {
                    std::panic::resume_unwind(p);
                }
                doc::is_boom(&*p).map_err(|e| format!("step {k}: {e}"))?;
                c.panics += 1;
                let mut runs = Vec::new();
                match step {
                    Step::Text(s, st) | Step::Once(s, st) => runs.push((s.clone(), *st)),
                    Step::Value(d) => drop(d.model(DEF, &mut runs)),
                }
                (false, runs)
            }
        };
        if let Some(n) = took {
            // the next one is a new attempt
            refused.set(false);
            if !runs[0].0.is_char_boundary(n) {
                return Err(format!("step {k}: {n} bytes of {:?} are said to be written", runs[0].0));
            }
            runs[0].0.truncate(n);
            c.parts += 1;
        }
        let refuse = runs.iter().position(|r| r.0.contains([MARK, BOOM]));
        let should_fail = refuse.is_some() || matches!(step, Step::Value(d) if d.fails());
        if ok == should_fail {
            return Err(format!("step {k} returned {}", if ok { "Ok" } else { "Err" }));
        }
        let all = cells(t, &bytes()).map_err(|e| format!("after step {k}: {e}"))?;
        let got = &all[seen..];
        if let Some(i) = refuse {
            // anything of the refused text before the mark may have been accepted
            c.refused += 1;
            let at = runs[i].0.find([MARK, BOOM]).unwrap();
            let rest = runs[i].0[..at].to_string();
            runs.truncate(i);
            // a String among the values hands on what is of one style at once
            let mut sure = i;
            while matches!(step, Step::Value(_)) && sure > 0 && runs[sure - 1].1 == step_style(step, &runs, i) {
                sure -= 1;
            }
            let must = wanted(t, &runs[..sure]);
            runs.push((rest, step_style(step, &runs, i)));
            let may = wanted(t, &runs);
            if !may.starts_with(got) || got.len() < must.len() {
                return Err(format!("step {k}, which the sink refused a text of: shown is {got:?}, want at least {must:?} and a prefix of {may:?}"));
            }
        } else {
            if !ok {
                c.failed_values += 1;
            }
            let want = wanted(t, &runs);
            if let Some(d) = crate::model::first_diff(got, &want) {
                return Err(format!("step {k}: {d}"));
            }
        }
        if failed && !got.is_empty() {
            c.after += got.len() as u64;
        }
        failed |= !ok;
        seen = all.len();
    }
    match w {
        Wr::Ansi(w) => drop(w.finish().map_err(|_| "finish failed")?),
        Wr::Html(w) => drop(w.finish().map_err(|_| "finish failed")?),
        Wr::Plain(w) => drop(w.into_inner()),
        Wr::IoAnsi(w) => drop(w.finish().map_err(|e| format!("finish failed: {e}"))?),
        Wr::IoPlain(w) => drop(w.into_inner()),
    }
    let out = bytes();
    if cells(t, &out)?.len() != seen {
        return Err("finishing added text".into());
    }
    match t {
        T::Html => html::run(std::str::from_utf8(&out).unwrap(), true).map(|_| ()),
        T::Ansi | T::IoAnsi => {
            let end = vt::run(&out)?.1;
            if end != vt::RESET {
                return Err(format!("finished, but the terminal is left in {end:?}"));
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

/// the style of run i of a step, of which `before` are the ones before it
fn step_style(step: &Step, _before: &[(String, S)], i: usize) -> S {
    match step {
        Step::Text(_, s) | Step::Once(_, s) => *s,
        Step::Value(d) => {
            let mut runs = Vec::new();
            d.model(DEF, &mut runs);
            runs[i].1
        }
    }
}

pub fn c16(mut m: Mon) -> ! {
    let mut r = m.rng(1);
    let mut c = C16::default();
    let ts = [T::Ansi, T::Html, T::IoAnsi, T::Plain, T::IoPlain];
    // every style of a failing write between every kind of neighbours
    let around = [DEF, S { fg: 1, ..DEF }, S { bg: 3, ..DEF }, S { int: 1, ..DEF }, S { fg: 1, bg: 3, int: 2 }];
    for t in [T::Ansi, T::Html, T::IoAnsi] {
        for i in 0..crate::model::N_STYLES {
            for (ai, a) in around.iter().enumerate() {
                for b in [around[(ai + i) % 5], S::nth(i), *a, DEF] {
                    for kind in 0..4 {
                        let bad = match kind {
                            0 => Step::Text(MARK.to_string(), S::nth(i)),
                            1 => Step::Value(Doc::With(crate::model::R::Full(S::nth(i)), vec![Doc::Text("t".into(), doc::TextVia::WriteStr), Doc::Fail], doc::Via::Each)),
                            2 => Step::Text(format!("u{MARK}"), S::nth(i)),
                            _ => Step::Once(if ai % 2 == 0 { format!("u{MARK}") } else { MARK.to_string() }, S::nth(i)),
                        };
                        let steps = [Step::Text("a".into(), *a), bad, Step::Text("b".into(), b)];
                        m.case(format!("{t:?}{i}{a:?}{b:?}{kind}").as_bytes(), true);
                        if let Err(e) = checked(|| reuse(t, &steps, How { short: kind >= 2, no: (i + ai) % 4 }, &mut c)) {
                            m.violation(format!("{t:?}: {e}"), format!("{steps:?}"));
                            m.finish();
                        }
                    }
                }
            }
        }
    }
    m.exhaustive("each of the 867 styles for a failing write between writes of 5 times 4 styles, four kinds of failure, three writers");
    for i in 0..m.n(60_000, 4_000_000) {
        let st = steps(&mut r);
        let t = ts[i % 5];
        let how = How::any(&mut r);
        m.case(format!("{t:?}{how:?}{st:?}").as_bytes(), true);
        if checked(|| reuse(t, &st, how, &mut c)).is_err() {
            let mut cc = C16::default();
            let mut min = crate::mon::shrink(st, |s| checked(|| reuse(t, s, how, &mut cc)).is_err());
            for k in 0..min.len() {
                if let Step::Value(d) = min[k].clone() {
                    let base = min.clone();
                    let d = doc::shrink(&d, |d| {
                        let mut s = base.clone();
                        s[k] = Step::Value(d.clone());
                        checked(|| reuse(t, &s, how, &mut cc)).is_err()
                    });
                    min[k] = Step::Value(d);
                }
            }
            m.violation(format!("{t:?}, {how:?}: {}", checked(|| reuse(t, &min, how, &mut cc)).err().unwrap_or_default()), format!("{min:?}"));
            break;
        }
        m.sample(|| format!("{t:?}: {st:?}"));
        if i % 256 == 0 && m.out_of_time() {
            break;
        }
    }
    m.count("texts refused by the sink", c.refused);
    m.count("values that failed", c.failed_values);
    m.count("single writes that took some or all", c.parts);
    m.count("characters checked after a failure", c.after);
    for k in ["texts refused by the sink", "values that failed", "characters checked after a failure"] {
        m.require(k);
    }
    m.finish()
}
