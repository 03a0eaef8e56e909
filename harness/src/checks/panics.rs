//! C23: a panic of user code gets out unchanged, and leaves everything usable.
use super::fail::{self, small_doc, Work, BOOM, T};
use super::io::ROUTES;
use crate::doc::{self, Doc, WHERES};
use crate::drive::DRVS;
use crate::gen::{self, Text};
use crate::model::{chars_of, of_fast, DEF, S};
use crate::mon::{checked, Mon};
use crate::rng::Rng;
use crate::sink::{Act, FmtSink, IoSink, Styled};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

const TS: [T; 7] = [T::Ansi, T::IoAnsi, T::Html, T::Plain, T::IoPlain, T::User, T::String];

/// A user's writer that can be looked at after it was dropped
#[derive(Clone, Default)]
struct Shared(Rc<RefCell<(Styled, Option<usize>)>>);
impl stylish::Write for Shared {
    fn write_str(&mut self, s: &str, style: stylish::Style) -> stylish::Result {
        doc::note_write(s.len());
        let mut w = self.0.borrow_mut();
        let n = w.0.calls;
        w.0.calls += 1;
        if w.1.is_some_and(|k| n >= k) {
            drop(w);
            doc::boom();
        }
        w.0.events.push((s.to_string(), of_fast(style)));
        Ok(())
    }
}

/// all the sinks there are, of which one is used
#[derive(Clone)]
struct Sinks {
    t: T,
    fs: FmtSink,
    is: IoSink,
    us: Shared,
}
enum Wr {
    Ansi(stylish::Ansi<FmtSink>),
    Html(stylish::Html<FmtSink>),
    Plain(stylish::Plain<FmtSink>),
    IoAnsi(stylish::io::Ansi<IoSink>),
    IoPlain(stylish::io::Plain<IoSink>),
    User(Shared),
    String(stylish::String),
}
impl Sinks {
    /// which panic at this call and those after it
    fn new(t: T, at: Option<usize>) -> Sinks {
        let fs = FmtSink::new();
        fs.0.borrow_mut().fail_at = at;
        fs.0.borrow_mut().panics = true;
        let is = IoSink::with(move |n, _| if at.is_some_and(|k| n >= k) { Act::Panic } else { Act::All });
        let us = Shared::default();
        us.0.borrow_mut().1 = at;
        Sinks { t, fs, is, us }
    }
    fn writer(&self) -> Wr {
        match self.t {
            T::Ansi => Wr::Ansi(stylish::Ansi::new(self.fs.clone())),
            T::Html => Wr::Html(stylish::Html::new(self.fs.clone())),
            T::Plain => Wr::Plain(stylish::Plain::new(self.fs.clone())),
            T::IoAnsi => Wr::IoAnsi(stylish::io::Ansi::new(self.is.clone())),
            T::IoPlain => Wr::IoPlain(stylish::io::Plain::new(self.is.clone())),
            T::User => Wr::User(self.us.clone()),
            T::String => Wr::String(stylish::String::new()),
        }
    }
    fn calls(&self) -> usize {
        match self.t {
            T::Ansi | T::Html | T::Plain => self.fs.0.borrow().calls,
            T::IoAnsi | T::IoPlain => self.is.0.borrow().calls,
            _ => self.us.0.borrow().0.calls,
        }
    }
    fn bytes(&self) -> Vec<u8> {
        match self.t {
            T::Ansi | T::Html | T::Plain => self.fs.text().into_bytes(),
            T::IoAnsi | T::IoPlain => self.is.bytes(),
            _ => self.us.0.borrow().0.events.iter().flat_map(|e| e.0.bytes()).collect(),
        }
    }
    fn cells(&self, w: Option<&Wr>) -> Result<Vec<(char, String)>, String> {
        match (self.t, w) {
            (T::String, Some(Wr::String(s))) => {
                let mut rec = Styled::new();
                doc::reset_failure_keep_after(|| {
                    let _ = stylish::Write::write_fmt(&mut rec, stylish::format_args!("{:s}", s));
                });
                Ok(with_styles(&rec.events))
            }
            (T::User | T::String, _) => Ok(with_styles(&self.us.0.borrow().0.events)),
            _ => fail::cells(self.t, &self.bytes()),
        }
    }
    fn wanted(&self, runs: &[(String, S)]) -> Vec<(char, String)> {
        match self.t {
            T::User | T::String => with_styles(runs),
            t => fail::wanted(t, runs),
        }
    }
}
fn with_styles(runs: &[(String, S)]) -> Vec<(char, String)> {
    chars_of(runs).into_iter().map(|(c, s)| (c, format!("{s:?}"))).collect()
}
impl Wr {
    fn put(&mut self, work: &Work, route: super::io::Route) -> bool {
        match self {
            Wr::Ansi(w) => fail::push(w, work, route).is_ok(),
            Wr::Html(w) => fail::push(w, work, route).is_ok(),
            Wr::Plain(w) => fail::push(w, work, route).is_ok(),
            Wr::User(w) => fail::push(w, work, route).is_ok(),
            Wr::String(w) => fail::push(w, work, route).is_ok(),
            Wr::IoAnsi(w) => fail::push_io(w, work, route).is_ok(),
            Wr::IoPlain(w) => fail::push_io(w, work, route).is_ok(),
        }
    }
    fn finish(self) -> bool {
        match self {
            Wr::Ansi(w) => w.finish().is_ok(),
            Wr::Html(w) => w.finish().is_ok(),
            Wr::Plain(w) => drop(w.into_inner()) == (),
            Wr::IoAnsi(w) => w.finish().is_ok(),
            Wr::IoPlain(w) => drop(w.into_inner()) == (),
            Wr::User(_) | Wr::String(_) => true,
        }
    }
}

/// What came of code that panics, or was to
fn caught<X>(f: impl FnOnce() -> X) -> Result<Option<X>, String> {
    let before = doc::booms();
    let written = doc::written_unwinding();
    let r = catch_unwind(AssertUnwindSafe(f));
    if doc::written_unwinding() > written {
        return Err(format!("{} writes to the sink while the panic was on its way out", doc::written_unwinding() - written));
    }
    match r {
        Ok(_) if doc::booms() > before => Err("the panic did not reach the caller".into()),
        Ok(x) => Ok(Some(x)),
        Err(p) if doc::booms() == before => std::panic::resume_unwind(p),
        Err(p) => {
            if doc::booms() > before + 1 {
                return Err(format!("user code was called again after it had panicked, and panicked {} times", doc::booms() - before));
            }
            doc::is_boom(&*p).map(|()| None)
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Owner {
    /// the writer outlives the panic, and is used again
    Outside,
    /// is dropped as the panic passes
    Inside,
    /// outlives it and is dropped without finishing
    Dropped,
}
const OWNERS: [Owner; 3] = [Owner::Outside, Owner::Inside, Owner::Dropped];

fn end_state(t: T, out: &[u8]) -> Result<(), String> {
    match t {
        T::Html => crate::html::run(std::str::from_utf8(out).map_err(|_| "not UTF-8")?, true).map(|_| ()),
        T::Ansi | T::IoAnsi => match crate::vt::run(out)?.1 {
            crate::vt::RESET => Ok(()),
            s => Err(format!("finished, but the terminal is left in {s:?}")),
        },
        _ => Ok(()),
    }
}

/// A value panics: some work before, the value, some work after.
fn value(t: T, before: &Work, d: &Doc, after: &Work, route: super::io::Route, owner: Owner) -> Result<(), String> {
    doc::reset_failure();
    let sinks = Sinks::new(t, None);
    let mut w = sinks.writer();
    if !w.put(before, route) {
        return Err("the work before failed".into());
    }
    let mut runs = runs_of(before);
    if d.model(DEF, &mut runs) {
        return Err("the harness: nothing panics".into());
    }
    let work = Work::Value(d.clone());
    let mut kept = None;
    let r = if owner == Owner::Inside {
        caught(move || w.put(&work, route))?
    } else {
        let r = caught(|| w.put(&work, route))?;
        kept = Some(w);
        r
    };
    match r {
        Some(true) => return Err("the rendering succeeded, the value was not formatted".into()),
        Some(false) => return Err("the rendering failed instead of panicking".into()),
        None => {}
    }
    if doc::formatted_after_failure() > 0 {
        return Err(format!("{} values were formatted after the panic", doc::formatted_after_failure()));
    }
    if owner == Owner::Dropped {
        let (bytes, calls) = (sinks.bytes(), sinks.calls());
        if let Some(w @ (Wr::Ansi(_) | Wr::Html(_) | Wr::Plain(_) | Wr::IoAnsi(_) | Wr::IoPlain(_))) = kept.take() {
            drop(w);
        }
        if (sinks.bytes(), sinks.calls()) != (bytes, calls) {
            return Err("dropping the writer after the panic wrote something".into());
        }
    }
    let compare = |w: Option<&Wr>, runs: &[(String, S)], what: &str| {
        if t == T::String && w.is_none() {
            return Ok(());
        }
        match crate::model::first_diff(&sinks.cells(w)?, &sinks.wanted(runs)) {
            None => Ok(()),
            Some(x) => Err(format!("{what}: {x}")),
        }
    };
    compare(kept.as_ref(), &runs, "after the panic")?;
    let Some(mut w) = kept else {
        return Ok(());
    };
    doc::reset_failure();
    if !w.put(after, route) {
        return Err("the work after the panic failed".into());
    }
    runs.extend(runs_of(after));
    compare(Some(&w), &runs, "used again after the panic")?;
    if t != T::String {
        let n = sinks.cells(None)?.len();
        if !w.finish() {
            return Err("finishing failed".into());
        }
        if sinks.cells(None)?.len() != n {
            return Err("finishing added text".into());
        }
        end_state(t, &sinks.bytes())?;
    }
    Ok(())
}

fn runs_of(w: &Work) -> gen::Runs {
    match w {
        Work::Value(d) => d.runs(),
        Work::Script(r, _) => r.clone(),
    }
}

/// The sink panics at each of its calls in turn.
fn sink(t: T, work: &Work, route: super::io::Route, owner: Owner, m: &mut Mon) -> Result<(), String> {
    doc::reset_failure();
    let base = Sinks::new(t, None);
    let mut w = base.writer();
    if !(w.put(work, route) && w.finish()) {
        return Err("failed without any panic".into());
    }
    let (all, styled) = (base.bytes(), base.cells(None)?);
    let n = base.calls();
    let ks: Vec<usize> = if n > 24 { (0..12).chain([n / 2, n / 3, 2 * n / 3]).chain(n - 9..n).collect() } else { (0..n).collect() };
    for k in ks {
        doc::reset_failure();
        let at = |e: String| format!("sink call {k}: {e}");
        let sinks = Sinks::new(t, Some(k));
        let mut w = sinks.writer();
        let mut kept = None;
        let r = if owner == Owner::Inside {
            caught(move || w.put(work, route) && w.finish()).map_err(at)?
        } else {
            let r = caught(|| w.put(work, route)).map_err(at)?;
            match r {
                Some(true) => caught(|| w.finish()).map_err(at)?,
                r => {
                    kept = Some(w);
                    r
                }
            }
        };
        drop(kept);
        m.case(format!("{t:?}{k}{work:?}{route:?}{owner:?}").as_bytes(), k > 0);
        m.count("panics of sinks", 1);
        if r.is_some() {
            return Err(at(format!("the panic of the sink did not get out: {r:?}")));
        }
        if sinks.calls() != k + 1 {
            return Err(at(format!("the sink was called {} times after it had panicked", sinks.calls() - k - 1)));
        }
        if !all.starts_with(&sinks.bytes()) || (t == T::User && !styled.starts_with(&sinks.cells(None)?)) {
            return Err(at(format!("the sink holds {:?}, which is not a prefix of {:?}", String::from_utf8_lossy(&sinks.bytes()), String::from_utf8_lossy(&all))));
        }
        if doc::formatted_after_failure() > 0 {
            return Err(at(format!("{} values were formatted after the panic", doc::formatted_after_failure())));
        }
    }
    Ok(())
}

/// Entry points that own their sink, and what is rendered afterwards.
#[allow(dropping_copy_types)]
fn entries(d: &Doc, ok: &Doc) -> Result<(), String> {
    use stylish::{ToAnsiString as _, ToHtmlString as _, ToPlainString as _, ToStylishString as _};
    let held = doc::styled_string(&ok.runs());
    let want = (stylish::ansi::format!("{:s}", ok), stylish::html::format!("{:s}", ok), stylish::plain::format!("{:s}", ok));
    macro_rules! each {
        ($($e:expr;)*) => {$(
            doc::reset_failure();
            match caught(|| drop($e)) {
                Ok(None) => {}
                Ok(Some(_)) => return Err(format!("{}: no panic", stringify!($e))),
                Err(e) => return Err(format!("{}: {e}", stringify!($e))),
            }
            if doc::formatted_after_failure() > 0 {
                return Err(format!("{}: {} values were formatted after the panic", stringify!($e), doc::formatted_after_failure()));
            }
            doc::reset_failure();
        )*};
    }
    each! {
        stylish::ansi::format!("{:s}", d);
        stylish::html::format!("a{:s}b", d);
        stylish::plain::format!("{d:s}");
        stylish::format!("{:s}{0:s}", d);
        stylish::ansi::format(stylish::format_args!("{:s}", d));
        stylish::html::format(stylish::format_args!("{:s}", d));
        stylish::plain::format(stylish::format_args!("{:s}", d));
        stylish::format(stylish::format_args!("{:s}", &d));
        d.to_ansi_string();
        d.to_html_string();
        d.to_plain_string();
        d.to_stylish_string();
        stylish::writeln!(stylish::Ansi::new(String::new()), "{:s}", d);
        stylish::writeln!(stylish::io::Ansi::new(Vec::new()), "{:s}", d);
        stylish::write!(stylish::Html::new(String::new()), "{held:s}{:s}{held:s}", d);
        stylish::html::format!("{:s}", stylish::format_args!("<{:s}>", d));
    }
    let got = (stylish::ansi::format!("{:s}", ok), stylish::html::format!("{:s}", ok), stylish::plain::format!("{:s}", ok));
    if got != want {
        return Err(format!("rendered after a panic: {got:?}, before: {want:?}"));
    }
    let mut rec = Styled::new();
    let _ = stylish::Write::write_fmt(&mut rec, stylish::format_args!("{:s}", held));
    if chars_of(&rec.events) != chars_of(&ok.runs()) {
        return Err(format!("a styled string holds {:?} after a panic, before: {:?}", rec.events, ok.runs()));
    }
    Ok(())
}

/// A panic in another thread while all render the same string
fn threads(ok: &Doc, at: usize) -> Result<(), String> {
    let shared = &doc::styled_string(&ok.runs());
    let want = stylish::html::format!("{:s}", shared);
    let results: Vec<Result<String, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..3)
            .map(|i| {
                let s = shared;
                sc.spawn(move || {
                    if i == 0 {
                        let sinks = Sinks::new(T::User, Some(at));
                        caught(|| stylish::Write::write_fmt(&mut sinks.us.clone(), stylish::format_args!("{:s}{0:s}", s)))?;
                    }
                    Ok(stylish::html::format!("{:s}", s))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("the thread panicked otherwise".into()))).collect()
    });
    for r in results {
        let r = r?;
        if r != want {
            return Err(format!("rendered by a thread: {r:?}, want {want:?}"));
        }
    }
    Ok(())
}

fn panicking(r: &mut Rng, k: Option<Text>) -> Doc {
    let d = small_doc(r, k);
    let leaf = r.below(d.leaves().max(1));
    let d = d.with_failure(&mut (leaf as isize), false);
    let t = gen::small_text(r, k.unwrap_or(Text::Any));
    let at = *r.pick(&WHERES);
    if d.fails() {
        d.panicking(&t, at)
    } else {
        Doc::With(gen::restyle(r, 1), vec![d, Doc::Panic(t, at), Doc::Text("never".into(), doc::TextVia::Macro)], doc::Via::Each)
    }
}
fn work(r: &mut Rng) -> Work {
    if r.one_in(2) {
        let n = r.below(5);
        let runs = gen::script_n(r, None, n).into_iter().map(|(t, s)| (t.chars().take(40).collect(), s)).collect();
        Work::Script(runs, *r.pick(&DRVS))
    } else {
        Work::Value(small_doc(r, None))
    }
}

pub fn run(mut m: Mon) -> ! {
    let mut r = m.rng(1);
    // every kind of panic in every style, in every writer
    let around = [DEF, S { fg: 1, ..DEF }, S { int: 2, bg: 3, ..DEF }];
    for t in TS {
        for (wi, at) in WHERES.into_iter().enumerate() {
            for i in 0..crate::model::N_STYLES {
                let d = Doc::With(crate::model::R::Full(S::nth(i)), vec![Doc::Panic(if i % 2 == 0 { "é<".into() } else { String::new() }, at)], doc::Via::Each);
                let before = Work::Script(vec![("a".into(), around[i % 3])], DRVS[i % 8]);
                let after = Work::Script(vec![("b".into(), [S::nth(i), DEF, around[1], around[2]][(i + wi) % 4])], DRVS[i / 8 % 8]);
                let owner = OWNERS[(i + wi) % 4 % 3];
                m.case(format!("{t:?}{at:?}{i}").as_bytes(), true);
                m.count("panics of values and restyles", 1);
                if let Err(e) = checked(|| value(t, &before, &d, &after, ROUTES[i % 4], owner)) {
                    m.violation(format!("{t:?}, {owner:?}: {e}"), format!("{before:?}, then {d:?}, then {after:?}"));
                    m.finish();
                }
            }
        }
    }
    m.exhaustive("panics of 7 kinds in all 867 styles in all writers");
    for i in 0..m.n(20_000, 1_500_000) {
        let k = gen::kind(&mut r);
        let t = TS[i % 7];
        let owner = *r.pick(&OWNERS);
        let route = ROUTES[i % 4];
        let plain = |w: Work| match w {
            Work::Script(r, d) => Work::Script(r.into_iter().map(|(t, s)| (t.replace('\x1b', "e"), s)).collect(), d),
            w => w,
        };
        let (before, d, after) = (plain(work(&mut r)), panicking(&mut r, Some(k)), plain(work(&mut r)));
        m.case(format!("{t:?}{before:?}{d:?}{after:?}{owner:?}").as_bytes(), true);
        m.count("panics of values and restyles", 1);
        if checked(|| value(t, &before, &d, &after, route, owner)).is_err() {
            let d = doc::shrink(&d, |d| d.fails() && checked(|| value(t, &before, d, &after, route, owner)).is_err());
            m.violation(format!("{t:?}, {owner:?}: {}", checked(|| value(t, &before, &d, &after, route, owner)).err().unwrap_or_default()), format!("{before:?}, then {d:?}, then {after:?}"));
            m.finish();
        }
        m.sample(|| format!("{t:?}: {before:?}, then {d:?}, then {after:?}"));
        if i % 64 == 0 && m.out_of_time() {
            break;
        }
    }
    for i in 0..m.n(6_000, 400_000) {
        let t = TS[i % 6];
        let (w, route, owner) = (work(&mut r), ROUTES[i % 4], *r.pick(&OWNERS));
        if let Err(e) = checked(|| sink(t, &w, route, owner, &mut m)) {
            let mut shown = w.clone();
            if let Work::Value(d) = &w {
                let d = doc::shrink(d, |d| checked(|| sink(t, &Work::Value(d.clone()), route, owner, &mut m)).is_err());
                shown = Work::Value(d);
            }
            let e = checked(|| sink(t, &shown, route, owner, &mut m)).err().unwrap_or(e);
            m.violation(format!("{t:?}, {owner:?}: {e}"), format!("{shown:?}"));
            m.finish();
        }
        m.sample(|| format!("the sink of {t:?} panics: {w:?}"));
        if i % 64 == 0 && m.out_of_time() {
            break;
        }
    }
    for i in 0..m.n(1_500, 60_000) {
        let (d, ok) = (panicking(&mut r, None), small_doc(&mut r, None));
        m.case(format!("entries{d:?}{ok:?}").as_bytes(), true);
        m.count("panics through entry points that own their sink", 16);
        if checked(|| entries(&d, &ok)).is_err() {
            let d = doc::shrink(&d, |d| d.fails() && checked(|| entries(d, &ok)).is_err());
            m.violation(checked(|| entries(&d, &ok)).err().unwrap_or_default(), format!("{d:?}, {ok:?}"));
            m.finish();
        }
        if i % 16 == 0 {
            let at = r.below(4);
            m.count("panics on a thread of its own", 1);
            if let Err(e) = checked(|| threads(&ok, at)) {
                m.violation(e, format!("{ok:?}"));
                m.finish();
            }
        }
        if i % 64 == 0 && m.out_of_time() {
            break;
        }
    }
    // histories with failures and panics of all kinds
    let mut c = fail::C16::default();
    let ts = [T::Ansi, T::Html, T::IoAnsi, T::Plain, T::IoPlain];
    for i in 0..m.n(15_000, 1_000_000) {
        let st: Vec<fail::Step> = fail::steps(&mut r)
            .into_iter()
            .map(|s| match s {
                fail::Step::Text(t, s) if r.one_in(2) => fail::Step::Text(t.replace(fail::MARK, &BOOM.to_string()), s),
                fail::Step::Once(t, s) if r.one_in(2) => fail::Step::Once(t.replace(fail::MARK, &BOOM.to_string()), s),
                fail::Step::Value(d) if r.one_in(2) => {
                    let t = gen::small_text(&mut r, Text::Html);
                    fail::Step::Value(d.panicking(&t, *r.pick(&WHERES)))
                }
                s => s,
            })
            .collect();
        let t = ts[i % 5];
        let how = fail::How::any(&mut r);
        m.case(format!("{t:?}{how:?}{st:?}").as_bytes(), true);
        if checked(|| fail::reuse(t, &st, how, &mut c)).is_err() {
            let mut cc = fail::C16::default();
            let min = crate::mon::shrink(st, |s| checked(|| fail::reuse(t, s, how, &mut cc)).is_err());
            m.violation(format!("{t:?}: {}", checked(|| fail::reuse(t, &min, how, &mut cc)).err().unwrap_or_default()), format!("{min:?}"));
            m.finish();
        }
        m.sample(|| format!("{t:?}: {st:?}"));
        if i % 256 == 0 && m.out_of_time() {
            break;
        }
    }
    m.count("panics within histories", c.panics);
    m.count("characters checked after a failure or panic", c.after);
    for k in ["panics of sinks", "panics of values and restyles", "panics through entry points that own their sink", "panics on a thread of its own", "panics within histories", "characters checked after a failure or panic"] {
        m.require(k);
    }
    m.finish()
}
