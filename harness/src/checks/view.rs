//! C24: a writer is only a view of its sink: it holds back no text, adds none, owns its
//! sink like any other value, and a clone of it goes on by itself.
use super::fail::{self, small_doc, Work, T};
use super::io::{Route, ROUTES};
use crate::drive::{Drv, DRVS};
use crate::gen::{self, Runs, Text};
use crate::model::{first_diff, N_STYLES, DEF, S};
use crate::mon::{checked, Mon};
use crate::rng::Rng;
use std::cell::{Cell, RefCell};
use std::fmt;
use std::io as sio;
use std::rc::Rc;
use stylish::{Display, Formatter};

const TS: [T; 5] = [T::Ansi, T::IoAnsi, T::Html, T::Plain, T::IoPlain];

#[derive(Default)]
struct Log {
    bytes: RefCell<Vec<u8>>,
    owners: Cell<usize>,
    flushes: Cell<usize>,
    /// how it came about
    cloned: bool,
}
thread_local! {
    static SINKS: RefCell<Vec<Rc<Log>>> = const { RefCell::new(Vec::new()) };
}
fn sink(id: usize) -> Rc<Log> {
    SINKS.with(|s| s.borrow()[id].clone())
}
fn sinks() -> usize {
    SINKS.with(|s| s.borrow().len())
}
/// The sinks that somebody owns
fn live() -> Vec<usize> {
    SINKS.with(|s| s.borrow().iter().enumerate().filter(|s| s.1.owners.get() > 0).map(|s| s.0).collect())
}

/// Every one of these is told apart, and known to be owned or not.
struct Mine(usize, Rc<Log>);
impl Mine {
    fn with(bytes: Vec<u8>, cloned: bool) -> Mine {
        SINKS.with(|s| {
            let log = Rc::new(Log { bytes: RefCell::new(bytes), owners: Cell::new(1), cloned, ..Log::default() });
            s.borrow_mut().push(log.clone());
            Mine(s.borrow().len() - 1, log)
        })
    }
    fn take(&mut self, b: &[u8]) {
        self.1.bytes.borrow_mut().extend_from_slice(b)
    }
}
impl Default for Mine {
    fn default() -> Mine {
        Mine::with(vec![], false)
    }
}
impl Clone for Mine {
    fn clone(&self) -> Mine {
        let b = self.1.bytes.borrow().clone();
        Mine::with(b, true)
    }
}
impl Drop for Mine {
    fn drop(&mut self) {
        self.1.owners.set(self.1.owners.get().wrapping_sub(1));
    }
}
impl fmt::Debug for Mine {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "sink {}", self.0)
    }
}
impl fmt::Write for Mine {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.take(s.as_bytes());
        Ok(())
    }
}
impl sio::Write for Mine {
    fn write(&mut self, b: &[u8]) -> sio::Result<usize> {
        self.take(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> sio::Result<()> {
        self.1.flushes.set(self.1.flushes.get() + 1);
        Ok(())
    }
}

enum Wr {
    Ansi(stylish::Ansi<Mine>),
    Html(stylish::Html<Mine>),
    Plain(stylish::Plain<Mine>),
    IoAnsi(stylish::io::Ansi<Mine>),
    IoPlain(stylish::io::Plain<Mine>),
}
use Wr::*;
macro_rules! any {
    ($w:expr, $v:ident => $e:expr) => {
        match $w {
            Ansi($v) => $e,
            Html($v) => $e,
            Plain($v) => $e,
            IoAnsi($v) => $e,
            IoPlain($v) => $e,
        }
    };
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Made {
    New,
    Default,
    /// by the functions of the facade
    Function,
}
const MADE: [Made; 3] = [Made::New, Made::Default, Made::Function];
impl Wr {
    fn new(t: T, how: Made) -> Wr {
        match (t, how) {
            (T::Ansi, Made::Default) => Ansi(Default::default()),
            (T::Ansi, Made::Function) => Ansi(stylish::ansi(Mine::default())),
            (T::Ansi, _) => Ansi(stylish::Ansi::new(Mine::default())),
            (T::Html, Made::Default) => Html(Default::default()),
            (T::Html, Made::Function) => Html(stylish::html(Mine::default())),
            (T::Html, _) => Html(stylish::Html::new(Mine::default())),
            (T::IoAnsi, Made::Default) => IoAnsi(Default::default()),
            (T::IoAnsi, Made::Function) => IoAnsi(stylish::io::ansi(Mine::default())),
            (T::IoAnsi, _) => IoAnsi(stylish::io::Ansi::new(Mine::default())),
            (T::IoPlain, Made::Default) => IoPlain(Default::default()),
            (T::IoPlain, Made::Function) => IoPlain(stylish::io::plain(Mine::default())),
            (T::IoPlain, _) => IoPlain(stylish::io::Plain::new(Mine::default())),
            (_, Made::Default) => Plain(Default::default()),
            (_, Made::Function) => Plain(stylish::plain(Mine::default())),
            _ => Plain(stylish::Plain::new(Mine::default())),
        }
    }
    fn put(&mut self, work: &Work, route: Route) -> Result<(), String> {
        match self {
            Ansi(w) => fail::push(w, work, route).map_err(|e| format!("{e:?}")),
            Html(w) => fail::push(w, work, route).map_err(|e| format!("{e:?}")),
            Plain(w) => fail::push(w, work, route).map_err(|e| format!("{e:?}")),
            IoAnsi(w) => fail::push_io(w, work, route).map_err(|e| format!("{e:?}")),
            IoPlain(w) => fail::push_io(w, work, route).map_err(|e| format!("{e:?}")),
        }
    }
    fn show(&mut self, v: &dyn Display) -> bool {
        any!(self, w => w.write_fmt(stylish::format_args!("{:s}", v)).is_ok())
    }
    fn finish(self) -> Result<Mine, String> {
        match self {
            Ansi(w) => w.finish().map_err(|e| e.to_string()),
            Html(w) => w.finish().map_err(|e| e.to_string()),
            IoAnsi(w) => w.finish().map_err(|e| e.to_string()),
            Plain(w) => Ok(w.into_inner()),
            IoPlain(w) => Ok(w.into_inner()),
        }
    }
    fn flush(&mut self) -> Option<bool> {
        match self {
            IoAnsi(w) => Some(stylish::io::Write::flush(w).is_ok()),
            IoPlain(w) => Some(stylish::io::Write::flush(w).is_ok()),
            _ => None,
        }
    }
}
impl Clone for Wr {
    fn clone(&self) -> Wr {
        match self {
            Ansi(w) => Ansi(w.clone()),
            Html(w) => Html(w.clone()),
            Plain(w) => Plain(w.clone()),
            IoAnsi(w) => IoAnsi(w.clone()),
            IoPlain(w) => IoPlain(w.clone()),
        }
    }
    fn clone_from(&mut self, other: &Wr) {
        match (self, other) {
            (Ansi(a), Ansi(b)) => a.clone_from(b),
            (Html(a), Html(b)) => a.clone_from(b),
            (Plain(a), Plain(b)) => a.clone_from(b),
            (IoAnsi(a), IoAnsi(b)) => a.clone_from(b),
            (IoPlain(a), IoPlain(b)) => a.clone_from(b),
            _ => unreachable!(),
        }
    }
}

#[derive(Clone, Debug)]
enum Op {
    New(Made),
    Put(usize, Work, Route),
    /// a value that looks at the sink while it is formatted
    Look(usize, Runs, bool),
    Clone(usize),
    CloneFrom(usize, usize),
    Swap(usize, usize),
    /// the writer is replaced by a default one, and goes on elsewhere
    Take(usize),
    Debug(usize),
    Flush(usize),
    Drop(usize),
    Finish(usize),
}

/// What should be known about a writer
#[derive(Clone)]
struct Slot {
    sink: usize,
    runs: Runs,
    /// all it was given, by itself or by those it is a clone of
    works: Vec<(Work, Route)>,
}

struct Looks<'a> {
    t: T,
    sink: usize,
    before: &'a [(String, S)],
    runs: &'a [(String, S)],
    args: bool,
    wrong: RefCell<Option<String>>,
    looked: Cell<u64>,
}
impl Looks<'_> {
    fn look(&self, n: usize, extra: Option<(&str, S)>) {
        self.looked.set(self.looked.get() + 1);
        let mut want: Runs = self.before.iter().chain(&self.runs[..n]).cloned().collect();
        want.extend(extra.map(|(t, s)| (t.to_string(), s)));
        let log = sink(self.sink);
        let r = fail::cells(self.t, &log.bytes.borrow()).map(|c| first_diff(&c, &fail::wanted(self.t, &want)));
        if let Err(e) | Ok(Some(e)) = r {
            self.wrong.borrow_mut().get_or_insert(format!("within a rendering, after piece {n}: {e}"));
        }
    }
}
/// a std value that looks after each of its own writes
struct StdLooks<'a, 'b>(&'a Looks<'b>, usize);
impl fmt::Display for StdLooks<'_, '_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let (t, s) = &self.0.runs[self.1];
        let half = (0..=t.len() / 2).rev().find(|i| t.is_char_boundary(*i)).unwrap_or(0);
        f.write_str(&t[..half])?;
        self.0.look(self.1, Some((&t[..half], *s)));
        f.write_str(&t[half..])?;
        self.0.look(self.1 + 1, None);
        Ok(())
    }
}
impl Display for Looks<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        self.look(0, None);
        for (i, (t, s)) in self.runs.iter().enumerate() {
            if self.args {
                stylish::write!(f.with(s.lib()), "{}", StdLooks(self, i))?;
            } else {
                f.with(s.lib()).write_str(t)?;
            }
            self.look(i + 1, None);
        }
        Ok(())
    }
}

#[derive(Default)]
struct Count {
    ops: u64,
    looks: u64,
    clones: u64,
    handed_back: u64,
    dropped: u64,
    chars: u64,
    alone: u64,
}

fn history(t: T, ops: &[Op], c: &mut Count) -> Result<(), String> {
    SINKS.with(|s| s.borrow_mut().clear());
    let mut ws: Vec<(Wr, Slot)> = vec![(Wr::new(t, Made::New), Slot { sink: 0, runs: vec![], works: vec![] })];
    if live() != [0] {
        return Err("making a writer dropped its sink, or made another one".into());
    }
    // finished or dropped, to compare with what they would be alone
    let mut done: Vec<(Slot, bool)> = vec![];
    for (k, op) in ops.iter().enumerate() {
        c.ops += 1;
        let at = |e: String| format!("step {k}: {e}");
        let before: Vec<Vec<u8>> = (0..sinks()).map(|i| sink(i).bytes.borrow().clone()).collect();
        let n = ws.len();
        let mut touched = None;
        // the sinks that should be owned afterwards, not counting new ones
        let mut gone = vec![];
        let fresh = |cloned: bool| -> Result<usize, String> {
            let new: Vec<usize> = (before.len()..sinks()).filter(|i| sink(*i).owners.get() > 0).collect();
            match new[..] {
                [i] if sink(i).cloned == cloned => Ok(i),
                _ => Err(format!("there are {} new sinks, want one that is {}", new.len(), if cloned { "a clone" } else { "empty" })),
            }
        };
        match op {
            Op::New(how) => {
                let w = Wr::new(t, *how);
                ws.push((w, Slot { sink: fresh(false).map_err(at)?, runs: vec![], works: vec![] }));
            }
            Op::Put(i, work, route) => {
                let (w, s) = &mut ws[i % n];
                w.put(work, *route).map_err(|e| at(format!("the write failed: {e}")))?;
                match work {
                    Work::Value(d) => s.runs.extend(d.runs()),
                    Work::Script(r, _) => s.runs.extend(r.iter().cloned()),
                }
                s.works.push((work.clone(), *route));
                touched = Some(i % n);
            }
            Op::Look(i, runs, args) => {
                let (w, s) = &mut ws[i % n];
                let l = Looks { t, sink: s.sink, before: &s.runs, runs, args: *args, wrong: RefCell::new(None), looked: Cell::new(0) };
                if !w.show(&l) {
                    return Err(at("the write failed".into()));
                }
                c.looks += l.looked.get();
                if let Some(e) = l.wrong.into_inner() {
                    return Err(at(e));
                }
                s.runs.extend(runs.iter().cloned());
                s.works.push((Work::Script(runs.clone(), if *args { Drv::Args } else { Drv::Nested }), Route::Direct));
                touched = Some(i % n);
            }
            Op::Clone(i) => {
                let w = ws[i % n].0.clone();
                let mut s = ws[i % n].1.clone();
                s.sink = fresh(true).map_err(at)?;
                ws.push((w, s));
                c.clones += 1;
            }
            Op::CloneFrom(i, j) if i % n != j % n => {
                let (i, j) = (i % n, j % n);
                let other = ws[j].1.clone();
                let (a, b) = ws.split_at_mut(i.max(j));
                let (to, from) = if i < j { (&mut a[i].0, &b[0].0) } else { (&mut b[0].0, &a[j].0) };
                to.clone_from(from);
                let new = Slot { sink: fresh(true).map_err(at)?, ..other };
                done.push((std::mem::replace(&mut ws[i].1, new), false));
                c.clones += 1;
            }
            Op::CloneFrom(..) => {}
            Op::Swap(i, j) if i % n != j % n => {
                let (i, j) = ((i % n).min(j % n), (i % n).max(j % n));
                let (a, b) = ws.split_at_mut(j);
                match (&mut a[i].0, &mut b[0].0) {
                    (Ansi(a), Ansi(b)) => std::mem::swap(a, b),
                    (Html(a), Html(b)) => std::mem::swap(a, b),
                    (Plain(a), Plain(b)) => std::mem::swap(a, b),
                    (IoAnsi(a), IoAnsi(b)) => std::mem::swap(a, b),
                    (IoPlain(a), IoPlain(b)) => std::mem::swap(a, b),
                    _ => unreachable!(),
                }
                std::mem::swap(&mut a[i].1, &mut b[0].1);
            }
            Op::Swap(..) => {}
            Op::Take(i) => {
                let taken = match &mut ws[i % n].0 {
                    Ansi(w) => Ansi(std::mem::take(w)),
                    Html(w) => Html(std::mem::take(w)),
                    Plain(w) => Plain(std::mem::take(w)),
                    IoAnsi(w) => IoAnsi(std::mem::take(w)),
                    IoPlain(w) => IoPlain(std::mem::take(w)),
                };
                let s = Slot { sink: fresh(false).map_err(at)?, runs: vec![], works: vec![] };
                let s = std::mem::replace(&mut ws[i % n].1, s);
                ws.push((taken, s));
            }
            Op::Debug(i) => {
                any!(&ws[i % n].0, w => drop(format!("{w:?}{w:#?}")));
            }
            Op::Flush(i) => {
                let was = sink(ws[i % n].1.sink).flushes.get();
                match ws[i % n].0.flush() {
                    Some(false) => return Err(at("flushing failed".into())),
                    Some(true) if sink(ws[i % n].1.sink).flushes.get() == was => return Err(at("flushing did not reach the sink".into())),
                    _ => {}
                }
                // it may write, though no text
                touched = Some(i % n);
            }
            Op::Drop(i) => {
                let (w, s) = ws.remove(i % n);
                gone.push(s.sink);
                drop(w);
                done.push((s, false));
                c.dropped += 1;
            }
            Op::Finish(i) => {
                let (w, s) = ws.remove(i % n);
                let mine = w.finish().map_err(|e| at(format!("finishing failed: {e}")))?;
                if mine.0 != s.sink {
                    return Err(at(format!("finishing gave back sink {} for {}", mine.0, s.sink)));
                }
                if mine.1.owners.get() != 1 {
                    return Err(at("finishing gave back a sink that is owned twice or not at all".into()));
                }
                let bytes = mine.1.bytes.borrow().clone();
                if !bytes.starts_with(&before[s.sink]) {
                    return Err(at("finishing changed what was written before".into()));
                }
                drop(mine);
                gone.push(s.sink);
                c.handed_back += 1;
                let cells = fail::cells(t, &bytes).map_err(at)?;
                if let Some(e) = first_diff(&cells, &fail::wanted(t, &s.runs)) {
                    return Err(at(format!("finished: {e}")));
                }
                done.push((s, true));
            }
        }
        if let Some(i) = touched {
            let s = &ws[i].1;
            let log = sink(s.sink);
            let bytes = log.bytes.borrow();
            if !bytes.starts_with(&before[s.sink]) {
                return Err(at("what was written before has changed".into()));
            }
            let cells = fail::cells(t, &bytes).map_err(at)?;
            c.chars += cells.len() as u64;
            if let Some(e) = first_diff(&cells, &fail::wanted(t, &s.runs)) {
                return Err(at(format!("when the write had returned, the sink: {e}")));
            }
        }
        // everything else is as it was
        let finished = matches!(op, Op::Finish(_));
        for (i, b) in before.iter().enumerate() {
            if touched.is_some_and(|t| ws[t].1.sink == i) || (finished && gone.contains(&i)) {
                continue;
            }
            if *sink(i).bytes.borrow() != *b {
                return Err(at(format!("sink {i} was written to: {:?}", String::from_utf8_lossy(&sink(i).bytes.borrow()[b.len().min(sink(i).bytes.borrow().len())..]))));
            }
        }
        let mut want: Vec<usize> = ws.iter().map(|w| w.1.sink).collect();
        want.sort();
        if live() != want {
            return Err(at(format!("owned are the sinks {:?}, there are writers for {want:?}", live())));
        }
        // a new sink has nothing of a writer yet but what was cloned
        for (_, s) in &ws {
            if s.sink >= before.len() {
                let log = sink(s.sink);
                let cells = fail::cells(t, &log.bytes.borrow()).map_err(at)?;
                if cells != fail::wanted(t, &s.runs) {
                    return Err(at(format!("a new sink holds {cells:?}")));
                }
                if !log.cloned && !log.bytes.borrow().is_empty() {
                    return Err(at("making a writer wrote something".into()));
                }
            }
            if sink(s.sink).owners.get() != 1 {
                return Err(at(format!("a sink is owned {} times", sink(s.sink).owners.get())));
            }
        }
    }
    done.extend(ws.iter().map(|w| (w.1.clone(), false)));
    drop(ws);
    if !live().is_empty() {
        return Err(format!("sinks {:?} are still owned after their writers were dropped", live()));
    }
    // each as if it had been alone from the start; flushing may have added to it
    if ops.iter().any(|o| matches!(o, Op::Flush(_))) {
        return Ok(());
    }
    for (s, finished) in done {
        let mut w = Wr::new(t, Made::New);
        let id = sinks() - 1;
        for (work, route) in &s.works {
            w.put(work, *route)?;
        }
        if finished {
            w.finish()?;
        }
        c.alone += 1;
        let (alone, was) = (sink(id), sink(s.sink));
        if *alone.bytes.borrow() != *was.bytes.borrow() {
            return Err(format!(
                "a writer {}wrote {:?}, one that is new and given the same {:?}",
                if finished { "(finished) " } else { "" },
                String::from_utf8_lossy(&was.bytes.borrow()),
                String::from_utf8_lossy(&alone.bytes.borrow())
            ));
        }
    }
    Ok(())
}

fn work(r: &mut Rng) -> Work {
    let k = *r.pick(&[Text::Html, Text::Ascii, Text::Unicode, Text::Control, Text::Any]);
    if r.one_in(2) {
        let n = r.below(4);
        let runs = gen::script_n(r, Some(k), n).into_iter().map(|(t, s)| (t.chars().take(24).collect(), s)).collect();
        Work::Script(runs, *r.pick(&DRVS))
    } else {
        Work::Value(small_doc(r, Some(k)))
    }
}

fn ops(r: &mut Rng) -> Vec<Op> {
    let palette: Vec<S> = (0..3).map(|_| gen::style(r)).collect();
    let mut last = DEF;
    (0..r.range(2, 14))
        .map(|_| {
            let (i, j) = (r.below(6), r.below(6));
            match r.below(20) {
                0 | 1 => Op::New(*r.pick(&MADE)),
                2..=7 => Op::Put(i, work(r), *r.pick(&ROUTES)),
                8 | 9 => {
                    let runs = (0..r.range(1, 5))
                        .map(|_| {
                            last = gen::next_style(r, last, &palette);
                            let k = *r.pick(&[Text::Html, Text::Unicode, Text::Ascii]);
                            (gen::small_text(r, k), last)
                        })
                        .collect();
                    Op::Look(i, runs, r.one_in(2))
                }
                10..=12 => Op::Clone(i),
                13 => Op::CloneFrom(i, j),
                14 => Op::Swap(i, j),
                15 => Op::Take(i),
                16 => Op::Debug(i),
                17 if r.one_in(3) => Op::Flush(i),
                // these want somebody to be left
                18 => Op::Drop(i),
                _ => Op::Finish(i),
            }
        })
        .flat_map(|o| match o {
            Op::Drop(_) | Op::Finish(_) => vec![Op::New(Made::New), o],
            o => vec![o],
        })
        .collect()
}

fn smaller(op: &Op) -> Vec<Op> {
    match op {
        Op::Put(i, Work::Value(d), r) => d.smaller().into_iter().map(|d| Op::Put(*i, Work::Value(d), *r)).collect(),
        Op::Put(i, Work::Script(runs, d), r) => (0..runs.len())
            .map(|k| {
                let mut runs = runs.clone();
                runs.remove(k);
                Op::Put(*i, Work::Script(runs, *d), *r)
            })
            .collect(),
        _ => vec![],
    }
}

pub fn run(mut m: Mon) -> ! {
    let mut r = m.rng(1);
    let mut c = Count::default();
    // cloned, taken, dropped, debugged and finished in each style
    let text = |i: usize, t: &str| Work::Script(vec![(t.to_string(), S::nth(i))], Drv::Str);
    for t in TS {
        for i in 0..N_STYLES {
            let j = [i, 0, (i * 7 + 3) % N_STYLES][i % 3];
            let put = |w: usize, s: usize, t: &str| Op::Put(w, text(s, t), ROUTES[i % 4]);
            for h in [
                vec![put(0, i, "a<"), Op::Clone(0), put(0, j, "b"), put(1, i, "c"), Op::Clone(1), Op::Finish(0), put(1, 0, "d"), Op::Finish(0), Op::Drop(0)],
                vec![put(0, i, "a"), Op::Take(0), put(0, i, "b"), put(1, j, "c"), Op::Swap(0, 1), put(0, i, "d"), Op::Debug(1), Op::Finish(1), Op::Finish(0)],
                vec![Op::New(MADE[i % 3]), put(1, i, "é"), Op::CloneFrom(0, 1), put(0, i, "b"), put(1, j, "c"), Op::Look(0, vec![("<x".into(), S::nth(j)), (String::new(), DEF), ("é>".into(), S::nth(i))], i % 2 == 0), Op::Drop(1), Op::Finish(0)],
                vec![put(0, i, "a"), Op::Flush(0), Op::Debug(0), put(0, i, "b"), Op::New(MADE[(i + 1) % 3]), put(1, i, ""), Op::Clone(1), Op::Finish(1), Op::Drop(1)],
            ] {
                m.case(format!("{t:?}{h:?}").as_bytes(), true);
                if let Err(e) = checked(|| history(t, &h, &mut c)) {
                    m.violation(format!("{t:?}: {e}"), format!("{h:?}"));
                    m.finish();
                }
            }
        }
    }
    m.exhaustive("four histories of clones, takes, swaps, looks, drops and finishes in each of the 867 styles of all five writers");
    for i in 0..m.n(25_000, 1_500_000) {
        let t = TS[i % 5];
        let h = ops(&mut r);
        m.case(format!("{t:?}{h:?}").as_bytes(), h.len() > 2);
        if checked(|| history(t, &h, &mut c)).is_err() {
            let mut cc = Count::default();
            let mut min = crate::mon::shrink(h, |h| checked(|| history(t, h, &mut cc)).is_err());
            'again: loop {
                for k in 0..min.len() {
                    for s in smaller(&min[k]) {
                        let mut h = min.clone();
                        h[k] = s;
                        if checked(|| history(t, &h, &mut cc)).is_err() {
                            min = h;
                            continue 'again;
                        }
                    }
                }
                break;
            }
            m.violation(format!("{t:?}: {}", checked(|| history(t, &min, &mut cc)).err().unwrap_or_default()), format!("{min:?}"));
            m.finish();
        }
        m.sample(|| format!("{t:?}: {h:?}"));
        if i % 256 == 0 && m.out_of_time() {
            break;
        }
    }
    m.count("operations on writers", c.ops);
    m.count("looks at the sink during a rendering", c.looks);
    m.count("writers cloned", c.clones);
    m.count("sinks handed back", c.handed_back);
    m.count("writers dropped unfinished", c.dropped);
    m.count("characters found in the sink after a write", c.chars);
    m.count("writers compared with one that was alone", c.alone);
    for k in ["operations on writers", "looks at the sink during a rendering", "writers cloned", "sinks handed back", "writers dropped unfinished", "writers compared with one that was alone"] {
        m.require(k);
    }
    m.finish()
}
