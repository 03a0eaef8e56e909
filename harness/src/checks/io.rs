//! C13, C14: IO writers over sinks that accept parts of buffers and interrupt.
use crate::doc::{self, Doc};
use crate::drive::{self, Drv, DRVS};
use crate::gen::{self, Runs, Text};
use crate::model::{DEF, S};
use crate::mon::{checked, Mon};
use crate::rng::Rng;
use crate::sink::{Act, IoSink, StyledIo, E};
use crate::vt;
use std::io as sio;
use stylish::io::Write as _;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum W {
    Ansi,
    Plain,
    /// a user's own writer relying on the provided methods
    User,
}
pub const WS: [W; 3] = [W::Ansi, W::Plain, W::User];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Route {
    Direct,
    Ref,
    Dyn,
    ByRef,
}
pub const ROUTES: [Route; 4] = [Route::Direct, Route::Ref, Route::Dyn, Route::ByRef];

#[derive(Clone, Debug)]
pub enum Work {
    Script(Runs, Drv),
    Value(Doc),
}
impl Work {
    pub fn key(&self) -> Vec<u8> {
        match self {
            Work::Script(r, d) => [gen::key(r), vec![*d as u8]].concat(),
            Work::Value(d) => doc::key(d),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Work::Script(r, d) => format!("by {d:?}: {}", gen::show(r)),
            Work::Value(d) => format!("{d:?}"),
        }
    }
}

fn push<T: stylish::io::Write>(w: &mut T, work: &Work, route: Route) -> sio::Result<()> {
    fn go(w: &mut dyn stylish::io::Write, work: &Work) -> sio::Result<()> {
        match work {
            Work::Script(r, d) => drive::feed_io(w, r, *d),
            Work::Value(d) => w.write_fmt(stylish::format_args!("{:s}", d)),
        }
    }
    match route {
        Route::Direct => match work {
            Work::Value(d) => w.write_fmt(stylish::format_args!("{:s}", d)),
            Work::Script(r, Drv::Str) => r.iter().try_for_each(|(t, s)| w.write_all(t.as_bytes(), s.lib())),
            _ => go(w, work),
        },
        Route::Ref => go(&mut &mut *w, work),
        Route::Dyn => {
            let mut d: &mut dyn stylish::io::Write = w;
            match work {
                Work::Value(v) => stylish::write!(d, "{:s}", v),
                _ => go(&mut d, work),
            }
        }
        Route::ByRef => go(w.by_ref(), work),
    }
}

/// Run the work over the sink, finishing included. The writer is left to drop.
pub fn perform(w: W, sink: &IoSink, work: &Work, route: Route) -> sio::Result<()> {
    match w {
        W::Ansi => {
            let mut a = stylish::io::Ansi::new(sink.clone());
            push(&mut a, work, route)?;
            a.finish()?;
        }
        W::Plain => {
            let mut p = stylish::io::Plain::new(sink.clone());
            push(&mut p, work, route)?;
            p.into_inner();
        }
        W::User => {
            let mut u = UserOver(sink.clone());
            push(&mut u, work, route)?;
        }
    }
    Ok(())
}

/// a user's writer that marks each accepted part with its style
struct UserOver(IoSink);
impl stylish::io::Write for UserOver {
    fn write(&mut self, b: &[u8], _style: stylish::Style) -> sio::Result<usize> {
        sio::Write::write(&mut self.0, b)
    }
    fn flush(&mut self) -> sio::Result<()> {
        sio::Write::flush(&mut self.0)
    }
}

fn baseline(w: W, work: &Work, route: Route) -> Result<(Vec<u8>, Vec<usize>), String> {
    let sink = IoSink::new().logged();
    perform(w, &sink, work, route).map_err(|e| format!("writing into a faultless sink failed: {e}"))?;
    let lens = sink.0.borrow().log.as_ref().unwrap().iter().map(|l| l.0.len()).collect();
    let bytes = sink.bytes();
    Ok((bytes, lens))
}

fn against(w: W, work: &Work, route: Route, sink: IoSink, base: &[u8]) -> Result<u64, String> {
    match perform(w, &sink, work, route) {
        Ok(()) => {}
        Err(e) => return Err(format!("failed with {e:?} ({:?})", e.kind())),
    }
    match crate::model::first_diff(&sink.bytes(), base) {
        None => Ok(sink.0.borrow().faults as u64),
        Some(d) => Err(format!("sink received other bytes: {d}; got {:?}", String::from_utf8_lossy(&sink.bytes()))),
    }
}

pub fn work(r: &mut Rng, text: Option<Text>) -> Work {
    if r.one_in(2) {
        let n = r.below(8);
        let mut runs = gen::script_n(r, text, n);
        for (t, _) in &mut runs {
            if t.len() > 400 {
                *t = t.chars().take(60).collect();
            }
        }
        Work::Script(runs, *r.pick(&DRVS))
    } else {
        let (depth, mut b) = (r.range(1, 4), r.range(1, 14));
        Work::Value(doc::gen_d(r, text, depth, &mut b))
    }
}

pub fn c13(mut m: Mon) -> ! {
    let mut r = m.rng(1);
    // every single fault position, and every pair of them, in small works
    'outer: for i in 0..m.n(2_500, 120_000) {
        let wk = work(&mut r, if i % 3 == 0 { Some(Text::Raw) } else { None });
        let (w, route) = (WS[i % 3], ROUTES[i / 3 % 4]);
        let mut verdict = Ok(());
        let res = checked(|| {
            let (base, lens) = baseline(w, &wk, route)?;
            m.count("fault-free sink calls", lens.len() as u64);
            m.max("most sink calls in one work", lens.len() as u64);
            let lens = &lens[..lens.len().min(150)];
            for k in 0..lens.len() {
                let mut acts = vec![Act::Interrupted, Act::Short(1)];
                if lens[k] > 2 {
                    acts.push(Act::Short(lens[k] - 1));
                    acts.push(Act::Short(lens[k] / 2));
                }
                for a in acts {
                    let sink = IoSink::with(move |n, _| if n == k { a } else { Act::All });
                    let f = against(w, &wk, route, sink, &base).map_err(|e| format!("{a:?} at sink call {k}: {e}"));
                    m.case(&[wk.key(), vec![k as u8, f.is_ok() as u8]].concat(), true);
                    m.count("faults injected", f?);
                }
                // and right again
                let rep = 1 + k % 4;
                let sink = IoSink::with(move |n, _| if n >= k && n < k + rep { if n % 2 == 0 { Act::Interrupted } else { Act::Short(1) } } else { Act::All });
                m.count("faults injected", against(w, &wk, route, sink, &base).map_err(|e| format!("{rep} faults from sink call {k}: {e}"))?);
                m.case(&[wk.key(), vec![k as u8, 99]].concat(), true);
            }
            if lens.len() <= 14 {
                for k in 0..lens.len() + 1 {
                    for l in k + 1..lens.len() + 2 {
                        for acts in [(Act::Interrupted, Act::Short(1)), (Act::Short(1), Act::Interrupted), (Act::Short(1), Act::Short(2)), (Act::Interrupted, Act::Interrupted)] {
                            let sink = IoSink::with(move |n, _| if n == k { acts.0 } else if n == l { acts.1 } else { Act::All });
                            m.count("faults injected", against(w, &wk, route, sink, &base).map_err(|e| format!("{acts:?} at sink calls {k}, {l}: {e}"))?);
                            m.case(&[wk.key(), vec![k as u8, l as u8]].concat(), true);
                        }
                    }
                }
                m.count("works with every pair of faults", 1);
            }
            Ok(())
        });
        if let Err(e) = res {
            verdict = Err(e);
        }
        if let Err(e) = verdict {
            let e = format!("{w:?} through {route:?}: {e}");
            m.violation(e, wk.show());
            break 'outer;
        }
        m.sample(|| format!("{w:?} through {route:?}: {}", wk.show()));
        if i % 64 == 0 && m.out_of_time() {
            break;
        }
    }
    // dense faults
    for i in 0..m.n(40_000, 2_000_000) {
        if m.failed() {
            break;
        }
        let wk = if i % 10 == 0 {
            let t = gen::kind(&mut r);
            Work::Script(gen::script(&mut r, Some(t)), *r.pick(&DRVS))
        } else {
            work(&mut r, None)
        };
        let (w, route) = (*r.pick(&WS), *r.pick(&ROUTES));
        let mode = r.below(6);
        let mut fr = r.fork();
        // as many interruptions in a row as there may be
        let patience = if r.one_in(3) { gen::number(&mut r, 6_000) } else { 1 << r.below(13) } + r.below(3);
        let res = checked(|| {
            let (base, lens) = baseline(w, &wk, route)?;
            let from = fr.below(lens.len().max(1));
            if mode == 5 {
                m.max("most interruptions in a row", patience as u64);
            }
            let sink = IoSink::with(move |n, b| match mode {
                0 => Act::Short(1),
                1 => if n % 2 == 0 { Act::Interrupted } else { Act::Short(1) },
                2 => if fr.one_in(3) { Act::Interrupted } else { Act::All },
                3 => match fr.below(3) {
                    0 => Act::Interrupted,
                    1 => Act::Short(1 + fr.below(b.len())),
                    _ => Act::All,
                },
                4 => if n % 50 < 49 { Act::Interrupted } else { Act::Short(3) },
                _ => if n >= from && n < from + patience { Act::Interrupted } else { Act::All },
            });
            let f = against(w, &wk, route, sink, &base)?;
            m.count("faults injected", f);
            Ok(())
        });
        m.case(&[wk.key(), vec![w as u8, mode as u8]].concat(), true);
        if let Err(e) = res {
            m.violation(format!("{w:?} through {route:?}, dense faults {mode}: {e}"), wk.show());
        }
        if i % 256 == 0 && m.out_of_time() {
            break;
        }
    }
    m.require("faults injected");
    m.require("works with every pair of faults");
    m.finish()
}

/// characters that cannot be part of an escape sequence
const LETTERS: &[u8] = b"ABCDEFGHabcdefgh<&>\xc3\xa9 ";
fn is_seq_byte(b: u8) -> bool {
    matches!(b, 0x1b | b'[' | b'm' | b';' | b'0'..=b'9')
}

fn one_write(w: &mut dyn stylish::io::Write, ansi: bool, sink: &IoSink, buf: &[u8], s: S, m: &mut Counts) -> Result<bool, String> {
    let before = sink.0.borrow().buf.len();
    let from = sink.0.borrow().log.as_ref().unwrap().len();
    let r = w.write(buf, s.lib());
    let st = sink.0.borrow();
    let log = &st.log.as_ref().unwrap()[from..];
    let delta = &st.buf[before..];
    m.writes += 1;
    let attempts: Vec<_> = log.iter().filter(|(b, _)| b.iter().any(|x| !is_seq_byte(*x))).collect();
    if attempts.len() > 1 {
        return Err(format!("{} attempts to write text to the sink in one write", attempts.len()));
    }
    let text = delta.iter().position(|b| !is_seq_byte(*b)).map_or(&delta[delta.len()..], |i| &delta[i..]);
    if !ansi && delta.len() != text.len() {
        return Err("sink received bytes that are not text".into());
    }
    let mut seq_failed = false;
    for (b, a) in log {
        let is_text = b.iter().any(|x| !is_seq_byte(*x));
        if !is_text && !b.is_empty() && matches!(a, Act::Fail(_) | Act::Zero) {
            seq_failed = true;
        }
    }
    match r {
        Ok(n) => {
            m.ok += 1;
            if n < buf.len() {
                m.short += 1;
            }
            if n > buf.len() {
                return Err(format!("reported {n} of {} bytes", buf.len()));
            }
            if text != &buf[..n] {
                return Err(format!(
                    "reported {n} of {} bytes, sink accepted {:?} of {:?}",
                    buf.len(),
                    String::from_utf8_lossy(text),
                    String::from_utf8_lossy(buf)
                ));
            }
            if let Some((_, Act::Fail(e))) = attempts.first() {
                return Err(format!("sink failed with {e:?}, write returned Ok({n})"));
            }
            if seq_failed {
                return Err("style change failed, write returned Ok".into());
            }
        }
        Err(e) => {
            m.errors += 1;
            if !text.is_empty() {
                return Err(format!("failed with {e:?} but sink accepted {:?}", String::from_utf8_lossy(text)));
            }
            let injected = log.iter().rev().find_map(|(_, a)| match a {
                Act::Fail(x) => Some(*x),
                _ => None,
            });
            let last = log.last().map(|l| l.1);
            match last {
                Some(Act::Fail(x)) if x.is(&e) => {}
                Some(Act::Zero) if e.kind() == sio::ErrorKind::WriteZero => {}
                Some(Act::Interrupted) if e.kind() == sio::ErrorKind::Interrupted => {}
                _ => return Err(format!("failed with {e:?}, injected was {injected:?}, last sink call {last:?}")),
            }
        }
    }
    Ok(seq_failed)
}

#[derive(Default)]
struct Counts {
    writes: u64,
    ok: u64,
    short: u64,
    errors: u64,
    alls: u64,
    flushes: u64,
}

fn buf(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(10) {
        0 => 0,
        1..=3 => 1,
        9 if r.one_in(60) => gen::giant(r),
        9 => r.range(10, 300),
        _ => r.range(2, 9),
    };
    (0..n).map(|_| *r.pick(LETTERS)).collect()
}

/// A history of single writes and flushes on one writer
fn history(w: W, route: Route, seed: u64, len: usize, c: &mut Counts) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let mut fr = r.fork();
    let hard = r.below(4);
    let faulty = r.range(2, 6);
    let sink = IoSink::with(move |_, b| {
        if !fr.one_in(faulty) {
            return Act::All;
        }
        let text = b.iter().any(|x| !is_seq_byte(*x));
        match fr.below(5) {
            0 | 1 => Act::Short(1 + fr.below(b.len())),
            2 => Act::Interrupted,
            // a failed style change ends the history, so keep it rare
            3 if hard > 0 && (text || fr.one_in(8)) => Act::Fail(E::any(&mut fr)),
            4 if hard > 1 && (text || fr.one_in(8)) => Act::Zero,
            _ => Act::Interrupted,
        }
    })
    .logged();
    let palette: Vec<S> = (0..3).map(|_| gen::style(&mut r)).collect();
    let mut style = DEF;
    let mut ansi;
    let mut plain;
    let mut user;
    let wr: &mut dyn stylish::io::Write = match w {
        W::Ansi => {
            ansi = stylish::io::Ansi::new(sink.clone());
            &mut ansi
        }
        W::Plain => {
            plain = stylish::io::Plain::new(sink.clone());
            &mut plain
        }
        W::User => {
            user = UserOver(sink.clone());
            &mut user
        }
    };
    let mut through = wr;
    let mut byref;
    let wr: &mut dyn stylish::io::Write = match route {
        Route::Direct | Route::Dyn => through,
        Route::Ref => &mut through,
        Route::ByRef => {
            byref = stylish::io::Write::by_ref(&mut through);
            &mut byref
        }
    };
    let mut shown: Vec<(Vec<u8>, S)> = Vec::new();
    for _ in 0..len {
        style = gen::next_style(&mut r, style, &palette);
        if r.one_in(6) {
            let err = r.one_in(2).then(|| E::any_or_interrupted(&mut r));
            let (n, bytes) = (sink.0.borrow().flushes, sink.0.borrow().buf.len());
            sink.0.borrow_mut().flush_error = err;
            let res = wr.flush();
            c.flushes += 1;
            if sink.0.borrow().flushes != n + 1 {
                return Err(format!("flush reached the sink {} times", sink.0.borrow().flushes - n));
            }
            if sink.0.borrow().buf.len() != bytes {
                return Err("flush wrote something".into());
            }
            match (&res, err) {
                (Ok(()), None) => {}
                (Err(e), Some(x)) if x.is(e) => {}
                _ => return Err(format!("flush returned {res:?}, the sink {err:?}")),
            }
            continue;
        }
        let b = buf(&mut r);
        let before = sink.0.borrow().buf.len();
        let stop = one_write(wr, w == W::Ansi, &sink, &b, style, c)?;
        let st = sink.0.borrow();
        let delta = &st.buf[before..];
        let text = delta.iter().position(|b| !is_seq_byte(*b)).map_or(&delta[delta.len()..], |i| &delta[i..]);
        shown.push((text.to_vec(), style));
        if stop {
            return Ok(());
        }
    }
    if w == W::Ansi {
        // the accepted parts are shown in the requested styles
        vt::lockstep(&sink.bytes(), &shown)?;
    }
    Ok(())
}

/// The provided write_all on a user's writer, step by step
fn provided_all(seed: u64, route: Route, c: &mut Counts) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let mut b: Vec<u8> = (0..r.below(12)).map(|_| r.u64() as u8).collect();
    if r.one_in(300) {
        b = b.repeat(1 + gen::giant(&mut r) / 6);
    }
    let s = gen::style(&mut r);
    let plan: Vec<Act> = (0..60)
        .map(|_| match r.below(6) {
            0 => Act::All,
            1 | 2 => Act::Short(r.range(1, 4)),
            3 => Act::Interrupted,
            4 => if r.one_in(2) { Act::Interrupted } else { Act::Short(1) },
            _ => match r.below(6) {
                0 => Act::Zero,
                1 => Act::Fail(E::any(&mut r)),
                _ => Act::Short(1),
            },
        })
        .collect();
    let p = plan.clone();
    let mut w = StyledIo::with(move |n, _| p.get(n).copied().unwrap_or(Act::All));
    let h = w.handle();
    let res = match route {
        Route::Direct => w.write_all(&b, s.lib()),
        Route::Ref => {
            fn g(mut w: impl stylish::io::Write, b: &[u8], s: stylish::Style) -> sio::Result<()> {
                w.write_all(b, s)
            }
            g(&mut w, &b, s.lib())
        }
        Route::Dyn => {
            let d: &mut dyn stylish::io::Write = &mut w;
            d.write_all(&b, s.lib())
        }
        Route::ByRef => w.by_ref().write_all(&b, s.lib()),
    };
    c.alls += 1;
    // what should have happened
    let mut left = b.len();
    let mut calls = 0;
    let mut outcome: Option<Act> = None;
    while left > 0 && outcome.is_none() {
        match plan.get(calls).copied().unwrap_or(Act::All) {
            Act::All => left = 0,
            Act::Short(k) => left -= k.clamp(1, left),
            Act::Interrupted => {}
            a => outcome = Some(a),
        }
        calls += 1;
    }
    let st = h.borrow();
    if let Some(z) = st.log.iter().find(|l| l.0 == 0) {
        return Err(format!("wrote an empty buffer {z:?} for {b:?}"));
    }
    if let Some(x) = st.log.iter().find(|l| l.1 != s) {
        return Err(format!("wrote in style {:?} instead of {s:?}", x.1));
    }
    if st.io.buf != b[..b.len() - left] {
        return Err(format!("accepted {:?} of {b:?}, want the first {}", st.io.buf, b.len() - left));
    }
    if st.io.calls_after_hard > 0 {
        return Err("went on writing after the failure".into());
    }
    if st.log.len() != calls {
        return Err(format!("{} writes, want {calls}", st.log.len()));
    }
    match (outcome, &res) {
        (None, Ok(())) => Ok(()),
        (Some(Act::Zero), Err(e)) if e.kind() == sio::ErrorKind::WriteZero => Ok(()),
        (Some(Act::Fail(x)), Err(e)) if x.is(e) => Ok(()),
        _ => Err(format!("returned {res:?} where the writer's outcome was {outcome:?}")),
    }
}

/// write_all of the library's writers under the same plans
fn all_of(w: W, seed: u64, c: &mut Counts) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let b = buf(&mut r);
    let (s0, s) = (gen::style(&mut r), gen::style(&mut r));
    let at = r.below(14);
    let mut fr = r.fork();
    let terminal = if r.one_in(3) { Act::Zero } else { Act::Fail(E::any(&mut r)) };
    let sink = IoSink::with(move |n, b| {
        if n == at {
            terminal
        } else {
            match fr.below(4) {
                0 => Act::Interrupted,
                1 => Act::Short(1 + fr.below(b.len())),
                _ => Act::All,
            }
        }
    })
    .logged();
    let res = match w {
        W::Ansi => {
            let mut a = stylish::io::Ansi::new(sink.clone());
            a.write_all(b"x", s0.lib()).and_then(|()| a.write_all(&b, s.lib()))
        }
        W::Plain => {
            let mut p = stylish::io::Plain::new(sink.clone());
            p.write_all(b"x", s0.lib()).and_then(|()| p.write_all(&b, s.lib()))
        }
        W::User => {
            let mut p = UserOver(sink.clone());
            p.write_all(b"x", s0.lib()).and_then(|()| p.write_all(&b, s.lib()))
        }
    };
    c.alls += 1;
    let st = sink.0.borrow();
    if st.calls_after_hard > 0 {
        return Err("went on writing after the failure".into());
    }
    if st.log.as_ref().unwrap().iter().any(|l| l.0.is_empty()) {
        return Err("wrote an empty buffer".into());
    }
    match (&res, st.hard, terminal) {
        (Ok(()), 0, _) => {
            let mut text: Vec<u8> = st.buf.clone();
            text.retain(|b| !is_seq_byte(*b));
            if text != [b"x".as_slice(), &b].concat() {
                return Err(format!("wrote {:?} for {:?}", String::from_utf8_lossy(&text), String::from_utf8_lossy(&b)));
            }
            Ok(())
        }
        (Err(e), 1, Act::Zero) if e.kind() == sio::ErrorKind::WriteZero => Ok(()),
        (Err(e), 1, Act::Fail(x)) if x.is(e) => Ok(()),
        _ => Err(format!("returned {res:?} with {} terminal faults ({terminal:?}) injected", st.hard)),
    }
}

pub fn c14(mut m: Mon) -> ! {
    let mut r = m.rng(1);
    let mut c = Counts::default();
    // one write in every state, every outcome of the sink at every one of its calls
    let styles: Vec<S> = vec![DEF, S { fg: 1, ..DEF }, S { fg: 1, bg: 2, int: 1 }, S { int: 2, ..DEF }, S { fg: 9, bg: 11, int: 2 }];
    for w in WS {
        for &s0 in &styles {
            for &s in &styles {
                for len in [0usize, 1, 2, 7] {
                    for at in 0..12 {
                        for a in [Act::Interrupted, Act::Short(1), Act::Short(3), Act::Zero, Act::Fail(E::Os(5)), Act::Fail(E::Custom(sio::ErrorKind::WouldBlock, 7))] {
                            let b = &b"ABCDEFGH"[..len];
                            let res = checked(|| {
                                let sink = IoSink::with(move |n, _| if n == at { a } else { Act::All }).logged();
                                let mut shown = Vec::new();
                                let mut ansi = stylish::io::Ansi::new(sink.clone());
                                let mut plain = stylish::io::Plain::new(sink.clone());
                                let mut user = UserOver(sink.clone());
                                let wr: &mut dyn stylish::io::Write = match w {
                                    W::Ansi => &mut ansi,
                                    W::Plain => &mut plain,
                                    W::User => &mut user,
                                };
                                for (b, s) in [(&b"xy"[..], s0), (b, s), (&b"z"[..], s)] {
                                    let at = sink.0.borrow().buf.len();
                                    let stop = one_write(wr, w == W::Ansi, &sink, b, s, &mut c)?;
                                    let text: Vec<u8> = sink.bytes()[at..].iter().copied().skip_while(|b| is_seq_byte(*b)).collect();
                                    shown.push((text, s));
                                    if stop {
                                        return Ok(());
                                    }
                                }
                                if w == W::Ansi {
                                    vt::lockstep(&sink.bytes(), &shown)?;
                                }
                                Ok(())
                            });
                            m.case(format!("{w:?}{s0:?}{s:?}{len}{at}{a:?}").as_bytes(), true);
                            if let Err(e) = res {
                                m.violation(e, format!("{w:?}: write \"xy\" in {s0:?}, then {len} bytes in {s:?}, then \"z\"; {a:?} at sink call {at}"));
                                m.finish();
                            }
                        }
                    }
                }
            }
        }
    }
    m.exhaustive("three writes over 25 pairs of styles and 4 lengths with each of 6 outcomes at each of the first 12 sink calls");
    for i in 0..m.n(80_000, 5_000_000) {
        let seed = r.u64();
        let w = WS[i % 3];
        let route = ROUTES[i / 3 % 4];
        let len = r.range(1, 20);
        m.case(&seed.to_le_bytes(), true);
        let res = match i % 8 {
            0 | 1 => checked(|| provided_all(seed, route, &mut c)).map_err(|e| format!("provided write_all through {route:?}: {e}")),
            2 | 3 => checked(|| all_of(w, seed, &mut c)).map_err(|e| format!("write_all of {w:?}: {e}")),
            _ => {
                let res = checked(|| history(w, route, seed, len, &mut c));
                match res {
                    Err(e) => {
                        let short = (1..=len).find(|l| checked(|| history(w, route, seed, *l, &mut c)).is_err()).unwrap_or(len);
                        Err(format!("{w:?} through {route:?}, history of {short} calls: {e}"))
                    }
                    ok => ok,
                }
            }
        };
        if let Err(e) = res {
            m.violation(e, format!("case seed {seed}"));
            break;
        }
        m.sample(|| format!("case seed {seed}, {w:?} through {route:?}, up to {len} calls"));
        if i % 1024 == 0 && m.out_of_time() {
            break;
        }
    }
    m.count("single writes observed", c.writes);
    m.count("writes that succeeded", c.ok);
    m.count("writes that were short", c.short);
    m.count("writes that failed", c.errors);
    m.count("write_all calls observed", c.alls);
    m.count("flushes observed", c.flushes);
    for k in ["single writes observed", "writes that were short", "writes that failed", "write_all calls observed", "flushes observed"] {
        m.require(k);
    }
    m.finish()
}
