//! C21: writers are isolated from each other, thread-safe and free of UB.
//! Run natively, and again under ThreadSanitizer, AddressSanitizer and Miri.
use crate::doc::{self, Doc};
use crate::drive::{self, Back, Drv, BACKS, DRVS};
use crate::gen::{self, Runs};
use crate::mon::{checked, guard, Mon};
use crate::rng::{hash_bytes, Rng};
use stylish::Write as _;
use std::collections::HashSet;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier};

enum Wr {
    Ansi(stylish::Ansi<String>),
    Html(stylish::Html<String>),
    Plain(stylish::Plain<String>),
    IoAnsi(stylish::io::Ansi<Vec<u8>>),
    IoPlain(stylish::io::Plain<Vec<u8>>),
    String(stylish::String),
}
const KINDS: usize = 6;

impl Wr {
    fn new(k: usize) -> Wr {
        match k {
            0 => Wr::Ansi(stylish::Ansi::new(String::new())),
            1 => Wr::Html(stylish::Html::new(String::new())),
            2 => Wr::Plain(stylish::Plain::new(String::new())),
            3 => Wr::IoAnsi(stylish::io::Ansi::new(Vec::new())),
            4 => Wr::IoPlain(stylish::io::Plain::new(Vec::new())),
            _ => Wr::String(stylish::String::new()),
        }
    }
    fn step(&mut self, run: &[(String, crate::model::S)], drv: Drv) -> Result<(), String> {
        match self {
            Wr::Ansi(w) => drive::feed(w, run, drv).map_err(|_| "write failed".into()),
            Wr::Html(w) => drive::feed(w, run, drv).map_err(|_| "write failed".into()),
            Wr::Plain(w) => drive::feed(w, run, drv).map_err(|_| "write failed".into()),
            Wr::String(w) => drive::feed(w, run, drv).map_err(|_| "write failed".into()),
            Wr::IoAnsi(w) => drive::feed_io(w, run, drv).map_err(|e| e.to_string()),
            Wr::IoPlain(w) => drive::feed_io(w, run, drv).map_err(|e| e.to_string()),
        }
    }
    fn end(self) -> Result<Vec<u8>, String> {
        Ok(match self {
            Wr::Ansi(w) => w.finish().map_err(|_| "finish failed")?.into_bytes(),
            Wr::Html(w) => w.finish().map_err(|_| "finish failed")?.into_bytes(),
            Wr::Plain(w) => w.into_inner().into_bytes(),
            Wr::IoAnsi(w) => w.finish().map_err(|e| e.to_string())?,
            Wr::IoPlain(w) => w.into_inner(),
            Wr::String(s) => drive::render_value(Back::Ansi, &s)?,
        })
    }
    fn fork(&self) -> Wr {
        match self {
            Wr::Ansi(w) => Wr::Ansi(w.clone()),
            Wr::Html(w) => Wr::Html(w.clone()),
            Wr::Plain(w) => Wr::Plain(w.clone()),
            Wr::IoAnsi(w) => Wr::IoAnsi(w.clone()),
            Wr::IoPlain(w) => Wr::IoPlain(w.clone()),
            Wr::String(w) => Wr::String(w.clone()),
        }
    }
}

/// what a writer gives alone, checked against the reference model rather than
/// against another run of the code under test
fn right(kind: usize, out: &[u8], runs: &Runs) -> Result<(), String> {
    let b = [Back::Ansi, Back::Html, Back::Plain, Back::IoAnsi, Back::IoPlain, Back::Ansi][kind];
    drive::verify_style(b, out, runs)
}

fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).chars().take(300).collect()
}

/// Every now and then, a write that is as long as a buffer, a page, or more
fn long_one(r: &mut Rng, runs: &mut Runs) {
    if r.one_in(25) && !runs.is_empty() && std::env::var("SVH_MODE").as_deref() != Ok("miri") {
        let n = *r.pick(&[127, 128, 255, 256, 300, 512, 1000, 1024, 1025, 2048, 4000, 4096, 4097, 5000, 8192, 8200, 9000, 16384, 20000, 65536, 70000]);
        let k = gen::kind(r);
        let i = r.below(runs.len());
        runs[i].0 = gen::text_n(r, k, n);
    }
}

/// Any interleaving of several writers on one thread
fn interleaved(seed: u64, orders: &mut HashSet<u64>) -> Result<(u64, String), String> {
    let mut r = Rng::new(seed);
    let n = r.range(2, 6);
    let works: Vec<(usize, Runs, Drv)> = (0..n)
        .map(|_| {
            let k = r.range(1, 8);
            let mut runs: Runs = gen::script_n(&mut r, None, k).into_iter().map(|(t, s)| (t.chars().take(12).collect(), s)).collect();
            long_one(&mut r, &mut runs);
            (r.below(KINDS), runs, *r.pick(&DRVS))
        })
        .collect();
    // alone
    let mut alone = Vec::new();
    for (k, runs, drv) in &works {
        let mut w = Wr::new(*k);
        for i in 0..runs.len() {
            w.step(&runs[i..=i], *drv)?;
        }
        let out = w.end()?;
        right(*k, &out, runs)?;
        alone.push(out);
    }
    // interleaved, with clones that go another way on the side
    let mut ws: Vec<Option<Wr>> = works.iter().map(|w| Some(Wr::new(w.0))).collect();
    let mut at = vec![0; n];
    let mut outs: Vec<Option<Vec<u8>>> = vec![None; n];
    let mut side: Vec<Wr> = Vec::new();
    let mut order = Vec::new();
    let mut steps = 0;
    while outs.iter().any(|o| o.is_none()) {
        let i = r.below(n);
        if outs[i].is_some() {
            continue;
        }
        order.push(i as u8);
        steps += 1;
        let (_, runs, drv) = &works[i];
        if at[i] == runs.len() {
            outs[i] = Some(ws[i].take().unwrap().end()?);
            continue;
        }
        ws[i].as_mut().unwrap().step(&runs[at[i]..=at[i]], *drv)?;
        at[i] += 1;
        if r.one_in(6) && side.len() < 4 {
            side.push(ws[i].as_ref().unwrap().fork());
        }
        if !side.is_empty() && r.one_in(3) {
            let k = r.below(side.len());
            let t = gen::small_text(&mut r, gen::Text::Ascii);
            let s = gen::style(&mut r);
            side[k].step(&[(t, s)], Drv::Str)?;
            if r.one_in(4) {
                side.swap_remove(k).end()?;
            }
        }
    }
    orders.insert(hash_bytes(n as u64, &order));
    for i in 0..n {
        if outs[i].as_ref() != Some(&alone[i]) {
            return Err(format!(
                "writer {i} of {works:?} gives {:?} when interleaved as {order:?}, and {:?} alone",
                show(outs[i].as_ref().unwrap()),
                show(&alone[i])
            ));
        }
    }
    Ok((steps, format!("{n} writers, order {order:?}")))
}

struct Shared {
    string: stylish::String,
    runs: Runs,
    /// what each backend renders it as
    want: Vec<Vec<u8>>,
}

/// Threads render one shared styled string and documents of their own, and hand
/// writers to each other in the middle of their work.
fn threads(seed: u64, n: usize, rounds: usize, orders: &mut HashSet<u64>) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    let k = r.range(1, 10);
    let mut runs: Runs = gen::script_n(&mut r, None, k).into_iter().map(|(t, s)| (t.chars().take(30).collect(), s)).collect();
    long_one(&mut r, &mut runs);
    let string = doc::styled_string(&runs);
    let mut want = Vec::new();
    for b in BACKS {
        let out = drive::render_value(b, &string)?;
        drive::verify_style(b, &out, &runs)?;
        want.push(out);
    }
    let shared = Arc::new(Shared { string, runs, want });
    let barrier = Arc::new(Barrier::new(n));
    let ticket = Arc::new(AtomicUsize::new(0));
    let (tx, rx): (Vec<_>, Vec<_>) = (0..n).map(|_| std::sync::mpsc::channel::<(usize, Wr, Runs, usize)>()).unzip();
    let mut handles = Vec::new();
    for (i, rx) in rx.into_iter().enumerate() {
        let (shared, barrier, ticket) = (shared.clone(), barrier.clone(), ticket.clone());
        let next = tx[(i + 1) % n].clone();
        let mut r = r.fork();
        handles.push(std::thread::spawn(move || -> Result<Vec<(usize, u8)>, String> {
            let mut trace = Vec::new();
            barrier.wait();
            for _ in 0..rounds {
                // the shared string, through every writer
                let b = r.below(5);
                trace.push((ticket.fetch_add(1, Ordering::Relaxed), i as u8));
                let out = drive::render_value(BACKS[b], &shared.string)?;
                if out != shared.want[b] {
                    return Err(format!("{:?} of a shared string gives {:?} on a thread, {:?} alone", BACKS[b], show(&out), show(&shared.want[b])));
                }
                let copy = shared.string.clone();
                // an own document
                let (depth, mut budget) = (3, 10);
                let d: Doc = doc::gen_d(&mut r, Some(gen::Text::Html), depth, &mut budget);
                let b = BACKS[r.below(5)];
                trace.push((ticket.fetch_add(1, Ordering::Relaxed), i as u8));
                let out = drive::render_value(b, &d)?;
                drive::verify_style(b, &out, &d.runs()).map_err(|e| format!("{b:?} of {d:?} on a thread: {e}"))?;
                // start a writer and hand it on
                let kind = r.below(KINDS);
                let k = r.range(1, 5);
                let mut runs: Runs = gen::script_n(&mut r, Some(gen::Text::Html), k).into_iter().map(|(t, s)| (t.chars().take(10).collect(), s)).collect();
                long_one(&mut r, &mut runs);
                let mut w = Wr::new(kind);
                let half = runs.len() / 2;
                w.step(&runs[..half], Drv::Str)?;
                next.send((kind, w, runs, half)).map_err(|_| "gone")?;
                if r.one_in(3) {
                    std::thread::yield_now();
                }
                // finish the one that was handed over
                if let Ok((kind, mut w, runs, half)) = rx.recv_timeout(std::time::Duration::from_secs(400)) {
                    trace.push((ticket.fetch_add(1, Ordering::Relaxed), i as u8));
                    w.step(&runs[half..], Drv::Nested)?;
                    let out = w.end()?;
                    right(kind, &out, &runs).map_err(|e| format!("a writer handed to another thread: {e}; {}", gen::show(&runs)))?;
                } else {
                    return Err("monitor: no writer was handed over".into());
                }
                let out = drive::render_value(Back::Plain, &copy)?;
                if out != shared.want[2] {
                    return Err("a clone made on another thread has changed".into());
                }
            }
            Ok(trace)
        }));
    }
    drop(tx);
    let mut trace = Vec::new();
    let mut first = None;
    for h in handles {
        match h.join() {
            Ok(Ok(t)) => trace.extend(t),
            // a thread that stops early takes its partners with it: keep the first reason
            Ok(Err(e)) => {
                if first.as_ref().map_or(true, |f: &String| f.starts_with("gone") || f.starts_with("monitor")) {
                    first = Some(e);
                }
            }
            Err(_) => first = Some("a thread panicked".into()),
        }
    }
    if let Some(e) = first {
        return Err(e);
    }
    trace.sort();
    orders.insert(hash_bytes(n as u64, &trace.iter().map(|t| t.1).collect::<Vec<_>>()));
    drive::verify_style(Back::Ansi, &drive::render_value(Back::Ansi, &shared.string)?, &shared.runs)?;
    Ok(trace.len() as u64)
}

/// A value that uses other writers in the middle of being formatted
struct Reentrant<'a> {
    outer: &'a Runs,
    inner: &'a [(usize, Runs, Drv)],
    wrong: &'a std::cell::RefCell<Option<String>>,
    done: &'a std::cell::Cell<u64>,
}
impl stylish::Display for Reentrant<'_> {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
        for (i, (t, s)) in self.outer.iter().enumerate() {
            let mut g = f.with(s.lib());
            let (kind, runs, drv) = &self.inner[i % self.inner.len()];
            let half = t.char_indices().nth(t.chars().count() / 2).map_or(0, |x| x.0);
            g.write_str(&t[..half])?;
            let alone = || -> Result<(), String> {
                let mut w = Wr::new(*kind);
                for i in 0..runs.len() {
                    w.step(&runs[i..=i], *drv)?;
                }
                right(*kind, &w.end()?, runs)
            };
            if let Err(e) = alone() {
                self.wrong.borrow_mut().get_or_insert(e);
            }
            self.done.set(self.done.get() + 1);
            g.write_str(&t[half..])?;
        }
        Ok(())
    }
}
fn reentrant(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    let mut script = |max: usize| -> Runs {
        let k = r.range(1, max);
        let mut runs = gen::script_n(&mut r, None, k).into_iter().map(|(t, s)| (t.chars().take(12).collect(), s)).collect();
        long_one(&mut r, &mut runs);
        runs
    };
    let outer = script(6);
    let inner: Vec<Runs> = (0..3).map(|_| script(5)).collect();
    let inner: Vec<_> = inner.into_iter().map(|x| (r.below(KINDS), x, *r.pick(&DRVS))).collect();
    let (wrong, done) = (Default::default(), Default::default());
    let v = Reentrant { outer: &outer, inner: &inner, wrong: &wrong, done: &done };
    for b in BACKS {
        let out = drive::render_value(b, &v)?;
        drive::verify_style(b, &out, &outer).map_err(|e| format!("{b:?} of a value that uses other writers while it is formatted: {e}; {}", gen::show(&outer)))?;
        if let Some(e) = wrong.borrow_mut().take() {
            return Err(format!("a writer used while another one is formatting a value: {e}; {inner:?}"));
        }
    }
    Ok(done.get())
}

/// A single thread doing a bit of everything, small enough for an interpreter
fn everything(seed: u64) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let k = gen::kind(&mut r);
    let (depth, mut b) = (r.range(1, 4), r.range(2, 10));
    let d = doc::gen_d(&mut r, Some(k), depth, &mut b);
    let d = if r.one_in(3) { doc::with_tries(&mut r, &d) } else { d };
    for b in BACKS {
        drive::verify_style(b, &drive::render_value(b, &d)?, &d.runs())?;
    }
    let mut s = stylish::String::new();
    stylish::write!(s, "{:s}{:s}", d, d).map_err(|_| "write failed")?;
    drive::verify_style(Back::Html, &drive::render_value(Back::Html, &s)?, &[d.runs(), d.runs()].concat())?;
    // and with faults
    let at = r.below(6);
    let sink = crate::sink::IoSink::with(move |n, _| if n == at { crate::sink::Act::Fail(crate::sink::E::Os(5)) } else if n % 2 == 0 { crate::sink::Act::Short(1) } else { crate::sink::Act::Interrupted });
    let mut w = stylish::io::Ansi::new(sink);
    let _ = stylish::write!(w, "{:s}", d);
    let _ = stylish::write!(w, "{:s}", d);
    let _ = w.finish();
    let mut w = stylish::Html::new(crate::sink::FmtSink::failing_at(at));
    let _ = stylish::write!(w, "{:s}", d);
    let _ = w.finish();
    Ok(())
}

pub fn run(mut m: Mon) -> ! {
    let scale = std::env::var("SVH_MODE").unwrap_or_default();
    // Miri and the sanitizers are slow
    let (n_inter, n_thr, n_all, max_threads, rounds) = match scale.as_str() {
        "miri" => (m.n(3, 40), m.n(2, 20), m.n(3, 60), 3, 1),
        "tsan" => (m.n(1_000, 20_000), m.n(400, 6_000), m.n(1_000, 20_000), 8, 12),
        "asan" => (m.n(3_000, 100_000), m.n(40, 500), m.n(8_000, 300_000), 8, 10),
        _ => (m.n(60_000, 3_000_000), m.n(1_500, 60_000), m.n(20_000, 1_000_000), 16, 10),
    };
    let mut r = m.rng(1);
    let mut orders = HashSet::new();
    for i in 0..n_inter {
        let seed = r.u64();
        m.case(&seed.to_le_bytes(), true);
        match guard(|| interleaved(seed, &mut orders)).and_then(|x| x) {
            Ok((n, s)) => {
                m.count("interleaved steps on one thread", n);
                m.sample(|| s);
            }
            Err(e) => {
                m.violation(e, format!("interleaving, case seed {seed}"));
                m.finish();
            }
        }
        if (scale == "miri" || i % 256 == 0) && m.out_of_time() {
            break;
        }
    }
    m.count("distinct interleavings of writers on one thread", orders.len() as u64);
    let mut schedules = HashSet::new();
    for i in 0..n_thr {
        let seed = r.u64();
        let n = [2, 3, 8, max_threads][i % 4].min(max_threads);
        m.case(&seed.to_le_bytes(), true);
        match guard(|| threads(seed, n, rounds, &mut schedules)).and_then(|x| x) {
            Ok(n) => m.count("events on concurrent threads", n),
            Err(e) if e.starts_with("monitor") || e == "gone" => {
                eprintln!("inconclusive: {e}");
                std::process::exit(3);
            }
            Err(e) => {
                m.violation(e, format!("{n} threads, case seed {seed}"));
                m.finish();
            }
        }
        m.max("most threads at once", n as u64);
        if i % 16 == 0 && m.out_of_time() {
            break;
        }
    }
    m.count("distinct orders of events on concurrent threads", schedules.len() as u64);
    for i in 0..n_all {
        let seed = r.u64();
        m.case(&seed.to_le_bytes(), true);
        m.count("single workloads", 1);
        match guard(|| reentrant(seed)).and_then(|x| x) {
            Ok(n) => m.count("writers used in the middle of formatting", n),
            Err(e) => {
                m.violation(e, format!("values using writers, case seed {seed}"));
                m.finish();
            }
        }
        if let Err(e) = checked(|| everything(seed)) {
            m.violation(e, format!("workload, case seed {seed}"));
            m.finish();
        }
        if (scale == "miri" || i % 64 == 0) && m.out_of_time() {
            break;
        }
    }
    m.require("interleaved steps on one thread");
    m.require("events on concurrent threads");
    m.finish()
}
