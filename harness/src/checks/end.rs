//! C02: a finished writer leaves its sink in the default style.
use crate::drive::{self, Back, Drv, DRVS};
use crate::gen::{self, Runs};
use crate::model::{chars_of, DEF, N_STYLES, S};
use crate::mon::{checked, shrink_runs, Mon};
use crate::sink::{Act, IoSink};
use crate::{html, vt};
use std::io::Write as _;

const B: [Back; 3] = [Back::Ansi, Back::IoAnsi, Back::Html];

/// What follows finished output is shown unstyled, and what was in the sink before is untouched.
fn check(b: Back, runs: &[(String, S)], drv: Drv, how: usize) -> Result<(), String> {
    let before = "before ";
    let out: Vec<u8> = match b {
        Back::Ansi => {
            let mut w = stylish::Ansi::new(String::from(before));
            drive::feed(&mut w, runs, drv).map_err(|_| "write failed")?;
            let mut s = if how == 1 { w.clone().finish() } else { w.finish() }.map_err(|_| "finish failed")?;
            s.push_str(" after");
            s.into()
        }
        Back::Html => {
            let mut w = stylish::Html::new(String::from(before));
            drive::feed(&mut w, runs, drv).map_err(|_| "write failed")?;
            let mut s = if how == 1 { w.clone().finish() } else { w.finish() }.map_err(|_| "finish failed")?;
            s.push_str(" after");
            s.into()
        }
        _ if how == 2 => {
            // a sink that takes finish apart
            let sink = IoSink::with(|n, _| if n % 2 == 0 { Act::Interrupted } else { Act::Short(1) });
            sink.0.borrow_mut().buf = before.into();
            let mut w = stylish::io::Ansi::new(sink);
            drive::feed_io(&mut w, runs, drv).map_err(|e| e.to_string())?;
            let s = w.finish().map_err(|e| e.to_string())?;
            let mut v = s.bytes();
            v.extend_from_slice(b" after");
            v
        }
        _ => {
            let mut w = stylish::io::Ansi::new(Vec::from(before));
            drive::feed_io(&mut w, runs, drv).map_err(|e| e.to_string())?;
            let mut s = if how == 1 { w.clone().finish() } else { w.finish() }.map_err(|e| e.to_string())?;
            s.write_all(b" after").unwrap();
            s
        }
    };
    // a single write of nothing in a style is allowed to show as a change of style
    let single = b == Back::IoAnsi && matches!(drv, Drv::Single | Drv::Mixed);
    let all_default = runs.iter().all(|(t, s)| t.is_empty() && !single || s.is_default());
    // only the ends matter here: the six characters after finish
    if !out.ends_with(b" after") || !out.starts_with(before.as_bytes()) {
        return Err("sink content outside the output was changed".into());
    }
    let mut tail_bytes = out.clone();
    if b == Back::Html {
        let s = String::from_utf8(out.clone()).map_err(|_| "not UTF-8")?;
        let (cells, _) = html::run(&s, true)?;
        let bad = cells[cells.len() - 6..].iter().chain(&cells[..7]).find(|c| c.1 != html::PLAIN);
        if let Some(b) = bad {
            return Err(format!("text outside the output is shown as {b:?}"));
        }
        if all_default && s.contains('<') {
            return Err("elements in output that has no styled text".into());
        }
    } else {
        if !runs.iter().any(|r| r.0.contains('\x1b')) {
            let (cells, end, st) = vt::run(&out)?;
            let bad = cells[cells.len() - 6..].iter().chain(&cells[..7]).find(|c| c.1 != vt::RESET);
            if let Some(b) = bad {
                return Err(format!("text outside the output is shown as {b:?}"));
            }
            if end != vt::RESET {
                return Err(format!("terminal is left in {end:?}"));
            }
            if all_default && st.sequences != 0 {
                return Err("escape sequences in output that has no styled text".into());
            }
        } else {
            tail_bytes.truncate(out.len() - 6);
            let r: Vec<(Vec<u8>, S)> = std::iter::once((before.as_bytes().to_vec(), DEF))
                .chain(crate::model::canonical(runs).into_iter().map(|(t, s)| (t.into_bytes(), s)))
                .collect();
            let end = vt::lockstep(&tail_bytes, &r)?;
            if end != vt::RESET {
                return Err(format!("terminal is left in {end:?}"));
            }
        }
    }
    Ok(())
}

fn one(m: &mut Mon, b: Back, runs: &Runs, drv: Drv, how: usize) {
    m.case(&[gen::key(runs), vec![b as u8, how as u8]].concat(), runs.iter().any(|r| !r.1.is_default() && !r.0.is_empty()));
    if runs.last().is_some_and(|r| !r.1.is_default()) {
        m.count("finished while styled", 1);
    }
    if runs.iter().all(|r| r.1.is_default() || r.0.is_empty()) {
        m.count("outputs without styled text", 1);
    }
    if let Err(e) = checked(|| check(b, runs, drv, how)) {
        let min = shrink_runs(runs.clone(), |r| checked(|| check(b, r, drv, how)).is_err());
        let e = checked(|| check(b, &min, drv, how)).err().unwrap_or(e);
        let out = drive::render(b, &min, drv).unwrap_or_default();
        m.violation(
            format!("{b:?} by {drv:?} (variant {how}): {e}"),
            format!("writes: {} finished output: {:?}", gen::show(&min), String::from_utf8_lossy(&out)),
        );
    }
}

pub fn run(mut m: Mon) -> ! {
    // every final style after every kind of predecessor, and after none
    let firsts = [
        None,
        Some(DEF),
        Some(S { fg: 3, ..DEF }),
        Some(S { bg: 12, ..DEF }),
        Some(S { int: 1, ..DEF }),
        Some(S { int: 2, ..DEF }),
        Some(S { fg: 8, bg: 0, int: 1 }),
    ];
    for b in B {
        for i in 0..N_STYLES {
            for f in &firsts {
                for tail in 0..4 {
                    let mut runs: Runs = f.iter().map(|s| ("p".to_string(), *s)).collect();
                    runs.push(("q".into(), S::nth(i)));
                    match tail {
                        1 => runs.push(("d".into(), DEF)),
                        2 => runs.push((String::new(), S::nth((i * 7 + 1) % N_STYLES))),
                        3 => runs.push((String::new(), DEF)),
                        _ => {}
                    }
                    one(&mut m, b, &runs, Drv::Str, tail % 3);
                    one(&mut m, b, &runs, Drv::Single, tail % 2);
                    if m.failed() {
                        m.finish();
                    }
                }
            }
        }
        m.exhaustive(&format!("{b:?}: each of the {N_STYLES} styles as the last, after 7 kinds of predecessor, followed by nothing, default text or empty writes"));
        for drv in DRVS {
            one(&mut m, b, &vec![], drv, 0);
            one(&mut m, b, &vec![(String::new(), S { fg: 1, ..DEF })], drv, 0);
        }
    }
    let mut r = m.rng(1);
    for i in 0..m.n(40_000, 2_000_000) {
        let mut runs = gen::script(&mut r, if i % 9 == 0 { Some(gen::Text::Raw) } else { None });
        if r.one_in(4) {
            runs.iter_mut().for_each(|x| x.1 = DEF);
        }
        if r.one_in(4) {
            runs.push((String::new(), gen::style(&mut r)));
        }
        let (b, drv, how) = (*r.pick(&B), *r.pick(&DRVS), r.below(3));
        one(&mut m, b, &runs, drv, how);
        m.sample(|| format!("{b:?} by {drv:?}: {}", gen::show(&runs)));
        if m.failed() || (i % 1024 == 0 && m.out_of_time()) {
            break;
        }
    }
    // concatenation of finished outputs, within one sink
    for i in 0..m.n(15_000, 600_000) {
        let parts: Vec<Runs> = (0..r.range(2, 5)).map(|_| gen::script_n(&mut r, Some(gen::Text::Html), 3)).collect();
        let b = *r.pick(&B);
        let drv = *r.pick(&DRVS);
        let res = checked(|| {
            let mut all = Vec::new();
            let mut sink_s = String::new();
            let mut sink_v = Vec::new();
            for p in &parts {
                all.extend_from_slice(&drive::render(b, p, drv)?);
                match b {
                    Back::Ansi => {
                        let mut w = stylish::Ansi::new(sink_s);
                        drive::feed(&mut w, p, drv).map_err(|_| "write failed")?;
                        sink_s = w.finish().map_err(|_| "finish failed")?;
                    }
                    Back::Html => {
                        let mut w = stylish::Html::new(&mut sink_s);
                        drive::feed(&mut w, p, drv).map_err(|_| "write failed")?;
                        w.finish().map_err(|_| "finish failed")?;
                    }
                    _ => {
                        let mut w = stylish::io::Ansi::new(&mut sink_v);
                        drive::feed_io(&mut w, p, drv).map_err(|e| e.to_string())?;
                        w.finish().map_err(|e| e.to_string())?;
                    }
                }
            }
            let sink = if b == Back::IoAnsi { sink_v } else { sink_s.into_bytes() };
            if sink != all {
                return Err("finished outputs influence each other: written into one sink they differ from being concatenated".to_string());
            }
            let flat: Runs = parts.concat();
            if b == Back::Html {
                let s = String::from_utf8(all).map_err(|_| "not UTF-8")?;
                html::compare(&html::run(&s, true)?.0, &chars_of(&flat))
            } else {
                vt::compare(&vt::run(&all)?.0, &chars_of(&flat))
            }
        });
        m.case(&gen::key(&parts.concat()), true);
        m.count("concatenations", 1);
        if let Err(e) = res {
            m.violation(
                format!("{b:?} by {drv:?}: {e}"),
                parts.iter().map(|p| gen::show(p)).collect::<Vec<_>>().join(" | "),
            );
        }
        if m.failed() || (i % 1024 == 0 && m.out_of_time()) {
            break;
        }
    }
    m.require("finished while styled");
    m.require("outputs without styled text");
    m.finish()
}
