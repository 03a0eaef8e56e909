//! C17: output depends only on the styled characters and has no redundant codes.
use crate::drive::{self, Back, Drv, BACKS};
use crate::gen::{self, Runs, Text};
use crate::model::{canonical, DEF, S};
use crate::mon::{checked, shrink_runs, Mon};
use crate::rng::Rng;
use crate::{html, vt};

/// ways that write whole texts
const WHOLE: [Drv; 6] = [Drv::Str, Drv::Dyn, Drv::Nested, Drv::Each, Drv::Args, Drv::Chars];

fn lean(b: Back, out: &[u8], runs: &[(String, S)], m: Option<&mut Mon>) -> Result<(), String> {
    let canon = canonical(runs);
    let mut changes = 0;
    let mut last = DEF;
    for (_, s) in &canon {
        changes += (*s != last) as usize;
        last = *s;
    }
    changes += (last != DEF) as usize;
    match b {
        Back::Ansi | Back::IoAnsi => {
            if runs.iter().any(|r| r.0.contains('\x1b')) {
                return Ok(());
            }
            let (_, _, st) = vt::run(out)?;
            if st.sequences > changes {
                return Err(format!("{} escape sequences for {changes} changes of style", st.sequences));
            }
            if st.redundant > 0 {
                return Err(format!("{} escape sequences without effect", st.redundant));
            }
            if st.redundant_codes > 0 {
                return Err(format!("{} codes for attributes that do not change", st.redundant_codes));
            }
            if let Some(m) = m {
                m.count("escape sequences observed", st.sequences as u64);
                m.count("changes of style", changes as u64);
            }
        }
        Back::Html => {
            let s = std::str::from_utf8(out).map_err(|_| "not UTF-8")?;
            let (_, st) = html::run(s, true)?;
            let styled = canon.iter().filter(|r| r.1 != DEF).count();
            if st.spans != styled {
                return Err(format!("{} elements for {styled} styled stretches of text", st.spans));
            }
            if st.empty_spans > 0 {
                return Err("an element without text".into());
            }
            if let Some(m) = m {
                m.count("elements observed", st.spans as u64);
            }
        }
        _ => {}
    }
    Ok(())
}

fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

fn same(b: Back, runs: &[(String, S)], other: &[(String, S)], d: Drv) -> Result<Vec<u8>, String> {
    let canon = canonical(runs);
    let x = drive::render(b, &canon, Drv::Str)?;
    let y = drive::render(b, other, d)?;
    match crate::model::first_diff(&y, &x) {
        None => Ok(x),
        Some(e) => Err(format!("the same characters written differently (by {d:?}) give other bytes: {e}: {:?} instead of {:?}", show(&y), show(&x))),
    }
}

pub fn run(mut m: Mon) -> ! {
    for b in [Back::Ansi, Back::IoAnsi, Back::Html] {
        for i in 0..crate::model::N_STYLES {
            for j in 0..crate::model::N_STYLES {
                let (s, t) = (S::nth(i), S::nth(j));
                m.case(&[b as u8, (i >> 8) as u8, i as u8, (j >> 8) as u8, j as u8], i != j);
                let runs = [("a".to_string(), s), (String::new(), DEF), ("b".to_string(), t)];
                let res = checked(|| lean(b, &drive::render(b, &runs, Drv::Str)?, &runs, None));
                if let Err(e) = res {
                    m.violation(format!("{b:?}: {e}"), format!("{} output {:?}", gen::show(&runs), drive::render(b, &runs, Drv::Str).map(|o| show(&o))));
                    m.finish();
                }
            }
        }
        m.exhaustive(&format!("{b:?}: all ordered pairs of the 867 styles, an empty write between"));
    }
    // empty writes in every style between, before and after
    for b in BACKS {
        for i in 0..crate::model::N_STYLES {
            for s in [DEF, S { fg: 1, ..DEF }, S { fg: 4, bg: 2, int: 1 }, S { int: 2, ..DEF }] {
                let e = (String::new(), S::nth(i));
                let a = ("a".to_string(), s);
                let t = ("b".to_string(), S { bg: 9, ..DEF });
                let plain: Runs = vec![a.clone(), a.clone(), t.clone()];
                for with in [
                    vec![e.clone(), a.clone(), a.clone(), t.clone()],
                    vec![a.clone(), e.clone(), a.clone(), t.clone()],
                    vec![a.clone(), a.clone(), e.clone(), t.clone()],
                    vec![a.clone(), a.clone(), t.clone(), e.clone()],
                    vec![e.clone(), e.clone(), a.clone(), e.clone(), e.clone(), a.clone(), e.clone(), t.clone(), e.clone()],
                ] {
                    for d in [Drv::Str, Drv::Each] {
                        m.case(&[gen::key(&with), vec![b as u8, d as u8]].concat(), true);
                        m.count("rewritings compared", 1);
                        if let Err(e) = checked(|| same(b, &plain, &with, d).map(|_| ())) {
                            m.violation(format!("{b:?}: {e}"), format!("{} against {}", gen::show(&plain), gen::show(&with)));
                            m.finish();
                        }
                    }
                }
            }
        }
    }
    m.exhaustive("empty writes in each of the 867 styles at every place of a three-write sequence, five writers");
    let mut r = m.rng(1);
    for i in 0..m.n(60_000, 3_000_000) {
        let k = match r.below(5) {
            0 => Some(Text::Raw),
            1 => Some(Text::Html),
            _ => None,
        };
        let runs = gen::script(&mut r, k);
        let b = BACKS[i % 5];
        let d = WHOLE[i / 5 % 6];
        let seed = r.u64();
        m.case(&[gen::key(&runs), seed.to_le_bytes().to_vec()].concat(), runs.len() > 1);
        m.count("rewritings compared", 1);
        let mut out = Vec::new();
        let res = checked(|| {
            let other = gen::refragment(&mut Rng::new(seed), &runs);
            out = same(b, &runs, &other, d)?;
            lean(b, &out, &runs, Some(&mut m))
        });
        if let Err(e) = res {
            let f = |runs: &[(String, S)]| {
                checked(|| {
                    let other = gen::refragment(&mut Rng::new(seed), runs);
                    let out = same(b, runs, &other, d)?;
                    lean(b, &out, runs, None)
                })
            };
            let min = shrink_runs(runs, |r| f(r).is_err());
            let other = gen::refragment(&mut Rng::new(seed), &min);
            m.violation(
                format!("{b:?}: {}", f(&min).err().unwrap_or(e)),
                format!("{} against {}", gen::show(&min), gen::show(&other)),
            );
            break;
        }
        m.sample(|| format!("{b:?} by {d:?}: {} -> {:?}", gen::show(&runs), show(&out)));
        if i % 1024 == 0 && m.out_of_time() {
            break;
        }
    }
    for k in ["escape sequences observed", "elements observed", "rewritings compared"] {
        m.require(k);
    }
    m.finish()
}
