//! C05: styling never changes the text.
use crate::doc::{self, Doc};
use crate::drive::{self, Back, BACKS, DRVS};
use crate::gen::{self, Text};
use crate::model::{first_diff, text_of, S};
use crate::mon::{checked, shrink_runs, Mon};
use crate::{html, vt};

/// the text that is left of an output without its styling; `runs` are needed
/// only where the text has escape characters itself
fn strip(b: Back, out: &[u8], runs: &[(String, S)]) -> Result<Vec<u8>, String> {
    match b {
        Back::Plain | Back::IoPlain => Ok(out.to_vec()),
        Back::Html => {
            let s = std::str::from_utf8(out).map_err(|_| "not UTF-8")?;
            Ok(html::run(s, true)?.0.iter().map(|c| c.0).collect::<String>().into_bytes())
        }
        _ if !out.contains(&0x1b) => Ok(out.to_vec()),
        _ if runs.iter().any(|r| r.0.contains('\x1b')) => {
            // which escape sequences belong to the text is only known together with the styles
            let r: Vec<(Vec<u8>, S)> =
                crate::model::canonical(runs).into_iter().map(|(t, s)| (t.into_bytes(), s)).collect();
            vt::lockstep(out, &r)?;
            Ok(text_of(runs).into_bytes())
        }
        _ => Ok(vt::run(out)?.0.iter().map(|c| c.0).collect::<String>().into_bytes()),
    }
}

fn check(b: Back, out: &[u8], runs: &[(String, S)]) -> Result<(), String> {
    let text = strip(b, out, runs)?;
    match first_diff(&text, text_of(runs).as_bytes()) {
        None => Ok(()),
        Some(d) => Err(format!("text carried: {d}")),
    }
}

pub fn run(mut m: Mon) -> ! {
    for b in BACKS {
        let mut text = String::new();
        let mut n = 0;
        for c in (0..0x110000u32).filter_map(char::from_u32) {
            text.push(c);
            n += 1;
            if n % 512 == 0 || c == char::MAX {
                let runs = vec![(std::mem::take(&mut text), S::nth(n / 512 % 867))];
                let drv = DRVS[n / 512 % DRVS.len()];
                m.case(&[gen::key(&runs), vec![b as u8]].concat(), true);
                if let Err(e) = checked(|| check(b, &drive::render(b, &runs, drv)?, &runs)) {
                    m.violation(format!("{b:?} by {drv:?}: {e}"), gen::show(&runs));
                    m.finish();
                }
            }
        }
        m.exhaustive(&format!("{b:?}: every Unicode scalar value"));
    }
    let mut r = m.rng(1);
    for i in 0..m.n(50_000, 3_000_000) {
        let k = match r.below(6) {
            0 => Some(Text::Raw),
            1 => Some(Text::Control),
            _ => None,
        };
        if i % 2 == 0 {
            let runs = gen::script(&mut r, k);
            let drv = *r.pick(&DRVS);
            m.case(&gen::key(&runs), runs.iter().any(|x| !x.1.is_default() && !x.0.is_empty()));
            for b in BACKS {
                m.count("outputs stripped and compared", 1);
                if let Err(e) = checked(|| check(b, &drive::render(b, &runs, drv)?, &runs)) {
                    let f = |r: &[(String, S)]| checked(|| check(b, &drive::render(b, r, drv)?, r));
                    let min = shrink_runs(runs.clone(), |r| f(r).is_err());
                    m.violation(
                        format!("{b:?} by {drv:?}: {}", f(&min).err().unwrap_or(e)),
                        format!("{} output {:?}", gen::show(&min), drive::render(b, &min, drv).map(|o| String::from_utf8_lossy(&o).into_owned())),
                    );
                    break;
                }
            }
            m.sample(|| format!("by {drv:?}: {}", gen::show(&runs)));
        } else {
            let d = doc::gen(&mut r, k);
            m.case(&doc::key(&d), true);
            m.max("deepest nesting", d.depth() as u64);
            for b in BACKS {
                m.count("outputs stripped and compared", 1);
                let f = |d: &Doc| checked(|| check(b, &drive::render_value(b, d)?, &d.runs()));
                if f(&d).is_err() {
                    let min = doc::shrink(&d, |d| f(d).is_err());
                    m.violation(format!("{b:?}: {}", f(&min).err().unwrap_or_default()), format!("{min:?}"));
                    break;
                }
            }
        }
        if m.failed() || (i % 1024 == 0 && m.out_of_time()) {
            break;
        }
    }
    m.require("outputs stripped and compared");
    m.finish()
}
