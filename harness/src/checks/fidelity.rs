//! C01, C03: output shows every character in exactly the requested style.
use crate::doc::{self, Doc};
use crate::drive::{self, Back, Drv, DRVS};
use crate::gen::{self, Text};
use crate::model::{chars_of, Chars, DEF, N_STYLES, S};
use crate::mon::{checked, shrink_runs, Mon};
use crate::{html, vt};

/// observe one output; counts what was seen
fn observe(m: &mut Mon, b: Back, out: &[u8], runs: &[(String, S)]) -> Result<(), String> {
    let n: usize = runs.iter().map(|r| r.0.chars().count()).sum();
    m.count("characters compared", n as u64);
    match b {
        Back::Html => {
            let s = std::str::from_utf8(out).map_err(|e| format!("not UTF-8: {e}"))?;
            let (cells, st) = html::run(s, true)?;
            m.count("elements parsed", st.spans as u64);
            m.count("character references parsed", st.references as u64);
            html::compare(&cells, &chars_of(runs))
        }
        _ => {
            if runs.iter().any(|r| r.0.contains('\x1b')) {
                m.count("outputs with escape characters in the text", 1);
                let r: Vec<(Vec<u8>, S)> =
                    crate::model::canonical(runs).into_iter().map(|(t, s)| (t.into_bytes(), s)).collect();
                return vt::lockstep(out, &r).map(|_| ());
            }
            let (cells, _, st) = vt::run(out)?;
            m.count("escape sequences interpreted", st.sequences as u64);
            m.count("SGR codes interpreted", st.codes as u64);
            vt::compare(&cells, &chars_of(runs))
        }
    }
}

fn one(m: &mut Mon, b: Back, runs: &[(String, S)], drv: Drv) -> bool {
    let mut out = Vec::new();
    let r = checked(|| {
        out = drive::render(b, runs, drv)?;
        observe(m, b, &out, runs)
    });
    if r.is_ok() {
        return true;
    }
    let min = shrink_runs(runs.to_vec(), |runs| checked(|| drive::verify_style(b, &drive::render(b, runs, drv)?, runs)).is_err());
    let mut out = Vec::new();
    let why = checked(|| {
        out = drive::render(b, &min, drv)?;
        drive::verify_style(b, &out, &min)
    })
    .err()
    .unwrap_or_else(|| r.err().unwrap());
    m.violation(
        format!("{b:?} by {drv:?}: {why}"),
        format!("writes: {} output: {:?}", gen::show(&min), String::from_utf8_lossy(&out)),
    );
    false
}

pub fn run(mut m: Mon, backs: &[Back]) -> ! {
    // every pair of styles, in both orders
    for &b in backs {
        let mut chars: Chars = Vec::new();
        for i in 0..N_STYLES {
            let (s, mut acc) = (S::nth(i), Vec::new());
            for j in 0..N_STYLES {
                let t = S::nth(j);
                let runs = [("a".to_string(), s), ("b".to_string(), t)];
                let mut out = Vec::new();
                let r = checked(|| {
                    out = drive::render(b, &runs, Drv::Str)?;
                    drive::verify_style(b, &out, &runs)
                });
                m.case(&[b as u8, (i >> 8) as u8, i as u8, (j >> 8) as u8, j as u8], i != j);
                if let Err(e) = r {
                    m.violation(
                        format!("{b:?}: {e}"),
                        format!("writes: {} output: {:?}", gen::show(&runs), String::from_utf8_lossy(&out)),
                    );
                }
                acc.push(out.len());
                if m.failed() {
                    m.finish();
                }
            }
            m.count("style transitions observed", acc.len() as u64);
            chars.push(('a', s));
        }
        m.exhaustive(&format!("{b:?}: all {} ordered pairs of styles as consecutive writes", N_STYLES * N_STYLES));
    }

    // every transition within one long-lived writer: a walk that takes every
    // pair (colour, intensity) -> (colour, intensity) on one attribute pair
    for &b in backs {
        for drv in DRVS {
            for which in 0..3 {
                let states: Vec<S> = (0..51)
                    .map(|i| {
                        let (c, k) = ((i % 17) as u8, (i / 17) as u8);
                        match which {
                            0 => S { fg: c, int: k, ..DEF },
                            1 => S { bg: c, int: k, ..DEF },
                            _ => S { fg: c, bg: (c + k) % 17, int: k },
                        }
                    })
                    .collect();
                let mut runs = Vec::new();
                for x in &states {
                    for y in &states {
                        runs.push(("x".to_string(), *x));
                        runs.push(("yz".to_string(), *y));
                    }
                }
                m.case(&gen::key(&runs), true);
                m.max("longest history (writes)", runs.len() as u64);
                one(&mut m, b, &runs, drv);
            }
        }
    }

    // every character there is
    for &b in backs {
        let styles = [DEF, S { fg: 1, ..DEF }, S { bg: 4, int: 2, ..DEF }, S { fg: 9, bg: 2, int: 1 }];
        let mut chunk: Vec<(String, S)> = Vec::new();
        let mut k = 0usize;
        for c in (0..0x110000u32).filter_map(char::from_u32) {
            let last = c as u32 == 0x10ffff;
            let s = styles[(k / 3) % 4];
            match chunk.last_mut() {
                Some((t, u)) if *u == s => t.push(c),
                _ => chunk.push((c.to_string(), s)),
            }
            k += 1;
            if k % 4096 == 0 || last {
                let drv = DRVS[k / 4096 % DRVS.len()];
                m.case(&gen::key(&chunk), true);
                one(&mut m, b, &chunk, drv);
                chunk.clear();
            }
        }
        m.exhaustive(&format!("{b:?}: every Unicode scalar value"));
    }
    if m.failed() {
        m.finish();
    }

    let mut r = m.rng(1);
    for i in 0..m.n(60_000, 4_000_000) {
        let t = if r.one_in(8) { Some(Text::Raw) } else { None };
        let runs = gen::script(&mut r, t);
        let b = *r.pick(backs);
        let drv = *r.pick(&DRVS);
        let styles: std::collections::HashSet<S> = runs.iter().filter(|x| !x.0.is_empty()).map(|x| x.1).collect();
        m.case(&gen::key(&runs), styles.len() > 1);
        m.max("longest history (writes)", runs.len() as u64);
        m.max("longest text (bytes)", runs.iter().map(|r| r.0.len()).max().unwrap_or(0) as u64);
        one(&mut m, b, &runs, drv);
        m.sample(|| {
            let out = drive::render(b, &runs, drv).unwrap_or_default();
            format!("{b:?} by {drv:?}: {} -> {:?}", gen::show(&runs), String::from_utf8_lossy(&out))
        });
        if m.failed() || (i % 4096 == 0 && m.out_of_time()) {
            break;
        }
    }
    // nested values
    for i in 0..m.n(20_000, 1_000_000) {
        let d = doc::gen(&mut r, None);
        let runs = d.runs();
        let b = *r.pick(backs);
        let styles: std::collections::HashSet<S> = runs.iter().filter(|x| !x.0.is_empty()).map(|x| x.1).collect();
        m.case(&doc::key(&d), styles.len() > 1);
        m.max("deepest nesting", d.depth() as u64);
        let test = |d: &Doc| checked(|| drive::verify_style(b, &drive::render_value(b, d)?, &d.runs()));
        let res = checked(|| observe(&mut m, b, &drive::render_value(b, &d)?, &runs));
        m.count("nested values rendered", 1);
        if res.is_err() {
            let min = doc::shrink(&d, |d| test(d).is_err());
            m.violation(format!("{b:?}: {}", test(&min).err().unwrap_or_default()), format!("{min:?}"));
        }
        if m.failed() || (i % 1024 == 0 && m.out_of_time()) {
            break;
        }
    }
    // long histories in one writer
    for _ in 0..m.n(6, 200) {
        let n = r.range(5_000, 30_000);
        let runs = gen::script_n(&mut r, Some(Text::Ascii), n);
        for &b in backs {
            m.case(&gen::key(&runs), true);
            m.max("longest history (writes)", runs.len() as u64);
            let drv = *r.pick(&DRVS);
            one(&mut m, b, &runs, drv);
        }
        if m.failed() || m.out_of_time() {
            break;
        }
    }
    m.require("characters compared");
    m.finish()
}
