//! C04: text can never become markup in HTML output.
use crate::doc;
use crate::drive::{self, Back, Drv, DRVS};
use crate::gen::{self, Runs, Text};
use crate::html;
use crate::model::{canonical, DEF, S};
use crate::mon::{checked, shrink_runs, Mon};

const SPECIAL: [char; 5] = ['<', '>', '&', '"', '\''];

fn verify(out: &str, runs: &[(String, S)]) -> Result<html::Stats, String> {
    let (cells, st) = html::run(out, true)?;
    let text: Vec<char> = cells.iter().map(|c| c.0).collect();
    let want: Vec<char> = runs.iter().flat_map(|r| r.0.chars()).collect();
    if let Some(d) = crate::model::first_diff(&text, &want) {
        return Err(format!("decoded text: {d}"));
    }
    if st.raw_special > 0 {
        return Err(format!("{} special characters of the text are not character references", st.raw_special));
    }
    if st.max_depth > 1 {
        return Err(format!("elements nested {} deep", st.max_depth));
    }
    if st.empty_spans > 0 {
        return Err("an element without text".into());
    }
    // every element holds text of one style: walk both in step
    let mut i = 0;
    for (t, s) in canonical(runs) {
        for _ in t.chars() {
            if (cells[i].1 == html::PLAIN) != s.is_default() {
                return Err(format!("character {i} of style {s:?} is {:?}", cells[i].1));
            }
            i += 1;
        }
    }
    Ok(st)
}

fn one(m: &mut Mon, runs: &Runs, drv: Drv) {
    m.case(&gen::key(runs), runs.iter().any(|r| r.0.contains(SPECIAL)));
    let n: usize = runs.iter().map(|r| r.0.matches(SPECIAL).count()).sum();
    m.count("special characters in texts", n as u64);
    match checked_stats(runs, drv) {
        Ok(st) => {
            m.count("elements parsed", st.spans as u64);
            m.count("character references decoded", st.references as u64);
        }
        Err(e) => {
            let min = shrink_runs(runs.clone(), |r| checked_stats(r, drv).is_err());
            let e = checked_stats(&min, drv).err().unwrap_or(e);
            m.violation(
                format!("by {drv:?}: {e}"),
                format!("writes: {} output: {:?}", gen::show(&min), drive::html(&min, drv)),
            );
        }
    }
}
fn checked_stats(runs: &[(String, S)], drv: Drv) -> Result<html::Stats, String> {
    let mut st = None;
    checked(|| {
        st = Some(verify(&drive::html(runs, drv)?, runs)?);
        Ok(())
    })?;
    Ok(st.unwrap())
}

pub fn run(mut m: Mon) -> ! {
    let styled = S { fg: 1, bg: 16, int: 1 };
    // every character, alone in a text, unstyled and styled, and between others
    for c in (0..0x110000u32).filter_map(char::from_u32) {
        let s = if c as u32 % 2 == 0 { DEF } else { styled };
        let runs = vec![(c.to_string(), s)];
        let r = checked(|| verify(&drive::html(&runs, Drv::Str)?, &runs).map(|_| ()));
        m.case(&(c as u32).to_le_bytes(), SPECIAL.contains(&c));
        if let Err(e) = r {
            m.violation(e, format!("text {c:?} in style {s:?}"));
            m.finish();
        }
    }
    m.exhaustive("every Unicode scalar value as a whole text");
    // every string of up to 5 (6) characters over a hostile alphabet, whole and cut with a style change
    let alpha = ['<', '>', '&', '"', '\'', 'a', ';', '/', '#'];
    let max = if m.thorough { 6 } else { 5 };
    for len in 1..=max {
        let total = alpha.len().pow(len as u32);
        for n in 0..total {
            let mut x = n;
            let t: String = (0..len)
                .map(|_| {
                    let c = alpha[x % alpha.len()];
                    x /= alpha.len();
                    c
                })
                .collect();
            let cut = n % (len + 1);
            let (a, b) = (t[..cut].to_string(), t[cut..].to_string());
            let runs = vec![(a, if n % 3 == 0 { styled } else { DEF }), (b, if n % 2 == 0 { DEF } else { S { bg: 4, ..DEF } })];
            let r = checked(|| verify(&drive::html(&runs, Drv::Str)?, &runs).map(|_| ()));
            m.case(&gen::key(&runs), true);
            if let Err(e) = r {
                m.violation(e, gen::show(&runs));
                m.finish();
            }
        }
    }
    m.exhaustive(&format!("every string of up to {max} characters over {alpha:?}, cut somewhere by a style change"));
    let mut r = m.rng(1);
    // special characters at every offset of longer texts: block sizes of scanners
    for len in 0..=130 {
        for at in 0..=len {
            for &c in &SPECIAL {
                let mut t = "x".repeat(at);
                t.push(c);
                t.push_str(&"é".repeat(len - at));
                let runs = vec![(t, if at % 2 == 0 { styled } else { DEF })];
                one(&mut m, &runs, Drv::Str);
            }
        }
        if m.failed() {
            m.finish();
        }
    }
    m.exhaustive("each special character at every offset of texts of up to 131 characters");
    for i in 0..m.n(60_000, 3_000_000) {
        let k = *r.pick(&[Text::Html, Text::Html, Text::Any, Text::Raw, Text::Unicode]);
        let runs = gen::script(&mut r, Some(k));
        let drv = *r.pick(&DRVS);
        one(&mut m, &runs, drv);
        m.sample(|| format!("by {drv:?}: {} -> {:?}", gen::show(&runs), drive::html(&runs, drv)));
        if m.failed() || (i % 1024 == 0 && m.out_of_time()) {
            break;
        }
    }
    for i in 0..m.n(15_000, 600_000) {
        let k = if i % 2 == 0 { Text::Html } else { Text::Any };
        let d = doc::gen(&mut r, Some(k));
        let f = |d: &doc::Doc| {
            checked(|| {
                let out = String::from_utf8(drive::render_value(Back::Html, d)?).map_err(|_| "not UTF-8")?;
                verify(&out, &d.runs()).map(|_| ())
            })
        };
        m.case(&doc::key(&d), true);
        if f(&d).is_err() {
            let min = doc::shrink(&d, |d| f(d).is_err());
            m.violation(f(&min).err().unwrap_or_default(), format!("{min:?}"));
        }
        if m.failed() || (i % 1024 == 0 && m.out_of_time()) {
            break;
        }
    }
    m.require("character references decoded");
    m.require("elements parsed");
    m.finish()
}
