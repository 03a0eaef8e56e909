//! C07: nested formatters style exactly their own text.
use crate::doc::{self, Doc, TextVia, Via, TEXT_VIAS, VIAS};
use crate::gen;
use crate::model::{chars_of, first_diff, DEF, N_STYLES, R, S};
use crate::mon::{checked, Mon};
use crate::sink::Styled;

fn check(d: &Doc) -> Result<usize, String> {
    let mut w = Styled::new();
    let r = stylish::Write::write_fmt(&mut w, stylish::format_args!("{:s}", d));
    if r.is_err() != d.fails() {
        return Err(format!("rendering returned {r:?}"));
    }
    match first_diff(&chars_of(&w.events), &chars_of(&d.runs())) {
        None => Ok(w.events.len()),
        Some(d) => Err(d),
    }
}

pub fn run(mut m: Mon) -> ! {
    // every ambient style and every single attribute, with text before, in and after
    for i in 0..N_STYLES {
        for (k, re) in (0..17u8)
            .map(R::Fg)
            .chain((0..17).map(R::Bg))
            .chain((0..3).map(R::Int))
            .chain([R::Unit, R::None, R::Swap, R::Rotate, R::OhNo, R::Full(DEF), R::Full(S::nth((i * 31 + 7) % N_STYLES))])
            .enumerate()
        {
            let tv = TEXT_VIAS[(i + k) % TEXT_VIAS.len()];
            let via = VIAS[(i + k / 3) % VIAS.len()];
            let text = |s: &str| Doc::Text(s.into(), tv);
            let d = Doc::With(
                R::Full(S::nth(i)),
                vec![text("ab"), Doc::With(re, vec![text("cd")], via), text("ef"), Doc::Abs("gh".into(), S::nth((i * 17) % N_STYLES)), text("ij")],
                via,
            );
            m.case(&[(i >> 8) as u8, i as u8, k as u8], true);
            let mut events = 0;
            if let Err(e) = checked(|| {
                events = check(&d)?;
                Ok(())
            }) {
                m.violation(e, format!("{d:?}"));
                m.finish();
            }
            m.count("writer events observed", events as u64);
        }
    }
    m.exhaustive("every single-attribute restyle inside each of the 867 styles, with text around it");
    // every combination of routes in a small nesting
    for v1 in VIAS {
        for v2 in VIAS {
            for t1 in TEXT_VIAS {
                for t2 in TEXT_VIAS {
                    let d = Doc::With(
                        R::Fg(2),
                        vec![
                            Doc::Text("ä<".into(), t1),
                            Doc::With(R::Int(1), vec![Doc::Text("x".into(), t2), Doc::Seq(vec![Doc::Text("y".into(), t1)], v1)], v2),
                            Doc::Text("z".into(), t2),
                        ],
                        v1,
                    );
                    m.case(&doc::key(&d), true);
                    if let Err(e) = checked(|| check(&d).map(|_| ())) {
                        m.violation(e, format!("{d:?}"));
                        m.finish();
                    }
                }
            }
        }
    }
    m.exhaustive("every combination of two nesting routes and two text routes");
    let mut r = m.rng(1);
    for i in 0..m.n(150_000, 8_000_000) {
        let mut d = doc::gen(&mut r, None);
        if i % 4 == 0 {
            d = doc::with_tries(&mut r, &d);
        }
        m.case(&doc::key(&d), d.depth() > 1);
        m.max("deepest nesting", d.depth() as u64);
        m.max("largest document (nodes)", d.nodes() as u64);
        let mut events = 0;
        let res = checked(|| {
            events = check(&d)?;
            Ok(())
        });
        m.count("writer events observed", events as u64);
        m.count("formatters created", d.nodes() as u64);
        if res.is_err() {
            let min = doc::shrink(&d, |d| checked(|| check(d).map(|_| ())).is_err());
            m.violation(checked(|| check(&min).map(|_| ())).err().unwrap_or_default(), format!("{min:?}"));
        }
        m.sample(|| format!("{d:?} -> {}", gen::show(&d.runs())));
        if m.failed() || (i % 1024 == 0 && m.out_of_time()) {
            break;
        }
    }
    // very deep nestings
    for depth in [100, 500, 1500] {
        let mut d = Doc::Text("deep".into(), TextVia::Macro);
        for k in 0..depth {
            let re = gen::restyle(&mut r, 0);
            d = Doc::With(re, vec![Doc::Text("<".into(), TEXT_VIAS[k % TEXT_VIAS.len()]), d, Doc::Text(">".into(), TextVia::WriteStr)], Via::Each);
        }
        m.case(format!("deep{depth}").as_bytes(), true);
        m.max("deepest nesting", depth as u64);
        if let Err(e) = checked(|| check(&d).map(|_| ())) {
            m.violation(e, format!("nesting of depth {depth}"));
        }
    }
    m.require("writer events observed");
    m.finish()
}
