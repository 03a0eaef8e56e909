//! C06: the algebra of styles, diffs and restyles.
use crate::gen;
use crate::model::{diff, COLORS, INTENSITIES, N_STYLES, R, S};
use crate::mon::{checked, Mon};
use stylish::{Background, Foreground, Restyle, Style, StyleDiff};

fn opt(c: Option<stylish::Color>) -> Option<u8> {
    c.map(crate::model::color_ix_fast)
}

fn eq(got: Style, want: S) -> Result<(), String> {
    let g = S::of(got);
    if g == want {
        Ok(())
    } else {
        Err(format!("got {g:?}, want {want:?}"))
    }
}

pub fn run(mut m: Mon) -> ! {
    // the index of a colour is found by its name, not by comparing colours
    for (i, c) in COLORS.iter().enumerate() {
        assert_eq!(crate::model::color_ix(*c) as usize, i);
    }
    let d = Style::default();
    if S::of(d) != crate::model::DEF {
        m.violation("the default style has a colour or intensity", format!("{d:?}"));
    }
    for i in 0..N_STYLES {
        let (a, la) = (S::nth(i), S::nth(i).lib());
        for j in 0..N_STYLES {
            let (b, lb) = (S::nth(j), S::nth(j).lib());
            m.case(&[(i >> 8) as u8, i as u8, (j >> 8) as u8, j as u8], i != j);
            let r = checked(|| {
                let diff: StyleDiff = lb.diff_from(la);
                let names = (opt(diff.foreground), opt(diff.background), diff.intensity.map(crate::model::int_ix));
                let want = (
                    (a.fg != b.fg).then_some(b.fg),
                    (a.bg != b.bg).then_some(b.bg),
                    (a.int != b.int).then_some(b.int),
                );
                if names != want {
                    return Err(format!("difference names {names:?}, want {want:?}"));
                }
                eq(la.with(diff), b).map_err(|e| format!("a with (b - a): {e}"))?;
                eq(diff.apply(la), b).map_err(|e| format!("apply: {e}"))?;
                eq(la.with(lb), b).map_err(|e| format!("a with b: {e}"))?;
                if (la == lb) != (a == b) || (lb != la) != (a != b) {
                    return Err("equality of styles is not equality of their attributes".into());
                }
                if (diff == StyleDiff::default()) != (a == b) {
                    return Err("difference is empty for different styles or not empty for equal ones".into());
                }
                Ok(())
            });
            if let Err(e) = r {
                m.violation(e, format!("a = {a:?}, b = {b:?}"));
                m.finish();
            }
        }
    }
    m.exhaustive("diff_from, equality and application of the difference for all ordered pairs of the 867 styles");

    for i in 0..N_STYLES {
        let (a, la) = (S::nth(i), S::nth(i).lib());
        for k in 0..18 * 18 * 4 {
            let o = |x: usize, n: usize| (x < n).then_some(x as u8);
            let (f, b, t) = (o(k % 18, 17), o(k / 18 % 18, 17), o(k / 324, 3));
            let want = R::Diff(f, b, t).model(a);
            let dv = diff(f, b, t);
            m.case(&[9, (i >> 8) as u8, i as u8, (k >> 8) as u8, k as u8], f.is_some() || b.is_some() || t.is_some());
            let r = checked(|| {
                eq(la.with(dv), want)?;
                eq(la.with(&dv), want)?;
                let parts = (
                    f.map(|c| Foreground(COLORS[c as usize])),
                    b.map(|c| Background(COLORS[c as usize])),
                    t.map(|c| INTENSITIES[c as usize]),
                );
                eq(la.with(parts), want)?;
                let rev = (parts.2, parts.1, parts.0);
                eq(la.with(rev), want)?;
                eq(la.with(((parts.0, parts.1), parts.2)), want)?;
                let bx: Box<dyn Restyle> = Box::new(dv);
                eq(la.with(&bx), want)?;
                eq(la.with(bx), want)?;
                eq(la.with(&[dv][..]), want)?;
                eq(la.with(Some(dv)), want)
            });
            if let Err(e) = r {
                m.violation(e, format!("style {a:?}, foreground {f:?}, background {b:?}, intensity {t:?}"));
                m.finish();
            }
        }
        let r = checked(|| {
            eq(la.with(()), a)?;
            eq(la.with(None::<Style>), a)?;
            let none: [Foreground; 0] = [];
            eq(la.with(&none[..]), a)?;
            eq(la.with(StyleDiff::default()), a)?;
            // a later one wins
            for c in 0..17u8 {
                for e in 0..17u8 {
                    let (x, y) = (COLORS[c as usize], COLORS[e as usize]);
                    eq(la.with((Foreground(x), Foreground(y))), S { fg: e, ..a })?;
                    eq(la.with(&[Background(x), Background(y)][..]), S { bg: e, ..a })?;
                    eq(la.with((Background(x), Foreground(y), Background(y))), S { fg: e, bg: e, ..a })?;
                    eq(la.with(Foreground(x)).with(Background(y)), S { fg: c, bg: e, ..a })?;
                }
            }
            for p in 0..3u8 {
                for q in 0..3u8 {
                    eq(la.with((INTENSITIES[p as usize], INTENSITIES[q as usize])), S { int: q, ..a })?;
                }
            }
            Ok(())
        });
        if let Err(e) = r {
            m.violation(e, format!("style {a:?}"));
            m.finish();
        }
    }
    m.exhaustive("each of the 1296 differences, as nine kinds of restyle, on each of the 867 styles");

    let mut r = m.rng(1);
    for i in 0..m.n(600_000, 20_000_000) {
        let depth = r.below(5);
        let re = gen::restyle(&mut r, depth);
        let a = gen::style(&mut r);
        let want = re.model(a);
        m.case(format!("{a:?}{re:?}").as_bytes(), re.depth() > 1);
        m.max("deepest composition", re.depth() as u64);
        m.count("composite restyles applied", 1);
        let f = |re: &R| {
            checked(|| {
                eq(a.lib().with(re), re.model(a))?;
                eq(re.apply(a.lib()), re.model(a))?;
                let dy: &dyn Restyle = re;
                eq(a.lib().with(dy), re.model(a))
            })
        };
        if let Err(e) = f(&re) {
            m.violation(e, format!("style {a:?}, restyle {re:?}, want {want:?}"));
        }
        m.sample(|| format!("{a:?} with {re:?} -> {want:?}"));
        if m.failed() || (i % 4096 == 0 && m.out_of_time()) {
            break;
        }
    }
    m.require("composite restyles applied");
    m.finish()
}
