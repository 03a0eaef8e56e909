//! C12: a styled string replays exactly what was written to it.
use crate::drive::{self, Back, Nested, NestedArgs};
use crate::gen::{self, Runs};
use crate::model::{chars_of, first_diff, Chars, DEF, N_STYLES, S};
use crate::mon::{checked, shrink, Mon};
use crate::rng::Rng;
use crate::sink::Styled;
use stylish::{Display, Formatter, ToStylishString, Write};

#[derive(Clone, Debug)]
enum Op {
    Str(usize, String, S),
    Char(usize, char, S),
    /// texts written through nested formatters
    Fmt(usize, Runs),
    Args(usize, Runs),
    Feed(usize, Runs, drive::Drv),
    /// first becomes a clone of second
    Clone(usize, usize),
    CloneFrom(usize, usize),
    /// second appended to first, under a formatter in some style
    Append(usize, usize, S),
    AppendSelf(usize),
    New(usize, usize),
    /// render into something that fails after some writes
    Failing(usize, usize),
    Render(usize, S, usize),
}

const SLOTS: usize = 4;

struct Under<'a>(&'a stylish::String, S);
impl Display for Under<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        self.0.fmt(&mut f.with(self.1.lib()))
    }
}

fn observe(s: &stylish::String, ambient: S, how: usize) -> Result<Chars, String> {
    let mut w = Styled::new();
    match how % 6 {
        0 => stylish::write!(w, "{:s}", Under(s, ambient)).map_err(|_| "rendering failed")?,
        1 => s.clone().to_stylish_string().to_stylish_string().render_into(&mut w)?,
        2 => {
            let mut t = stylish::String::new();
            stylish::write!(t, "{s:s}").map_err(|_| "rendering failed")?;
            t.render_into(&mut w)?;
        }
        3 => stylish::format!("{:s}", &&Under(s, ambient)).render_into(&mut w)?,
        4 => {
            let d: &dyn Display = s;
            stylish::format(stylish::format_args!("{:s}", d)).render_into(&mut w)?
        }
        _ => s.render_into(&mut w)?,
    }
    Ok(chars_of(&w.events))
}
trait RenderInto {
    fn render_into(&self, w: &mut Styled) -> Result<(), String>;
}
impl RenderInto for stylish::String {
    fn render_into(&self, w: &mut Styled) -> Result<(), String> {
        stylish::write!(w, "{:s}", self).map_err(|_| "rendering failed".to_string())
    }
}

fn want(got: Chars, w: &Chars, what: impl Fn() -> String) -> Result<(), String> {
    match first_diff(&got, w) {
        None => Ok(()),
        Some(d) => Err(format!("{}: {d}", what())),
    }
}

struct Seen {
    renders: u64,
    chars: u64,
}

fn run_ops(ops: &[Op], seen: &mut Seen) -> Result<(), String> {
    let mut slots: Vec<stylish::String> = (0..SLOTS).map(|_| stylish::String::new()).collect();
    let mut model: Vec<Chars> = vec![Vec::new(); SLOTS];
    let bad = |_| "a write into a styled string failed".to_string();
    for (k, op) in ops.iter().enumerate() {
        match op {
            Op::Str(i, t, s) => {
                slots[*i].write_str(t, s.lib()).map_err(bad)?;
                model[*i].extend(t.chars().map(|c| (c, *s)));
            }
            Op::Char(i, c, s) => {
                slots[*i].write_char(*c, s.lib()).map_err(bad)?;
                model[*i].push((*c, *s));
            }
            Op::Fmt(i, r) => {
                slots[*i].write_fmt(stylish::format_args!("{:s}", Nested(r))).map_err(bad)?;
                model[*i].extend(chars_of(r));
            }
            Op::Args(i, r) => {
                stylish::write!(slots[*i], "{:s}", NestedArgs(r)).map_err(bad)?;
                model[*i].extend(chars_of(r));
            }
            Op::Feed(i, r, d) => {
                drive::feed(&mut slots[*i], r, *d).map_err(bad)?;
                model[*i].extend(chars_of(r));
            }
            Op::Clone(i, j) => {
                slots[*i] = slots[*j].clone();
                model[*i] = model[*j].clone();
            }
            Op::CloneFrom(i, j) if i != j => {
                let t = std::mem::take(&mut slots[*i]);
                let mut t = t;
                t.clone_from(&slots[*j]);
                slots[*i] = t;
                model[*i] = model[*j].clone();
            }
            Op::CloneFrom(..) => {}
            Op::Append(i, j, s) if i != j => {
                let t = slots[*j].clone();
                stylish::write!(slots[*i], "{:s}", Under(&t, *s)).map_err(bad)?;
                let m = model[*j].clone();
                model[*i].extend(m);
            }
            Op::Append(..) => {}
            Op::AppendSelf(i) => {
                if model[*i].len() < 2000 {
                    let t = slots[*i].clone();
                    stylish::write!(slots[*i], "{:s}", t).map_err(bad)?;
                    let m = model[*i].clone();
                    model[*i].extend(m);
                }
            }
            Op::New(i, how) => {
                slots[*i] = if *how == 0 { stylish::String::new() } else { stylish::String::default() };
                model[*i].clear();
            }
            Op::Failing(i, n) => {
                let mut w = Styled::new();
                w.fail_at = Some(*n);
                let _ = stylish::write!(w, "{:s}", slots[*i]);
                let got = chars_of(&w.events);
                if !model[*i].starts_with(&got) {
                    want(got, &model[*i], || format!("op {k}: rendering of string {i} into a failing writer"))?;
                }
            }
            Op::Render(i, s, how) => {
                seen.renders += 1;
                let got = observe(&slots[*i], *s, *how)?;
                seen.chars += got.len() as u64;
                want(got, &model[*i], || format!("op {k}: rendering of string {i}"))?;
            }
        }
    }
    for i in 0..SLOTS {
        for how in 0..2 {
            seen.renders += 1;
            let got = observe(&slots[i], S { fg: 2, bg: 5, int: 1 }, how * 5)?;
            seen.chars += got.len() as u64;
            want(got, &model[i], || format!("at the end: rendering of string {i}"))?;
        }
        // and through a real writer
        if !model[i].is_empty() && !model[i].iter().any(|c| c.0 == '\x1b') {
            let runs: Runs = model[i].iter().map(|(c, s)| (c.to_string(), *s)).collect();
            drive::verify_style(Back::Ansi, &drive::render_value(Back::Ansi, &slots[i])?, &runs)?;
            drive::verify_style(Back::Html, &drive::render_value(Back::Html, &slots[i])?, &runs)?;
        }
    }
    Ok(())
}

fn op(r: &mut Rng, palette: &[S]) -> Op {
    let i = r.below(SLOTS);
    let st = |r: &mut Rng| if r.one_in(5) { gen::style(r) } else { *r.pick(palette) };
    let runs = |r: &mut Rng| -> Runs {
        let n = r.below(5);
        gen::script_n(r, None, n).into_iter().map(|(t, s)| (t.chars().take(20).collect(), s)).collect()
    };
    match r.below(22) {
        0..=6 => {
            let k = gen::kind(r);
            let t = if r.one_in(40) { gen::text(r, k) } else { gen::small_text(r, k) };
            Op::Str(i, t, st(r))
        }
        7 => {
            let k = gen::kind(r);
            Op::Char(i, gen::ch(r, k), st(r))
        }
        8 => Op::Fmt(i, runs(r)),
        9 => Op::Args(i, runs(r)),
        10 => Op::Feed(i, runs(r), *r.pick(&drive::DRVS)),
        11 => Op::Clone(i, r.below(SLOTS)),
        12 => Op::CloneFrom(i, r.below(SLOTS)),
        13 | 14 => Op::Append(i, r.below(SLOTS), st(r)),
        15 => Op::AppendSelf(i),
        16 if r.one_in(3) => Op::New(i, r.below(2)),
        17 => Op::Failing(i, r.below(4)),
        _ => Op::Render(i, gen::style(r), r.below(6)),
    }
}

pub fn run(mut m: Mon) -> ! {
    let mut seen = Seen { renders: 0, chars: 0 };
    for i in 0..N_STYLES {
        for j in 0..N_STYLES {
            let runs = [("aé".to_string(), S::nth(i)), ("☎b".to_string(), S::nth(j))];
            let r = checked(|| {
                let s = crate::doc::styled_string(&runs);
                seen.renders += 1;
                want(observe(&s, S::nth((i + j) % N_STYLES), 0)?, &chars_of(&runs), || "two writes".into())
            });
            m.case(&[(i >> 8) as u8, i as u8, (j >> 8) as u8, j as u8], i != j);
            if let Err(e) = r {
                m.violation(e, gen::show(&runs));
                m.finish();
            }
        }
    }
    m.exhaustive("all ordered pairs of the 867 styles as consecutive writes");
    // all sequences of up to 5 (6) writes over a small alphabet of texts and styles
    let texts = ["", "a", "é☎"];
    let styles = [DEF, S { fg: 1, ..DEF }, S { int: 1, ..DEF }];
    let (k, max) = (texts.len() * styles.len(), if m.thorough { 6 } else { 5 });
    for len in 0..=max {
        for n in 0..k.pow(len) {
            let mut x = n;
            let runs: Runs = (0..len)
                .map(|_| {
                    let y = x % k;
                    x /= k;
                    (texts[y % 3].to_string(), styles[y / 3])
                })
                .collect();
            m.case(&gen::key(&runs), true);
            let r = checked(|| {
                let s = crate::doc::styled_string(&runs);
                seen.renders += 1;
                want(observe(&s, styles[n % 3], 0)?, &chars_of(&runs), || "writes".into())
            });
            if let Err(e) = r {
                m.violation(e, gen::show(&runs));
                m.finish();
            }
        }
    }
    m.exhaustive(&format!("all sequences of up to {max} writes over 3 texts (one empty) and 3 styles"));
    let mut r = m.rng(1);
    for i in 0..m.n(60_000, 3_000_000) {
        let palette: Vec<S> = (0..r.range(1, 3)).map(|_| gen::style(&mut r)).collect();
        let n = if r.one_in(50) { r.range(50, 300) } else { r.range(1, 25) };
        let ops: Vec<Op> = (0..n).map(|_| op(&mut r, &palette)).collect();
        m.case(format!("{ops:?}").as_bytes(), n > 2);
        m.count("operations", n as u64);
        let res = checked(|| run_ops(&ops, &mut seen));
        if res.is_err() {
            let mut dummy = Seen { renders: 0, chars: 0 };
            let min = shrink(ops, |o| checked(|| run_ops(o, &mut dummy)).is_err());
            m.violation(checked(|| run_ops(&min, &mut dummy)).err().unwrap_or_default(), format!("{min:?}"));
            m.finish();
        }
        m.sample(|| format!("{ops:?}"));
        if i % 1024 == 0 && m.out_of_time() {
            break;
        }
    }
    m.count("renderings observed", seen.renders);
    m.count("styled characters compared", seen.chars);
    m.require("styled characters compared");
    m.finish()
}
