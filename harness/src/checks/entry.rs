//! C18: all ways to render the same value give the same output.
use crate::doc::{self, Doc};
use crate::drive::{self, Back};
use crate::gen::{self, Text};
use crate::mon::{checked, Mon};
use crate::sink::{FmtSink, IoSink};
use std::fmt::Write as _;
use stylish::Write as _;
use std::io::Write as _;
use stylish::{Display, Formatter, ToAnsiString, ToHtmlString, ToPlainString, ToStylishString};

/// hands the value on to another formatter
struct Proxy<'a>(&'a dyn Display);
impl Display for Proxy<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        self.0.fmt(f)
    }
}
/// a user's generic code over writers
fn generic<W: stylish::Write>(mut w: W, d: &Doc) -> stylish::Result {
    w.write_fmt(stylish::format_args!("{:s}", d))
}
fn generic_ref<W: stylish::Write + ?Sized>(w: &mut W, d: &Doc) -> stylish::Result {
    stylish::write!(w, "{:s}", d)
}
fn generic_io<W: stylish::io::Write>(mut w: W, d: &Doc) -> stylish::io::Result<()> {
    w.write_fmt(stylish::format_args!("{:s}", d))
}
fn generic_io_ref<W: stylish::io::Write + ?Sized>(w: &mut W, d: &Doc) -> stylish::io::Result<()> {
    stylish::write!(w, "{:s}", d)
}

type Outs = Vec<(&'static str, Vec<u8>)>;

/// Ways shared by all fmt writers; $finish takes the writer to its output
macro_rules! fmt_ways {
    ($outs:ident, $d:ident, $new:path, $alias:path, $ty:ident, $finish:ident) => {{
        let bad = |_| "failed".to_string();
        macro_rules! way {
            ($name:literal, $w:ident => $body:expr) => {{
                #[allow(unused_mut)]
                let mut $w = $new(String::new());
                $body.map_err(bad).map_err(|e: String| format!("{}: {e}", $name))?;
                $outs.push(($name, $finish!($w)));
            }};
        }
        way!("write!", w => stylish::write!(w, "{:s}", $d));
        way!("write! with inline name", w => stylish::write!(w, "{d:s}", d = $d));
        way!("write! captured", w => stylish::write!(w, "{0:s}{1}", $d, ""));
        way!("inherent write_fmt", w => w.write_fmt(stylish::format_args!("{:s}", $d)));
        way!("Write::write_fmt", w => stylish::Write::write_fmt(&mut w, stylish::format_args!("{:s}", $d)));
        way!("generic by value of reference", w => generic(&mut w, $d));
        way!("generic by nested reference", w => generic(&mut &mut &mut w, $d));
        way!("generic reference", w => generic_ref(&mut w, $d));
        way!("dyn Write", w => { let w: &mut dyn stylish::Write = &mut w; stylish::write!(w, "{:s}", $d) });
        way!("generic over dyn Write", w => { let w: &mut dyn stylish::Write = &mut w; generic_ref(w, $d) });
        way!("reference to dyn Write", w => { let mut w: &mut dyn stylish::Write = &mut w; generic(&mut w, $d) });
        way!("Box<dyn Display>", w => { let d: Box<dyn Display> = Box::new($d.clone()); stylish::write!(w, "{:s}", &*d) });
        way!("dyn Display", w => { let d: &dyn Display = $d; stylish::write!(w, "{:s}", d) });
        way!("proxy value", w => stylish::write!(w, "{:s}", Proxy($d)));
        way!("nested format_args", w => w.write_fmt(stylish::format_args!("{:s}", stylish::format_args!("{:s}", stylish::format_args!("{}{:s}", "", $d)))));
        way!("styled string", w => { let s = stylish::format!("{:s}", $d); stylish::write!(w, "{:s}", s) });
        way!("to_stylish_string", w => stylish::write!(w, "{:s}", $d.to_stylish_string()));
        way!("events of a recording writer", w => {
            let mut rec = crate::sink::Styled::new();
            stylish::write!(rec, "{:s}", $d).map_err(|_| stylish::Error).and_then(|()| {
                rec.events.iter().try_for_each(|(t, s)| stylish::Write::write_str(&mut w, t, s.lib()))
            })
        });
        {
            let mut w = $alias(String::new());
            stylish::write!(w, "{:s}", $d).map_err(bad)?;
            $outs.push(("alias function", $finish!(w)));
            let mut w = stylish::$ty::<String>::default();
            stylish::write!(w, "{:s}", $d).map_err(bad)?;
            $outs.push(("Default", $finish!(w)));
            let mut w = stylish::$ty::<String>::default().clone();
            stylish::write!(w, "{:s}", $d).map_err(bad)?;
            $outs.push(("clone of the finished writer", $finish!((w.clone()))));
            $outs.push(("finished writer that was cloned", $finish!(w)));
            let mut s = String::new();
            let mut w = $new(&mut s);
            stylish::write!(w, "{:s}", $d).map_err(bad)?;
            $finish!(@drop w);
            $outs.push(("over &mut String", s.into_bytes()));
            let mut s = String::new();
            let dy: &mut dyn std::fmt::Write = &mut s;
            let mut w = $new(dy);
            stylish::write!(w, "{:s}", $d).map_err(bad)?;
            $finish!(@drop w);
            $outs.push(("over &mut dyn fmt::Write", s.into_bytes()));
            let s = FmtSink::new();
            let mut w = $new(s.clone());
            stylish::write!(w, "{:s}", $d).map_err(bad)?;
            $finish!(@drop w);
            $outs.push(("over a user's sink", s.text().into_bytes()));
        }
        // piece by piece
        if let (Doc::Seq(c, _), false) = ($d, matches!($d, Doc::Seq(_, doc::Via::Lines))) {
            way!("piece by piece", w => c.iter().try_for_each(|x| stylish::write!(w, "{:s}", x)));
        }
    }};
}
macro_rules! fin {
    (@drop $w:ident) => {
        $w.finish().map_err(|_| "finish failed")?
    };
    ($w:tt) => {
        $w.finish().map_err(|_| "finish failed")?.into_bytes()
    };
}
macro_rules! inner {
    (@drop $w:ident) => {
        $w.into_inner()
    };
    ($w:tt) => {
        $w.into_inner().into_bytes()
    };
}
macro_rules! io_fin {
    ($w:tt) => {
        $w.finish().map_err(|e| format!("finish: {e}"))?
    };
}
macro_rules! io_inner {
    ($w:tt) => {
        $w.into_inner()
    };
}
macro_rules! io_ways {
    ($outs:ident, $d:ident, $new:path, $alias:path, $ty:ident, $finish:ident) => {{
        macro_rules! way {
            ($name:literal, $w:ident => $body:expr) => {{
                let mut $w = $new(Vec::new());
                $body.map_err(|e| format!("{}: {e}", $name))?;
                $outs.push(($name, $finish!($w)));
            }};
        }
        way!("io write!", w => stylish::write!(w, "{:s}", $d));
        way!("io inherent write_fmt", w => w.write_fmt(stylish::format_args!("{:s}", $d)));
        way!("io::Write::write_fmt", w => stylish::io::Write::write_fmt(&mut w, stylish::format_args!("{:s}", $d)));
        way!("io by_ref", w => stylish::write!(stylish::io::Write::by_ref(&mut w), "{:s}", $d));
        way!("io generic", w => generic_io(&mut w, $d));
        way!("io generic by nested reference", w => generic_io(&mut &mut &mut w, $d));
        way!("io generic reference", w => generic_io_ref(&mut w, $d));
        way!("dyn io::Write", w => { let w: &mut dyn stylish::io::Write = &mut w; stylish::write!(w, "{:s}", $d) });
        way!("generic over dyn io::Write", w => { let w: &mut dyn stylish::io::Write = &mut w; generic_io_ref(w, $d) });
        way!("reference to dyn io::Write", w => { let mut w: &mut dyn stylish::io::Write = &mut w; generic_io(&mut w, $d) });
        way!("io dyn Display", w => { let d: &dyn Display = $d; stylish::write!(w, "{:s}", d) });
        way!("io styled string", w => stylish::write!(w, "{:s}", stylish::format(stylish::format_args!("{:s}", $d))));
        way!("io with flushes", w => stylish::io::Write::flush(&mut w).and_then(|()| stylish::write!(w, "{:s}", $d)).and_then(|()| stylish::io::Write::flush(&mut w)));
        way!("io write_all of recorded events", w => {
            let mut rec = crate::sink::Styled::new();
            let _ = stylish::write!(rec, "{:s}", $d);
            rec.events.iter().try_for_each(|(t, s)| stylish::io::Write::write_all(&mut w, t.as_bytes(), s.lib()))
        });
        {
            let mut w = $alias(Vec::new());
            stylish::write!(w, "{:s}", $d).map_err(|e| e.to_string())?;
            $outs.push(("io alias function", $finish!(w)));
            let mut w = stylish::io::$ty::<Vec<u8>>::default();
            stylish::write!(w, "{:s}", $d).map_err(|e| e.to_string())?;
            $outs.push(("io clone", $finish!((w.clone()))));
            let mut v = Vec::new();
            let mut w = $new(&mut v);
            stylish::write!(w, "{:s}", $d).map_err(|e| e.to_string())?;
            let _ = $finish!(w);
            $outs.push(("over &mut Vec", v));
            let mut v = Vec::new();
            let dy: &mut dyn std::io::Write = &mut v;
            let mut w = $new(dy);
            stylish::write!(w, "{:s}", $d).map_err(|e| e.to_string())?;
            let _ = $finish!(w);
            $outs.push(("over &mut dyn io::Write", v));
            let mut w = $new(std::io::BufWriter::with_capacity(7, Vec::new()));
            stylish::write!(w, "{:s}", $d).map_err(|e| e.to_string())?;
            let mut b = $finish!(w);
            b.flush().map_err(|e| e.to_string())?;
            $outs.push(("over BufWriter", b.into_inner().map_err(|e| e.to_string())?));
            let mut w = $new(std::io::LineWriter::new(Vec::new()));
            stylish::write!(w, "{:s}", $d).map_err(|e| e.to_string())?;
            let b = $finish!(w);
            $outs.push(("over LineWriter", b.into_inner().map_err(|e| e.to_string())?));
            let s = IoSink::new();
            let mut w = $new(s.clone());
            stylish::write!(w, "{:s}", $d).map_err(|e| e.to_string())?;
            let _ = $finish!(w);
            $outs.push(("over a user's io sink", s.bytes()));
            let mut w = $new(std::io::Cursor::new(Vec::new()));
            stylish::write!(w, "{:s}", $d).map_err(|e| e.to_string())?;
            let b = $finish!(w);
            $outs.push(("over Cursor", b.into_inner()));
        }
    }};
}

fn all(family: usize, d: &Doc) -> Result<Outs, String> {
    let mut o: Outs = Vec::new();
    match family {
        0 => {
            o.push(("format!", stylish_ansi_format(d).into()));
            o.push(("format", stylish::ansi::format(stylish::format_args!("{:s}", d)).into()));
            o.push(("to_ansi_string", d.to_ansi_string().into()));
            o.push(("to_ansi_string of a reference", (&&d).to_ansi_string().into()));
            o.push(("to_ansi_string of dyn Display", (d as &dyn Display).to_ansi_string().into()));
            o.push(("to_ansi_string of Arguments", stylish::format_args!("{:s}", d).to_ansi_string().into()));
            o.push(("to_ansi_string of a styled string", d.to_stylish_string().to_ansi_string().into()));
            fmt_ways!(o, d, stylish::Ansi::new, stylish::ansi, Ansi, fin);
            io_ways!(o, d, stylish::io::Ansi::new, stylish::io::ansi, Ansi, io_fin);
        }
        1 => {
            o.push(("format!", stylish::html::format!("{:s}", d).into()));
            o.push(("format", stylish::html::format(stylish::format_args!("{:s}", d)).into()));
            o.push(("to_html_string", d.to_html_string().into()));
            o.push(("to_html_string of a reference", (&&d).to_html_string().into()));
            o.push(("to_html_string of dyn Display", (d as &dyn Display).to_html_string().into()));
            o.push(("to_html_string of Arguments", stylish::format_args!("{:s}", d).to_html_string().into()));
            o.push(("to_html_string of a styled string", d.to_stylish_string().to_html_string().into()));
            fmt_ways!(o, d, stylish::Html::new, stylish::html, Html, fin);
        }
        2 => {
            o.push(("format!", stylish::plain::format!("{:s}", d).into()));
            o.push(("format", stylish::plain::format(stylish::format_args!("{:s}", d)).into()));
            o.push(("to_plain_string", d.to_plain_string().into()));
            o.push(("to_plain_string of a reference", (&&d).to_plain_string().into()));
            o.push(("to_plain_string of dyn Display", (d as &dyn Display).to_plain_string().into()));
            o.push(("to_plain_string of Arguments", stylish::format_args!("{:s}", d).to_plain_string().into()));
            o.push(("to_plain_string of a styled string", d.to_stylish_string().to_plain_string().into()));
            fmt_ways!(o, d, stylish::Plain::new, stylish::plain, Plain, inner);
            io_ways!(o, d, stylish::io::Plain::new, stylish::io::plain, Plain, io_inner);
        }
        _ => {
            // styled strings, seen through the ANSI writer
            let a = |s: stylish::String| drive::render_value(Back::Ansi, &s);
            o.push(("stylish::format!", a(stylish::format!("{:s}", d))?));
            o.push(("stylish::format", a(stylish::format(stylish::format_args!("{:s}", d)))?));
            o.push(("to_stylish_string", a(d.to_stylish_string())?));
            o.push(("to_stylish_string of dyn Display", a((d as &dyn Display).to_stylish_string())?));
            let mut s = stylish::String::new();
            stylish::Write::write_fmt(&mut s, stylish::format_args!("{:s}", d)).map_err(|_| "write failed")?;
            o.push(("write_fmt into a styled string", a(s)?));
            let mut s = stylish::String::default();
            generic(&mut s, d).map_err(|_| "write failed")?;
            o.push(("generic into a styled string", a(s.clone())?));
            let mut f = stylish::String::new();
            {
                let w: &mut dyn stylish::Write = &mut f;
                stylish::write!(w, "{:s}", s).map_err(|_| "write failed")?;
            }
            o.push(("styled string into dyn styled string", a(f)?));
            o.push(("the value itself", drive::render_value(Back::Ansi, d)?));
        }
    }
    Ok(o)
}
fn stylish_ansi_format(d: &Doc) -> String {
    stylish::ansi::format!("{:s}", d)
}

fn lines(family: usize, d: &Doc) -> Result<Outs, String> {
    let bad = |_| "failed".to_string();
    let mut o: Outs = Vec::new();
    macro_rules! nl {
        ($new:path, $finish:ident) => {{
            let mut w = $new(String::new());
            stylish::write!(w, "{:s}{}", d, "\n").map_err(bad)?;
            o.push(("write! and a newline", $finish!(w)));
            let mut w = $new(String::new());
            stylish::write!(w, "{:s}\n", d).map_err(bad)?;
            o.push(("write! with a newline in the literal", $finish!(w)));
            let mut w = $new(String::new());
            stylish::writeln!(w, "{:s}", d).map_err(bad)?;
            o.push(("writeln!", $finish!(w)));
            let mut w = $new(String::new());
            stylish::writeln!(w, "{d:s}", d = d).map_err(bad)?;
            o.push(("writeln! named", $finish!(w)));
            let mut w = $new(String::new());
            stylish::write!(w, "{:s}", d).map_err(bad)?;
            stylish::writeln!(w).map_err(bad)?;
            o.push(("writeln! of nothing", $finish!(w)));
            let mut w = $new(String::new());
            stylish::write!(w, "{:s}", d).map_err(bad)?;
            stylish::writeln!(w, "").map_err(bad)?;
            o.push(("writeln! of an empty string", $finish!(w)));
            let mut w = $new(String::new());
            {
                let w: &mut dyn stylish::Write = &mut w;
                stylish::writeln!(w, "{0:s}", d,).map_err(bad)?;
            }
            o.push(("writeln! into dyn Write", $finish!(w)));
            let mut w = $new(String::new());
            struct L<'a>(&'a Doc);
            impl Display for L<'_> {
                fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
                    stylish::writeln!(f, "{:s}", self.0)
                }
            }
            stylish::write!(w, "{:s}", L(d)).map_err(bad)?;
            o.push(("writeln! into a formatter", $finish!(w)));
        }};
    }
    macro_rules! io_nl {
        ($new:path, $finish:ident) => {{
            let mut w = $new(Vec::new());
            stylish::writeln!(w, "{:s}", d).map_err(|e| e.to_string())?;
            o.push(("io writeln!", $finish!(w)));
            let mut w = $new(Vec::new());
            stylish::write!(w, "{:s}", d).map_err(|e| e.to_string())?;
            stylish::writeln!(w).map_err(|e| e.to_string())?;
            o.push(("io writeln! of nothing", $finish!(w)));
            let mut w = $new(Vec::new());
            {
                let mut w: &mut dyn stylish::io::Write = &mut w;
                stylish::writeln!(&mut w, "{d:s}").map_err(|e| e.to_string())?;
            }
            o.push(("writeln! into dyn io::Write", $finish!(w)));
        }};
    }
    match family {
        0 => {
            nl!(stylish::Ansi::new, fin);
            io_nl!(stylish::io::Ansi::new, io_fin);
        }
        1 => nl!(stylish::Html::new, fin),
        2 => {
            nl!(stylish::Plain::new, inner);
            io_nl!(stylish::io::Plain::new, io_inner);
        }
        _ => {}
    }
    if family < 3 {
        // the newline is in the style around the format string
        let b = [Back::Ansi, Back::Html, Back::Plain][family];
        let both = Doc::Seq(vec![d.clone(), Doc::Text("\n".into(), doc::TextVia::WriteStr)], doc::Via::Each);
        o.push(("the value followed by a newline", drive::render_value(b, &both)?));
    }
    Ok(o)
}

/// Writers over writers: a formatter as the sink of another writer
fn layered(d: &Doc) -> Result<(), String> {
    struct Inner<'a>(&'a Doc);
    impl Display for Inner<'_> {
        fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
            let mut w = stylish::Ansi::new(&mut *f);
            stylish::write!(w, "{:s}", self.0)?;
            w.finish()?;
            Ok(())
        }
    }
    let mut w = stylish::Plain::new(String::new());
    stylish::write!(w, "{:s}", Inner(d)).map_err(|_| "write failed")?;
    let via = w.into_inner();
    let direct = d.to_ansi_string();
    if via != direct {
        return Err(format!("ANSI over a formatter over plain text gives {via:?} instead of {direct:?}"));
    }
    let mut s = String::new();
    write!(s, "{}", stylish::plain::format!("{:s}", d)).unwrap();
    if s != crate::model::text_of(&d.runs()) {
        return Err(format!("plain text {s:?}"));
    }
    Ok(())
}

fn check(family: usize, d: &Doc) -> Result<u64, String> {
    let mut n = 0;
    for (kind, o) in [("", all(family, d)?), ("with newline ", lines(family, d)?)] {
        n += o.len() as u64;
        for (name, out) in o.iter().skip(1) {
            if *out != o[0].1 {
                return Err(format!(
                    "{kind}{name} gives {:?}, {} gives {:?}",
                    String::from_utf8_lossy(out),
                    o[0].0,
                    String::from_utf8_lossy(&o[0].1)
                ));
            }
        }
    }
    if family == 0 {
        layered(d)?;
        n += 1;
    }
    Ok(n)
}

pub fn run(mut m: Mon) -> ! {
    let mut r = m.rng(1);
    let mut extra = vec![
        Doc::Seq(vec![], doc::Via::Each),
        Doc::Text(String::new(), doc::TextVia::WriteStr),
        Doc::Text("\n".into(), doc::TextVia::WriteStr),
        Doc::With(crate::model::R::Fg(1), vec![Doc::Text("a\n".into(), doc::TextVia::WriteStr)], doc::Via::Each),
    ];
    for i in 0..m.n(9_000, 500_000) {
        let d = extra.pop().unwrap_or_else(|| {
            let k = *r.pick(&[None, Some(Text::Html), Some(Text::Ascii), Some(Text::Raw), Some(Text::Unicode)]);
            if r.one_in(3) {
                let n = r.below(6);
                let c: Vec<Doc> = (0..n)
                    .map(|_| {
                        let mut b = 8;
                        doc::gen_d(&mut r, k, 2, &mut b)
                    })
                    .collect();
                Doc::Seq(c, doc::Via::Each)
            } else {
                doc::gen(&mut r, k)
            }
        });
        for family in 0..4 {
            m.case(&[doc::key(&d), vec![family as u8]].concat(), d.runs().iter().any(|x| !x.0.is_empty() && !x.1.is_default()));
            let mut n = 0;
            let res = checked(|| {
                n = check(family, &d)?;
                Ok(())
            });
            m.count("outputs compared", n);
            m.max("ways compared for one value and backend", n);
            if res.is_err() {
                let min = doc::shrink(&d, |d| checked(|| check(family, d).map(|_| ())).is_err());
                let e = checked(|| check(family, &min).map(|_| ())).err().unwrap_or_default();
                m.violation(format!("{}: {e}", ["ANSI", "HTML", "plain", "styled string"][family]), format!("{min:?} = {}", gen::show(&min.runs())));
                m.finish();
            }
        }
        m.sample(|| format!("{d:?}"));
        if i % 64 == 0 && m.out_of_time() {
            break;
        }
    }
    m.require("outputs compared");
    m.finish()
}
