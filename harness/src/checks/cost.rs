//! C25: the workloads whose cost is measured from outside, instruction by instruction.
//! Each is made of n equal parts; run.py runs it at n, 2n and 4n under valgrind.
use crate::model::{R, S};
use std::fmt;
use std::io as sio;
use stylish::{Display, Formatter, Restyle, Style, Write as _};

/// Keeps nothing but counts
#[derive(Default, Clone)]
struct Tally {
    calls: u64,
    bytes: u64,
    /// accepts one byte at a time, and is interrupted now and then
    slow: bool,
    /// refuses every text with a '!'
    refuses: bool,
}
impl Tally {
    fn take(&mut self, b: &[u8]) -> bool {
        self.calls += 1;
        if self.refuses && b.first() == Some(&b'!') {
            return false;
        }
        self.bytes += b.len() as u64;
        true
    }
}
impl fmt::Write for Tally {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.take(s.as_bytes()) {
            Ok(())
        } else {
            Err(fmt::Error)
        }
    }
}
impl sio::Write for Tally {
    fn write(&mut self, b: &[u8]) -> sio::Result<usize> {
        if !self.slow {
            return if self.take(b) { Ok(b.len()) } else { Err(sio::ErrorKind::BrokenPipe.into()) };
        }
        self.calls += 1;
        if self.calls % 3 == 0 {
            return Err(sio::ErrorKind::Interrupted.into());
        }
        self.bytes += b.len().min(1) as u64;
        Ok(b.len().min(1))
    }
    fn flush(&mut self) -> sio::Result<()> {
        Ok(())
    }
}
impl stylish::Write for Tally {
    fn write_str(&mut self, s: &str, _: Style) -> stylish::Result {
        if self.take(s.as_bytes()) {
            Ok(())
        } else {
            Err(fmt::Error)
        }
    }
}

enum W {
    Ansi(stylish::Ansi<Tally>),
    Html(stylish::Html<Tally>),
    Plain(stylish::Plain<Tally>),
    IoAnsi(stylish::io::Ansi<Tally>),
    IoPlain(stylish::io::Plain<Tally>),
    String(stylish::String),
    User(Tally),
}
const TS: [&str; 7] = ["ansi", "html", "plain", "io-ansi", "io-plain", "string", "user"];
impl W {
    fn new(t: &str, slow: bool, refuses: bool) -> W {
        let s = Tally { slow, refuses, ..Tally::default() };
        match t {
            "ansi" => W::Ansi(stylish::Ansi::new(s)),
            "html" => W::Html(stylish::Html::new(s)),
            "plain" => W::Plain(stylish::Plain::new(s)),
            "io-ansi" => W::IoAnsi(stylish::io::Ansi::new(s)),
            "io-plain" => W::IoPlain(stylish::io::Plain::new(s)),
            "string" => W::String(stylish::String::new()),
            "user" => W::User(s),
            _ => panic!("no writer {t}"),
        }
    }
    fn put(&mut self, t: &str, s: Style) -> bool {
        match self {
            W::Ansi(w) => stylish::Write::write_str(w, t, s).is_ok(),
            W::Html(w) => stylish::Write::write_str(w, t, s).is_ok(),
            W::Plain(w) => stylish::Write::write_str(w, t, s).is_ok(),
            W::String(w) => stylish::Write::write_str(w, t, s).is_ok(),
            W::User(w) => stylish::Write::write_str(w, t, s).is_ok(),
            W::IoAnsi(w) => stylish::io::Write::write_all(w, t.as_bytes(), s).is_ok(),
            W::IoPlain(w) => stylish::io::Write::write_all(w, t.as_bytes(), s).is_ok(),
        }
    }
    fn single(&mut self, t: &str, s: Style) -> bool {
        match self {
            W::Ansi(w) => t.chars().all(|c| stylish::Write::write_char(w, c, s).is_ok()),
            W::Html(w) => t.chars().all(|c| stylish::Write::write_char(w, c, s).is_ok()),
            W::Plain(w) => t.chars().all(|c| stylish::Write::write_char(w, c, s).is_ok()),
            W::String(w) => t.chars().all(|c| stylish::Write::write_char(w, c, s).is_ok()),
            W::User(w) => t.chars().all(|c| stylish::Write::write_char(w, c, s).is_ok()),
            W::IoAnsi(w) => stylish::io::Write::write(w, t.as_bytes(), s).is_ok(),
            W::IoPlain(w) => stylish::io::Write::write(w, t.as_bytes(), s).is_ok(),
        }
    }
    fn show(&mut self, v: &dyn Display) -> bool {
        match self {
            W::Ansi(w) => stylish::write!(w, "{:s}", v).is_ok(),
            W::Html(w) => stylish::write!(w, "{:s}", v).is_ok(),
            W::Plain(w) => stylish::write!(w, "{:s}", v).is_ok(),
            W::String(w) => stylish::write!(w, "{:s}", v).is_ok(),
            W::User(w) => stylish::Write::write_fmt(w, stylish::format_args!("{:s}", v)).is_ok(),
            W::IoAnsi(w) => stylish::write!(w, "{:s}", v).is_ok(),
            W::IoPlain(w) => stylish::write!(w, "{:s}", v).is_ok(),
        }
    }
    fn done(self) -> Tally {
        match self {
            W::Ansi(w) => w.finish().unwrap_or_default(),
            W::Html(w) => w.finish().unwrap_or_default(),
            W::Plain(w) => w.into_inner(),
            W::IoAnsi(w) => w.finish().unwrap_or_default(),
            W::IoPlain(w) => w.into_inner(),
            W::User(w) => w,
            W::String(s) => {
                // it is read once more
                let mut t = Tally::default();
                let _ = stylish::Write::write_fmt(&mut t, stylish::format_args!("{:s}", s));
                t
            }
        }
    }
}
fn styles() -> [Style; 4] {
    [S { fg: 1, bg: 16, int: 0 }, S { fg: 1, bg: 3, int: 1 }, S { fg: 16, bg: 16, int: 0 }, S { fg: 9, bg: 12, int: 2 }].map(S::lib)
}

/// n parts one after the other
struct Wide<'a>(usize, &'a str);
impl Display for Wide<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        let s = styles();
        for i in 0..self.0 {
            f.with(s[i % 4]).write_str(self.1)?;
        }
        Ok(())
    }
}
/// the same, each through a macro
struct WideArgs<'a>(usize, &'a str);
impl Display for WideArgs<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        for i in 0..self.0 {
            stylish::write!(f, "<{:(fg=red)}{:>5(bold,bg=blue)?}{:#x}>", self.1, i % 7, i % 9)?;
        }
        Ok(())
    }
}
/// n levels, with text before and after on each
struct Deep(usize, u8);
impl Display for Deep {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        if self.0 == 0 {
            return f.write_str("core");
        }
        let s = styles()[self.0 % 4];
        let below = Deep(self.0 - 1, self.1);
        match self.1 {
            0 => {
                let mut f = f.with(s);
                f.write_str("a")?;
                below.fmt(&mut f)?;
                f.write_str("b")
            }
            1 => stylish::write!(f, "a{:(bold,fg=red)s}b", below),
            2 => {
                let mut f = f.with(Some(stylish::Intensity::Bold));
                let w: &mut dyn stylish::Write = &mut f;
                w.write_str("a", s)?;
                w.write_fmt(stylish::format_args!("{:s}", below))?;
                w.write_char('b', s)
            }
            3 => {
                f.with(s).write_str("a")?;
                f.write_fmt(stylish::format_args!("{0:s}", &&&below))?;
                stylish::write!(f.with(()), "{:(faint)}", "b")
            }
            _ => {
                core::fmt::Write::write_str(f, "a")?;
                let below: &dyn Display = &below;
                stylish::write!(f.with((s, None::<Style>)), "{below:s}")?;
                core::fmt::Write::write_fmt(f, format_args!("{}", 'b'))
            }
        }
    }
}
/// as many values as there are levels, at the lowest
struct Bottom(usize, usize);
impl Display for Bottom {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        if self.0 == 0 {
            for i in 0..self.1 {
                stylish::write!(f, "{}", i % 10)?;
            }
            return Ok(());
        }
        stylish::write!(f.with(styles()[self.0 % 4]), "{:s}", Bottom(self.0 - 1, self.1))
    }
}
/// a std value of n parts
struct Parts(usize);
impl fmt::Display for Parts {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (0..self.0).try_for_each(|i| if i % 2 == 0 { f.write_str("part") } else { write!(f, "{:>3}", i % 10) })
    }
}
impl fmt::Debug for Parts {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries((0..self.0).map(|i| i % 10)).finish()
    }
}
struct Padded(usize);
impl Display for Padded {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        (0..self.0).try_for_each(|i| stylish::write!(f, "{:>40}{:<40(fg=red)}{:^40.3(bold)}{:050}", "é", i % 10, "<&>", 1))
    }
}
struct Std<T>(T, bool);
impl<T: fmt::Display + fmt::Debug> Display for Std<T> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        if self.1 {
            stylish::write!(f, "{:(fg=red)?}{:#?}", self.0, self.0)
        } else {
            stylish::write!(f, "{:(fg=red)}{}", self.0, self.0)
        }
    }
}

/// what is done, how many times at the least, for which writers
type Family = (&'static str, usize, &'static [&'static str], fn(&str, usize) -> Tally);
fn simple(t: &str, f: impl FnOnce(&mut W)) -> Tally {
    let mut w = W::new(t, false, false);
    f(&mut w);
    w.done()
}
fn families() -> Vec<Family> {
    let all = &TS[..];
    const IO: &[&str] = &["io-ansi", "io-plain"];
    vec![
        ("one long text", 100_000, all, |t, n| simple(t, |w| assert!(w.put(&"text of a line\n".repeat(n / 10), styles()[0])))),
        ("one text of special characters", 20_000, all, |t, n| simple(t, |w| assert!(w.put(&"<&>\"'".repeat(n), styles()[0])))),
        ("texts in one style", 20_000, all, |t, n| simple(t, |w| (0..n).for_each(|_| assert!(w.put("a text", styles()[0]))))),
        ("texts in changing styles", 12_000, all, |t, n| simple(t, |w| (0..n).for_each(|i| assert!(w.put("a text", styles()[i % 4]))))),
        ("empty texts in changing styles", 20_000, all, |t, n| simple(t, |w| (0..n).for_each(|i| assert!(w.put("", styles()[i % 4]))))),
        ("single characters", 12_000, all, |t, n| simple(t, |w| (0..n).for_each(|i| assert!(w.single("a<", styles()[i / 8 % 4]))))),
        ("renderings", 6_000, all, |t, n| simple(t, |w| (0..n).for_each(|_| assert!(w.show(&Wide(3, "x")))))),
        ("a value of many parts", 12_000, all, |t, n| simple(t, |w| assert!(w.show(&Wide(n, "a<b"))))),
        ("a value of many placeholders", 4_000, all, |t, n| simple(t, |w| assert!(w.show(&WideArgs(n, "x"))))),
        ("std values of many parts", 8_000, all, |t, n| simple(t, |w| assert!(w.show(&Std(Parts(n), false))))),
        ("debug output of many parts", 3_000, all, |t, n| simple(t, |w| assert!(w.show(&Std(Parts(n), true))))),
        ("padding", 1_500, all, |t, n| simple(t, |w| assert!(w.show(&Padded(n))))),
        ("levels of sub-formatters", 2_000, all, |t, n| simple(t, |w| assert!(w.show(&Deep(n, 0))))),
        ("levels of placeholders", 2_000, all, |t, n| simple(t, |w| assert!(w.show(&Deep(n, 1))))),
        ("levels of writers", 2_000, all, |t, n| simple(t, |w| assert!(w.show(&Deep(n, 2))))),
        ("levels of references", 2_000, all, |t, n| simple(t, |w| assert!(w.show(&Deep(n, 3))))),
        ("levels of trait objects", 2_000, all, |t, n| simple(t, |w| assert!(w.show(&Deep(n, 4))))),
        ("parts below as many levels", 1_500, all, |t, n| simple(t, |w| assert!(w.show(&Bottom(n, 4 * n))))),
        ("finished writers", 4_000, all, |t, n| {
            let mut sum = Tally::default();
            for i in 0..n {
                let x = simple(t, |w| assert!(w.put("a", styles()[i % 4])));
                sum.calls += x.calls;
                sum.bytes += x.bytes;
            }
            sum
        }),
        ("texts that are refused", 8_000, &["ansi", "html", "plain", "io-ansi", "io-plain", "user"], |t, n| {
            let mut w = W::new(t, false, true);
            (0..n).for_each(|i| assert_eq!(w.put(["a", "!", "b"][i % 3], styles()[i % 4]), i % 3 != 1));
            w.done()
        }),
        ("slow sinks, texts", 3_000, IO, |t, n| {
            let mut w = W::new(t, true, false);
            (0..n).for_each(|i| assert!(w.put("a text", styles()[i % 4])));
            w.done()
        }),
        ("slow sinks, one long text", 20_000, IO, |t, n| {
            let mut w = W::new(t, true, false);
            assert!(w.put(&"x".repeat(n), styles()[1]));
            w.done()
        }),
        ("slow sinks, a value", 3_000, IO, |t, n| {
            let mut w = W::new(t, true, false);
            assert!(w.show(&Wide(n, "a<b")));
            w.done()
        }),
        ("styled strings of many pieces, nested", 4_000, all, |t, n| {
            let mut s = stylish::String::new();
            (0..n).for_each(|i| stylish::Write::write_str(&mut s, "piece", styles()[i % 4]).unwrap());
            simple(t, |w| assert!(w.show(&s)))
        }),
        ("one styled string, appended to and cloned", 4_000, &["string"], |_, n| {
            let mut s = stylish::String::new();
            for i in 0..n {
                stylish::Write::write_str(&mut s, "piece", styles()[i % 4]).unwrap();
                stylish::write!(s, "{:(bold)}{}", "x", 1).unwrap();
            }
            let mut all = stylish::String::new();
            for _ in 0..3 {
                stylish::Write::write_fmt(&mut all, stylish::format_args!("{0:s}{0:(fg=red)s}", s.clone())).unwrap();
            }
            let mut w = W::String(all);
            assert!(w.put("end", Style::default()));
            w.done()
        }),
        ("slices of restyles", 20_000, &["user"], |t, n| {
            let rs: Vec<R> = (0..n).map(|i| R::Fg((i % 17) as u8)).collect();
            let refs: Vec<&dyn Restyle> = rs.iter().map(|r| r as &dyn Restyle).collect();
            struct V<'a>(&'a [&'a dyn Restyle]);
            impl Display for V<'_> {
                fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
                    f.with(self.0).write_str("x")
                }
            }
            simple(t, |w| assert!(w.show(&V(&refs))))
        }),
        ("boxed restyles in each other", 2_000, &["user"], |t, n| {
            let mut r: Box<dyn Restyle> = Box::new(());
            for i in 0..n {
                r = Box::new((stylish::Foreground(stylish::Color::Red), r, if i % 2 == 0 { Some(stylish::Intensity::Bold) } else { None }));
            }
            struct V<'a>(&'a dyn Restyle);
            impl Display for V<'_> {
                fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
                    f.with(self.0).write_str("x")
                }
            }
            let x = simple(t, |w| assert!(w.show(&V(&r))));
            std::mem::forget(r);
            x
        }),
        ("strings made", 2_000, &["ansi", "html", "plain", "string"], |t, n| {
            let mut sum = Tally::default();
            for _ in 0..n {
                sum.bytes += match t {
                    "ansi" => stylish::ansi::format!("{:s}", Wide(4, "x")).len(),
                    "html" => stylish::html::format!("{:s}", Wide(4, "x")).len(),
                    "plain" => stylish::plain::format!("{:s}", Wide(4, "x")).len(),
                    _ => {
                        drop(stylish::format!("{:s}", Wide(4, "x")));
                        0
                    }
                } as u64;
            }
            sum
        }),
        ("one long string made", 8_000, &["ansi", "html", "plain", "string"], |t, n| {
            let v = Wide(n, "a<b");
            let mut sum = Tally::default();
            sum.bytes = match t {
                "ansi" => stylish::ansi::format!("{:s}", v).len() + stylish::ToAnsiString::to_ansi_string(&v).len(),
                "html" => stylish::html::format!("{:s}", v).len() + stylish::ToHtmlString::to_html_string(&v).len(),
                "plain" => stylish::plain::format!("{:s}", v).len() + stylish::ToPlainString::to_plain_string(&v).len(),
                _ => {
                    drop((stylish::format!("{:s}", v), stylish::ToStylishString::to_stylish_string(&v)));
                    0
                }
            } as u64;
            sum
        }),
    ]
}

pub fn main(args: &[String]) -> ! {
    match args[0].as_str() {
        "list" => {
            for (name, n, ts, _) in families() {
                for t in ts {
                    println!("{name}\t{t}\t{n}");
                }
            }
        }
        "run" => {
            let n: usize = args[3].parse().expect("a number");
            let f = families().into_iter().find(|f| f.0 == args[1]).expect("no such family").3;
            let t = args[2].clone();
            // the levels are recursions; whatever else is done has no need of a deep stack
            let deep = args[1].contains("levels") || args[1].contains("in each other");
            let h = std::thread::Builder::new().stack_size(if deep { 1 << 30 } else { 1 << 18 }).spawn(move || super::alloc::counted(|| f(&t, n))).expect("a thread");
            match h.join() {
                Ok((x, allocs, bytes)) => println!("calls={} bytes={} allocations={allocs} allocated={bytes}", x.calls, x.bytes),
                Err(_) => std::process::exit(3),
            }
        }
        _ => std::process::exit(2),
    }
    std::process::exit(0)
}
