//! C19: formatting into a caller's sink never allocates.
use crate::drive::{Nested, NestedArgs};
use crate::gen::{self, Runs, Text};
use crate::model::{diff, R, S};
use crate::mon::{checked, Mon};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use stylish::{Background, Color, Display, Foreground, Formatter, Intensity};

pub struct Counting;
thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
}
fn note(n: usize) {
    let _ = ARMED.try_with(|a| {
        if a.get() {
            let _ = COUNT.try_with(|c| c.set(c.get() + 1));
            let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
}

/// allocations made by the closure
pub fn counted<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    COUNT.with(|c| c.set(0));
    BYTES.with(|c| c.set(0));
    ARMED.with(|a| a.set(true));
    let r = f();
    ARMED.with(|a| a.set(false));
    (r, COUNT.with(|c| c.get()), BYTES.with(|c| c.get()))
}

/// a caller's sink with room of its own
struct Fixed<'a> {
    buf: &'a mut [u8],
    n: usize,
    calls: usize,
}
impl Fixed<'_> {
    fn put(&mut self, b: &[u8]) -> bool {
        self.calls += 1;
        if self.buf.len() - self.n < b.len() {
            return false;
        }
        self.buf[self.n..self.n + b.len()].copy_from_slice(b);
        self.n += b.len();
        true
    }
}
impl std::fmt::Write for Fixed<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.put(s.as_bytes()) {
            Ok(())
        } else {
            Err(std::fmt::Error)
        }
    }
}
impl std::io::Write for Fixed<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        // sometimes short
        let n = if self.calls % 5 == 4 { b.len().min(3) } else { b.len() };
        if self.put(&b[..n]) {
            Ok(n)
        } else {
            Ok(0)
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// everything the macros and formatters offer, over borrowed data
struct Rich<'a> {
    runs: &'a Runs,
    rs: &'a [R],
    n: i64,
    x: f64,
    t: &'a str,
}
impl Display for Rich<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        let &Rich { n, x, t, .. } = self;
        stylish::write!(f, "{}{{{:(fg=red)}}}{:>(bold)}", t, n, x)?;
        stylish::write!(f, "{0:>+#12.3(fg=blue,bg=white,faint)?}{0:e}{n:#x}{n:o}{n:#b}{n:X}{x:E}{t:?}", x)?;
        stylish::write!(f, "{n:<50}|{n:^#50x?}|{n:>050}|{t:^60.2}|{:p}|{:#?}", &n, (n, x, t))?;
        stylish::writeln!(f, "{:(bg=green)s}", Nested(self.runs))?;
        stylish::write!(f.with((Foreground(Color::Red), Background(Color::Blue), Intensity::Bold)), "{:s}", NestedArgs(self.runs))?;
        f.with(Some(Intensity::Faint)).write_str(t)?;
        f.with(diff(Some(3), None, Some(2))).write_fmt(stylish::format_args!("{t}{:s}", Nested(self.runs)))?;
        for r in self.rs {
            let mut g = f.with(r);
            g.write_str(t)?;
            stylish::Write::write_char(&mut g, 'é', S { fg: 1, bg: 2, int: 1 }.lib())?;
            core::fmt::Write::write_char(&mut g, '<')?;
            core::fmt::Write::write_fmt(&mut g, format_args!("{n:>8}"))?;
        }
        Ok(())
    }
}

/// Values that write one character at a time, of every length in UTF-8
struct Chars<'a> {
    t: &'a str,
    n: usize,
}
impl std::fmt::Display for Chars<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        use std::fmt::Write as _;
        for c in self.t.chars() {
            f.write_char(c)?;
        }
        write!(f, "{}", f.alternate())
    }
}
impl std::fmt::Debug for Chars<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("Chars").field("t", &self.t).field("cs", &Each(self.t)).finish()
    }
}
struct Each<'a>(&'a str);
impl std::fmt::Debug for Each<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_list().entries(self.0.chars()).finish()
    }
}
impl Display for Chars<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        let c = self.t.chars().nth(self.n % self.t.chars().count().max(1)).unwrap_or('🦀');
        stylish::write!(f, "{}{c}{c:?}{:>6(fg=red)}{:^9?}", 'é', c, '🦀')?;
        stylish::write!(f, "{}|{:#(bold)}|{:?}|{:#?}|{:.3}|{:<40}", self, self, self, self, self.t, self.t)?;
        for c in ['a', 'é', '\u{7ff}', '\u{800}', '✓', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\0', '\n', '<', '&', c] {
            core::fmt::Write::write_char(f, c)?;
            stylish::write!(f, "{c}{:(faint)}{:?}", c, c)?;
            stylish::Write::write_char(f, c, S { fg: 3, bg: 1, int: 2 }.lib())?;
        }
        core::fmt::Write::write_fmt(f, format_args!("{}{:?}{c:7}", self, self))
    }
}

/// What std has to offer that formats without an allocation
struct Std(i64, f64);
impl Display for Std {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        let &Std(n, x) = self;
        stylish::write!(f, "{:?}{}{:(fg=blue)}", std::time::Duration::from_nanos(n as u64), std::net::Ipv4Addr::from(n as u32), std::net::Ipv6Addr::from(n as u128))?;
        stylish::write!(f, "{:?}{:?}{:#?}{:x?}", Some(n), Err::<(), _>(x), [Some((n, "x")), None], [n as u8, 200])?;
        stylish::write!(f, "{:?}{}{:?}{}{}", 'a'..'é', true, (), std::num::Wrapping(n), std::num::NonZeroU8::MAX)?;
        stylish::write!(f, "{}{:?}{:e}{:.0}{:+}{:10.3}", x, x, x, x, x, x)?;
        stylish::write!(f, "{}{}{:#b}{:x}{:e}", i128::from(n) * i128::from(n), u128::MAX, n, n, n)?;
        stylish::write!(f, "{:?}{}{:p}{:?}", "q\"\u{301}\n\u{7f}é", std::format_args!("{n}-{x:>9}"), self, std::alloc::Layout::new::<u64>())?;
        stylish::write!(f, "{:?}{}", std::str::from_utf8(&[0xff]).unwrap_err(), std::io::ErrorKind::NotFound)
    }
}

struct Long<'a>(&'a str);
impl Display for Long<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        stylish::write!(f, "{}{:?}{:>60000}", self.0, self.0, self.0)
    }
}

struct Deep<'a>(usize, &'a str);
impl Display for Deep<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        if self.0 == 0 {
            return f.write_str(self.1);
        }
        let s = S::nth(self.0 * 13 % crate::model::N_STYLES);
        stylish::write!(f.with(s.lib()), "{}{:s}{}", self.1, Deep(self.0 - 1, self.1), self.1)
    }
}

/// no boxes in it, which the workload itself would allocate
fn flat(r: &mut crate::rng::Rng) -> R {
    loop {
        let x = gen::restyle(r, 2);
        fn heapless(x: &R) -> bool {
            match x {
                R::Boxed(_) | R::BoxedSlice(_) => false,
                R::Pair(p) => heapless(&p.0) && heapless(&p.1),
                R::Triple(p) => heapless(&p.0) && heapless(&p.1) && heapless(&p.2),
                R::Some(r) | R::Ref(r) => heapless(r),
                R::Slice(v) => v.iter().all(heapless),
                _ => true,
            }
        }
        if heapless(&x) {
            return x;
        }
    }
}

fn render(which: usize, d: &dyn Display, buf: &mut [u8]) -> (bool, u64, u64, usize, usize) {
    let mut s = Fixed { buf, n: 0, calls: 0 };
    let (ok, n, bytes) = counted(|| {
        let args = stylish::format_args!("{:s}", d);
        match which {
            0 => {
                let mut w = stylish::Ansi::new(&mut s);
                w.write_fmt(args).and_then(|()| w.finish().map(|_| ())).is_ok()
            }
            1 => {
                let mut w = stylish::Html::new(&mut s);
                w.write_fmt(args).and_then(|()| w.finish().map(|_| ())).is_ok()
            }
            2 => {
                let mut w = stylish::Plain::new(&mut s);
                let ok = w.write_fmt(args).is_ok();
                w.into_inner();
                ok
            }
            3 => {
                let mut w = stylish::io::Ansi::new(&mut s);
                w.write_fmt(args).and_then(|()| stylish::io::Write::flush(&mut w)).and_then(|()| w.finish().map(|_| ())).is_ok()
            }
            4 => {
                let mut w = stylish::io::Plain::new(&mut s);
                let ok = stylish::write!(w, "{:s}", args).is_ok();
                w.into_inner();
                ok
            }
            _ => {
                let mut w = stylish::io::Ansi::new(&mut s);
                let w: &mut dyn stylish::io::Write = &mut w;
                stylish::writeln!(w, "{:s}", d).is_ok()
            }
        }
    });
    (ok, n, bytes, s.n, s.calls)
}

pub fn run(mut m: Mon) -> ! {
    // the monitor has to see allocations at all
    let (_, n, _) = counted(|| std::hint::black_box(vec![1u8; 100]));
    m.count("allocations seen when there was one", n);
    m.require("allocations seen when there was one");
    let mut buf = vec![0u8; 64 << 20];
    let mut r = m.rng(1);
    for i in 0..m.n(20_000, 1_500_000) {
        let k = gen::kind(&mut r);
        let mut runs = gen::script(&mut r, Some(k));
        if i % 200 == 0 {
            runs.push((gen::text_n(&mut r, Text::Html, 200_000), gen::style(&mut r)));
        }
        let rs: Vec<R> = (0..r.below(4)).map(|_| flat(&mut r)).collect();
        let t = gen::small_text(&mut r, Text::Any);
        let rich = Rich { runs: &runs, rs: &rs, n: r.u64() as i64 >> r.below(60), x: r.u64() as f64 / 1e7, t: &t };
        let deep = Deep(r.below(60), &t);
        let nested = Nested(&runs);
        let chars = Chars { t: &t, n: i };
        let std_ = Std(rich.n, rich.x);
        let long;
        let long_text;
        let whole: &dyn Display = if i % 50 == 7 {
            // one long value, of characters of any length
            long_text = gen::text_n(&mut r, k, 60_000);
            long = Long(&long_text);
            &long
        } else {
            &std_
        };
        let vals: [(&str, &dyn Display); 5] = [
            ("script", &nested),
            ("all formatting traits and restyles", &rich),
            ("deep nesting", &deep),
            ("single characters", &chars),
            ("one value", whole),
        ];
        for (name, v) in vals {
            for which in 0..6 {
                m.case(&[gen::key(&runs), name.as_bytes().to_vec(), vec![which as u8]].concat(), runs.len() > 1);
                let mut seen = (true, 0, 0, 0, 0);
                let res = checked(|| {
                    seen = render(which, v, &mut buf);
                    Ok(())
                });
                ARMED.with(|a| a.set(false));
                let w = ["Ansi", "Html", "Plain", "io::Ansi", "io::Plain", "dyn io::Write"][which];
                let res = match res {
                    Err(e) => Err(e),
                    Ok(()) if !seen.0 => Err("rendering failed".to_string()),
                    Ok(()) if seen.1 > 0 => Err(format!("{} heap allocations, {} bytes", seen.1, seen.2)),
                    _ => Ok(()),
                };
                m.count("renderings without allocation", 1);
                m.count("bytes that reached the sinks", seen.3 as u64);
                m.count("sink calls observed", seen.4 as u64);
                m.max("largest rendering (bytes)", seen.3 as u64);
                if let Err(e) = res {
                    m.violation(format!("{w}, {name}: {e}"), format!("{} restyles {rs:?} text {t:?} number {} float {} depth {}", gen::show(&runs), rich.n, rich.x, deep.0));
                    m.finish();
                }
            }
        }
        // single writes, styles changing at every one
        for which in 0..5 {
            let mut s = Fixed { buf: &mut buf, n: 0, calls: 0 };
            let (ok, n, b) = counted(|| match which {
                0 => {
                    let mut w = stylish::Ansi::new(&mut s);
                    runs.iter().try_for_each(|(t, s)| stylish::Write::write_str(&mut w, t, s.lib())).is_ok() && w.finish().is_ok()
                }
                1 => {
                    let mut w = stylish::Html::new(&mut s);
                    runs.iter().try_for_each(|(t, s)| t.chars().try_for_each(|c| stylish::Write::write_char(&mut w, c, s.lib()))).is_ok() && w.finish().is_ok()
                }
                2 => {
                    let mut w = stylish::Plain::new(&mut s);
                    runs.iter().try_for_each(|(t, s)| stylish::Write::write_str(&mut w, t, s.lib())).is_ok()
                }
                3 => {
                    let mut w = stylish::io::Ansi::new(&mut s);
                    runs.iter().try_for_each(|(t, s)| stylish::io::Write::write_all(&mut w, t.as_bytes(), s.lib())).is_ok() && w.finish().is_ok()
                }
                _ => {
                    let mut w = stylish::io::Plain::new(&mut s);
                    runs.iter().try_for_each(|(t, s)| stylish::io::Write::write_all(&mut w, t.as_bytes(), s.lib())).is_ok()
                }
            });
            m.case(&[gen::key(&runs), vec![b'w', which as u8]].concat(), runs.len() > 1);
            if !ok || n > 0 {
                m.violation(format!("single writes, writer {which}: success {ok}, {n} heap allocations, {b} bytes"), gen::show(&runs));
                m.finish();
            }
        }
        m.sample(|| format!("{} restyles {rs:?}", gen::show(&runs)));
        if i % 256 == 0 && m.out_of_time() {
            break;
        }
    }
    m.require("bytes that reached the sinks");
    m.finish()
}
