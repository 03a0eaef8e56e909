//! Destinations of the macros that are no writers of the library's: whatever has a
//! `write_fmt` is taken as it is, called once, and its answer is what the macro returns.
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::rc::Rc;
use stylish::{Arguments, Foreground, Style, Write};

type Runs = Vec<(String, Style)>;
struct Rec(Runs);
impl Write for Rec {
    fn write_str(&mut self, s: &str, style: Style) -> stylish::Result {
        match self.0.last_mut() {
            Some(l) if l.1 == style => l.0.push_str(s),
            _ if s.is_empty() => {}
            _ => self.0.push((s.to_string(), style)),
        }
        Ok(())
    }
}
fn shown(args: Arguments<'_>) -> Runs {
    let mut r = Rec(vec![]);
    stylish::Write::write_fmt(&mut r, args).expect("the recorder takes everything");
    r.0
}
fn plain(t: &str) -> Runs {
    if t.is_empty() {
        vec![]
    } else {
        vec![(t.to_string(), Style::default())]
    }
}
fn red(t: &str) -> (String, Style) {
    (t.to_string(), Style::default().with(Foreground(stylish::Color::Red)))
}

/// by shared reference, and no Result
struct Log(RefCell<Vec<Runs>>);
impl Log {
    fn write_fmt(&self, args: Arguments<'_>) -> (u64, &'static str) {
        self.0.borrow_mut().push(shown(args));
        (self.0.borrow().len() as u64, "mine")
    }
}
/// by value
struct Once(Rc<Cell<u32>>);
impl Once {
    fn write_fmt(self, args: Arguments<'_>) -> Runs {
        self.0.set(self.0.get() + 1);
        shown(args)
    }
}
/// by exclusive reference, nothing to return
struct Unit(Vec<Runs>);
impl Unit {
    fn write_fmt(&mut self, args: Arguments<'_>) {
        self.0.push(shown(args))
    }
}
/// returns something that lives as long as the destination
struct Chain(Vec<Runs>);
impl Chain {
    fn write_fmt(&mut self, args: Arguments<'_>) -> &mut Chain {
        self.0.push(shown(args));
        self
    }
}
/// is generic about what it returns
struct Any(u8);
impl Any {
    fn write_fmt<T: From<u8>>(&mut self, args: Arguments<'_>) -> T {
        self.0 += shown(args).len() as u8;
        T::from(self.0)
    }
}
/// cannot be sized
struct Tail<T: ?Sized>(Cell<u32>, T);
impl Tail<[u8]> {
    fn write_fmt(&self, args: Arguments<'_>) -> Option<usize> {
        self.0.set(self.0.get() + 1);
        shown(args).first().map(|r| r.0.len() + self.1.len())
    }
}
/// is a future, or the like, that nothing should happen to
#[must_use]
struct Later(Runs);
struct Defer;
impl Defer {
    fn write_fmt(&mut self, args: Arguments<'_>) -> impl FnOnce() -> Later {
        let r = shown(args);
        move || Later(r)
    }
}

fn is<T: PartialEq + Debug>(what: &str, got: T, want: T) {
    if got != want {
        println!("WRONG {what}: {got:?}, want {want:?}");
        std::process::exit(3)
    }
    println!("ok {what}");
}

fn early(log: &Log, stop: bool) -> Result<u64, &'static str> {
    let part = |s| if s { Err("early") } else { Ok("x") };
    let (n, _) = stylish::writeln!(log, "{}", part(stop)?);
    let _ = stylish::write!(log, "{}{y}", 1, y = if stop { return Ok(0) } else { 'y' });
    Ok(n)
}

fn main() {
    let log = Log(RefCell::new(vec![]));
    let evaluated = Cell::new(0);
    let o = || {
        evaluated.set(evaluated.get() + 1);
        &log
    };
    let x = "x";
    is("write", stylish::write!(o(), "{:(fg=red)}", x), (1, "mine"));
    is("writeln", stylish::writeln!(o(), "{x:(fg=red)}"), (2, "mine"));
    is("writeln of nothing", stylish::writeln!(o()), (3, "mine"));
    is("writeln of nothing, comma", stylish::writeln!(o(),), (4, "mine"));
    is("write of an empty string", stylish::write!(o(), ""), (5, "mine"));
    is("writeln of an empty string", stylish::writeln!(o(), ""), (6, "mine"));
    is("trailing comma", stylish::write!(o(), "{}", x,), (7, "mine"));
    is("writeln, trailing comma", stylish::writeln!(o(), "{}", x,), (8, "mine"));
    is("literal, trailing comma", stylish::writeln!(o(), "a",), (9, "mine"));
    is("concatenated", stylish::write!(o(), concat!("{", "0:(fg=red)}"), x), (10, "mine"));
    is("concatenated line", stylish::writeln!(o(), concat!("{{", "{", "z}"), z = 1), (11, "mine"));
    is("each destination evaluated once", evaluated.get(), 11);
    is("early return", early(&log, true), Err("early"));
    is("no early return", early(&log, false), Ok(12));
    let r = vec![red("x")];
    let want = vec![r.clone(), vec![red("x"), ("\n".into(), Style::default())], plain("\n"), plain("\n"), plain(""), plain("\n"), plain("x"), plain("x\n"), plain("a\n"), r.clone(), plain("{1\n"), plain("x\n"), plain("1y")];
    is("everything handed over in order", log.0.into_inner(), want);

    let n = Rc::new(Cell::new(0));
    is("by value", stylish::write!(Once(n.clone()), "{:(fg=red)}", x), r.clone());
    is("by value, a line", stylish::writeln!(Once(n.clone()), "b"), plain("b\n"));
    is("by value, a newline", stylish::writeln!(Once(n.clone())), plain("\n"));
    let once = Once(n.clone());
    is("by value, a variable", stylish::writeln!(once, "{x}"), plain("x\n"));
    is("each once", n.get(), 4);

    let mut unit = Unit(vec![]);
    let () = stylish::write!(unit, "a");
    let () = stylish::writeln!(unit);
    let () = stylish::writeln!(&mut unit, "b");
    let cell = RefCell::new(unit);
    let () = stylish::write!(cell.borrow_mut(), "c{}", 1);
    let boxed = Box::new(cell.into_inner());
    let mut held = (boxed, 1);
    let () = stylish::writeln!(held.0, "d{}", held.1);
    let () = stylish::writeln!({ &mut held.0 }, "e");
    let () = stylish::writeln!(if x == "x" { &mut held.0 } else { unreachable!() });
    let mut many = [Unit(vec![]), *held.0];
    let mut i = 0;
    let () = stylish::writeln!(many[{ i += 1; i }], "f");
    is("an index evaluated once", i, 1);
    let [none, unit] = many;
    is("nothing for others", none.0, vec![]);
    is("nothing to return", unit.0, ["a", "\n", "b\n", "c1", "d1\n", "e\n", "\n", "f\n"].map(plain).to_vec());

    let mut chain = Chain(vec![]);
    let again = stylish::writeln!(stylish::write!(stylish::writeln!(chain), "1"), "2");
    let _ = stylish::write!(again, "3");
    is("chained", chain.0, ["\n", "1", "2\n", "3"].map(plain).to_vec());

    let mut any = Any(0);
    let a: u64 = stylish::write!(any, "a{:(bold)}", 1);
    let b: char = stylish::writeln!(any, "a");
    let c: u8 = stylish::writeln!(any);
    is("generic in what it returns", (a, b, c), (2, '\u{3}', 4));

    let tail: &Tail<[u8]> = &Tail(Cell::new(0), [1, 2, 3]);
    is("of no known size", (stylish::write!(*tail, "é"), stylish::writeln!(tail, "é"), stylish::writeln!(tail), stylish::write!(tail, "")), (Some(5), Some(6), Some(4), None));
    is("each once, of no known size", tail.0.get(), 4);

    let (f, g, h) = (stylish::write!(Defer, "a"), stylish::writeln!(Defer, "b"), stylish::writeln!(Defer));
    is("deferred", [f().0, g().0, h().0], ["a", "b\n", "\n"].map(plain));

    // in a loop, its value broken with
    let log = Log(RefCell::new(vec![]));
    let n = loop {
        let k = log.0.borrow().len();
        if stylish::writeln!(log, "{}", k).0 == 3 {
            break stylish::writeln!(log).0;
        }
    };
    is("in a loop", n, 4);
    is("what the loop wrote", log.0.into_inner(), ["0\n", "1\n", "2\n", "\n"].map(plain).to_vec());
    println!("done");
}
