//! What generated programs need at run time: a recording writer, monitors that
//! compare what it saw with what was wanted, probes for format flags and logs of
//! evaluations. Outcomes go to stdout, one line a case.
#![allow(dead_code)]
#[path = "model.rs"]
pub mod model;
use model::{S, COLORS, INTENSITIES};
use std::cell::{Cell, RefCell};
use std::fmt;
use std::rc::Rc;

/// the events a stylish writer received
#[derive(Default)]
pub struct Rec {
    pub events: Vec<(String, S)>,
}
impl stylish::Write for Rec {
    fn write_str(&mut self, s: &str, style: stylish::Style) -> stylish::Result {
        self.events.push((s.to_string(), S::of(style)));
        Ok(())
    }
}
impl Rec {
    pub fn text(&self) -> String {
        self.events.iter().map(|e| e.0.as_str()).collect()
    }
    pub fn chars(&self) -> Vec<(char, S)> {
        self.events.iter().flat_map(|(t, s)| t.chars().map(move |c| (c, *s))).collect()
    }
}

/// attributes as the generator wrote them: index of the color or intensity
#[derive(Clone, Copy, Debug)]
pub struct At(pub Option<u8>, pub Option<u8>, pub Option<u8>);
pub const NONE: At = At(None, None, None);
impl At {
    pub fn on(self, s: S) -> S {
        S { fg: self.0.unwrap_or(s.fg), bg: self.1.unwrap_or(s.bg), int: self.2.unwrap_or(s.int) }
    }
}

pub struct Ctx {
    fail: Option<String>,
    events: u64,
    comparisons: u64,
}

struct Under<'a>(&'a dyn Fn(&mut stylish::Formatter<'_>) -> stylish::Result, S);
impl stylish::Display for Under<'_> {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
        (self.0)(&mut f.with(self.1.lib()))
    }
}

/// the styles in effect around a format string
fn around() -> Vec<S> {
    let mut v = vec![model::DEF];
    for i in 0..17u8 {
        v.push(S { fg: i, bg: (i * 5 + 3) % 17, int: i % 3 });
    }
    v.push(S { fg: 16, bg: 16, int: 1 });
    v.push(S { fg: 16, bg: 16, int: 2 });
    v.push(S { fg: 16, bg: 2, int: 0 });
    v.push(S { fg: 3, bg: 16, int: 0 });
    v
}

impl Ctx {
    pub fn fail(&mut self, m: String) {
        self.fail.get_or_insert(m);
    }
    pub fn text(&mut self, what: &str, got: &str, want: &str) {
        self.comparisons += 1;
        self.events += got.len() as u64;
        if got != want {
            self.fail(format!("{what}: got {got:?}, want {want:?}"));
        }
    }
    pub fn same<T: PartialEq + fmt::Debug>(&mut self, what: &str, got: &T, want: &T) {
        self.comparisons += 1;
        self.events += 1;
        if got != want {
            self.fail(format!("{what}: got {got:?}, want {want:?}"));
        }
    }
    /// a rendering under many surrounding styles against the texts with the
    /// attributes each has to have on top of what surrounds it
    pub fn attrs(&mut self, f: &dyn Fn(&mut stylish::Formatter<'_>) -> stylish::Result, want: &[(&str, At)]) {
        use stylish::Write as _;
        for s in around() {
            let mut rec = Rec::default();
            if stylish::write!(rec, "{:s}", Under(f, s)).is_err() {
                return self.fail("rendering failed".into());
            }
            self.events += rec.events.len() as u64;
            self.comparisons += 1;
            let want: Vec<(char, S)> = want.iter().flat_map(|(t, a)| t.chars().map(move |c| (c, a.on(s)))).collect();
            let got = rec.chars();
            if got != want {
                let at = (0..).find(|i| got.get(*i) != want.get(*i)).unwrap();
                return self.fail(format!(
                    "under {}: character {at} is {}, want {} (all of it: {:?})",
                    show(s),
                    got.get(at).map_or("missing".into(), |c| format!("{:?} in {}", c.0, show(c.1))),
                    want.get(at).map_or("none".into(), |c| format!("{:?} in {}", c.0, show(c.1))),
                    rec.text(),
                ));
            }
        }
    }
    /// a macro call that is no value, with the surrounding style the default one
    pub fn rec(&mut self, what: &str, rec: &Rec, want: &[(&str, At)]) {
        self.comparisons += 1;
        self.events += rec.events.len() as u64;
        let want: Vec<(char, S)> = want.iter().flat_map(|(t, a)| t.chars().map(move |c| (c, a.on(model::DEF)))).collect();
        if rec.chars() != want {
            self.fail(format!("{what}: got {:?}", rec.events));
        }
    }
}
pub fn show(s: S) -> String {
    format!("{:?}/{:?}/{:?}", COLORS[s.fg as usize], COLORS[s.bg as usize], INTENSITIES[s.int as usize])
}

pub type Case = (&'static str, fn(&mut Ctx));

/// runs the cases, argv[1] on
pub fn main(cases: &[Case]) {
    std::panic::set_hook(Box::new(|_| {}));
    let from: usize = std::env::args().nth(1).and_then(|a| a.parse().ok()).unwrap_or(0);
    for (i, (id, f)) in cases.iter().enumerate().skip(from) {
        println!("start {i} {id}");
        let mut c = Ctx { fail: None, events: 0, comparisons: 0 };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c)));
        if let Err(e) = r {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            c.fail(format!("panicked: {m}"));
        }
        match c.fail {
            Some(e) => println!("fail {i} {id} {}", e.replace('\\', "\\\\").replace('\n', "\\n")),
            None => println!("pass {i} {id} {} {}", c.events, c.comparisons),
        }
    }
    println!("done");
}

// ---------------------------------------------------------------- values

/// implements every formatting trait by printing all that can be seen of the
/// format specification, the debug-hex flags through an integer
pub struct Flags;
fn flags(name: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str(name)?;
    let spec = format!(
        "[fill {:?} align {} plus {} minus {} alt {} zero {} width {:?} precision {:?}]",
        f.fill(),
        match f.align() {
            None => "none",
            Some(fmt::Alignment::Left) => "left",
            Some(fmt::Alignment::Right) => "right",
            Some(fmt::Alignment::Center) => "center",
        },
        f.sign_plus(),
        f.sign_minus(),
        f.alternate(),
        f.sign_aware_zero_pad(),
        f.width(),
        f.precision()
    );
    f.write_str(&spec)
}
macro_rules! flag_traits { ($($t:ident)*) => { $(
    impl fmt::$t for Flags {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { flags(stringify!($t), f) }
    }
)* } }
flag_traits!(Display Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp);
impl fmt::Debug for Flags {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        flags("Debug", f)?;
        // x? and X? are only seen by integers
        fmt::Debug::fmt(&0x2fau64, f)
    }
}

/// a value whose stylish text is what a function writes
pub struct By<F>(pub F);
impl<F: Fn(&mut stylish::Formatter<'_>) -> stylish::Result> stylish::Display for By<F> {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
        (self.0)(f)
    }
}
/// lets the compiler infer the argument of a closure for `By`
pub fn by<F: Fn(&mut stylish::Formatter<'_>) -> stylish::Result>(f: F) -> By<F> {
    By(f)
}

/// pads, delegates, recurses
pub struct Padded(pub &'static str);
impl fmt::Display for Padded {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad(self.0)
    }
}
impl fmt::Debug for Padded {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Padded").field("s", &self.0).field("n", &self.0.len()).finish()
    }
}
/// writes in many small pieces
#[derive(Debug)]
pub struct Pieces(pub &'static str);
impl fmt::Display for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        use fmt::Write as _;
        for c in self.0.chars() {
            f.write_char(c)?;
            f.write_str("")?;
            write!(f, "{c:>3}")?;
        }
        f.pad_integral(true, "0x", "77")
    }
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Tree {
    pub name: &'static str,
    pub n: i32,
    pub kids: Vec<Tree>,
    pub opt: Option<u8>,
}
pub fn tree() -> Tree {
    Tree { name: "r\"t", n: -10, kids: vec![Tree { name: "é", n: 255, ..Tree::default() }, Tree { opt: Some(171), ..Tree::default() }], opt: None }
}
#[derive(Debug, Clone, Copy)]
pub struct Unit;
#[derive(Debug, Clone)]
pub enum En {
    A,
    B(i8, Vec<u8>),
    C { x: f32, y: (char, bool) },
}

/// a stylish value with parts in the surrounding style and in styles of its own
pub struct Sty(pub &'static str);
pub const STY: At = At(Some(2), None, Some(1));
impl stylish::Display for Sty {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
        f.write_str(self.0)?;
        f.with((stylish::Foreground(stylish::Color::Green), stylish::Intensity::Bold)).write_str(self.0)?;
        f.write_str(self.0)
    }
}

// ---------------------------------------------------------------- evaluation

/// what happened, in order
#[derive(Clone, Default)]
pub struct Log(pub Rc<RefCell<Vec<String>>>);
impl Log {
    pub fn take(&self) -> Vec<String> {
        std::mem::take(&mut *self.0.borrow_mut())
    }
    pub fn add(&self, s: impl Into<String>) {
        self.0.borrow_mut().push(s.into());
    }
    /// an evaluation that gives a value which logs being formatted and dropped
    pub fn ev(&self, id: u32) -> Val {
        self.add(format!("eval {id}"));
        Val { id, log: self.clone(), state: Cell::new(0) }
    }
    /// how often this has been evaluated
    pub fn next(&self) -> u32 {
        let n = self.0.borrow().iter().filter(|e| e.starts_with("next")).count() as u32 + 1;
        self.add(format!("next {n}"));
        n
    }
    pub fn num<T>(&self, id: u32, v: T) -> T {
        self.add(format!("eval {id}"));
        v
    }
}
/// neither Copy nor Clone; says which formatting of it this is
pub struct Val {
    pub id: u32,
    log: Log,
    state: Cell<u32>,
}
impl Val {
    fn note(&self, t: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.state.set(self.state.get() + 1);
        self.log.add(format!("{t} {} #{}", self.id, self.state.get()));
        f.pad(&format!("<{t}{}>", self.id))
    }
    pub fn touch(&mut self) -> u32 {
        self.id += 1000;
        self.id
    }
}
macro_rules! val_traits { ($($t:ident)*) => { $(
    impl fmt::$t for Val {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.note(stringify!($t), f) }
    }
)* } }
val_traits!(Display Debug Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp);
impl Drop for Val {
    fn drop(&mut self) {
        self.log.add(format!("drop {}", self.id));
    }
}
/// a value that cannot be moved out of, nor is it sized
pub struct Dst(pub [u8]);
impl fmt::Display for Dst {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "dst{}", self.0.len())
    }
}
impl fmt::Debug for Dst {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Dst{}", self.0.len())
    }
}
pub fn dst(b: &[u8]) -> &Dst {
    unsafe { &*(b as *const [u8] as *const Dst) }
}
impl stylish::Display for Flags {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
        f.write_str("stylish")
    }
}
