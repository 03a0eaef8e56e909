"""C26: the macros work wherever std's do. Cases are pieces of Rust that call the
macros in some context; each is compiled twice, with stylish's macros and with std's,
in every edition, with and without all lints denied. What std's accept stylish's have
to accept, and the text has to be the same."""
import json, os, random, re, shutil
import engine
from engine import Inconclusive, fresh_target, REPO, TARGET, WORK, VERIF
from concurrent.futures import ThreadPoolExecutor

# F!( format, A!( format_args, W!( write, L!( writeln; @new a writer of text, @T its type,
# @done(w) its text, @dyn the trait behind write!, @show(a) text of arguments
STY = [("F!(", "::stylish::plain::format!("), ("A!(", "::stylish::format_args!("), ("W!(", "::stylish::write!("), ("L!(", "::stylish::writeln!("),
       ("@new", "::stylish::Plain::new(::std::string::String::new())"), ("@T", "::stylish::Plain<::std::string::String>"), ("@dyn", "::stylish::Write"),
       ("@shown", "{:s}"), ("@Args", "::stylish::Arguments<'_>"), ("@R", "::stylish::Result"), ("@V", "::stylish::Display"), ("@f", "::stylish::Formatter<'_>"),
       ("@io", "::stylish::io::Plain::new(::std::vec::Vec::<u8>::new())"), ("@IoDyn", "::stylish::io::Write"), ("@mid_", "::mid::sty_"), ("@again", "::mid::again"), ("@names", "::stylish"), ("@own", "::stylish::plain")]
STD = [("F!(", "::std::format!("), ("A!(", "::std::format_args!("), ("W!(", "::std::write!("), ("L!(", "::std::writeln!("),
       ("@new", "::std::string::String::new()"), ("@T", "::std::string::String"), ("@dyn", "::std::fmt::Write"),
       ("@shown", "{}"), ("@Args", "::std::fmt::Arguments<'_>"), ("@R", "::std::fmt::Result"), ("@V", "::std::fmt::Display"), ("@f", "::std::fmt::Formatter<'_>"),
       ("@io", "::std::vec::Vec::<u8>::new()"), ("@IoDyn", "::std::io::Write"), ("@mid_", "::mid::std_"), ("@again", "::mid::std_again"), ("@names", "::std"), ("@own", "::std")]


def render(s, sty):
    s = re.sub(r"@done\((\w+)\)", r"\1.into_inner()" if sty else r"\1", s)
    s = re.sub(r"@iodone\((\w+)\)", r"::std::string::String::from_utf8(\1.into_inner()).unwrap()" if sty else r"::std::string::String::from_utf8(\1).unwrap()", s)
    for a, b in STY if sty else STD:
        s = s.replace(a, b)
    return s


# pieces that make a String, as the body of a function; items come first
CASES = []


def case(name, body, items="", editions=("2015", "2018", "2021", "2024")):
    CASES.append((name, items, body, editions))


NEW = ("2018", "2021", "2024")

# ---- how values and formats get into the call
case("macro: literal and expressions", 'm!("{}-{:?}", 1 + 2, "x")', 'macro_rules! m { ($f:literal $(, $a:expr)*) => { F!($f $(, $a)*) } }')
case("macro: expression as format", 'm!("{}-{:?}", 1 + 2, "x")', 'macro_rules! m { ($f:expr $(, $a:expr)*) => { F!($f $(, $a)*) } }')
case("macro: token trees", 'm!("{}-{x:?}", 1 + 2, x = "x")', 'macro_rules! m { ($($t:tt)*) => { F!($($t)*) } }')
case("macro: one token tree as format", 'm!("{}-{}", 1)', 'macro_rules! m { ($f:tt, $a:expr) => { F!($f, $a, $a) } }')
case("macro: identifiers as arguments", 'let y = 5; m!(y)', 'macro_rules! m { ($x:ident) => { F!("{}/{x}/{:?}", $x, $x, x = $x) } }')
case("macro: identifiers as names", 'm!(name, 5)', 'macro_rules! m { ($x:ident, $v:expr) => { F!("{name}", $x = $v) } }')
case("macro: names from both sides", 'm!("{a}{b}", 5)', 'macro_rules! m { ($f:literal, $v:expr) => { F!($f, a = $v, b = 1) } }')
case("macro: local captured in the macro's own format", 'let v = 1; m!(v)', 'macro_rules! m { ($v:expr) => {{ let w = $v + 1; F!("{w}{}{w:>3}", $v) }} }')
case("macro: local of the caller captured in the caller's format", 'let v = 1; m!("{v}")', 'macro_rules! m { ($f:literal) => {{ let v = 2; let _ = v; F!($f) }} }')
case("macro: same name on both sides", 'let v = 1; m!("{v}", v)', 'macro_rules! m { ($f:literal, $x:ident) => {{ let v = 2; F!($f) + &F!("{v}{}", $x) }} }')
case("macro: same name on both sides, with attributes of padding", 'let v = 1; m!("{v:>4}", v)', 'macro_rules! m { ($f:literal, $x:ident) => {{ let v = 2; F!($f) + &F!("{v:<4}{:04}", $x) }} }')
case("macro: own format with a captured parameter", 'm(3)', 'macro_rules! show { ($x:ident) => { F!("{}", $x) } } fn m(v: u8) -> String { show!(v) }')
case("macro: nested repetitions", 'm!(1, 2, 3; 4, 5)', 'macro_rules! m { ($($($a:expr),*);*) => {{ let mut s = String::new(); $( $( s.push_str(&F!("[{}]", $a)); )* s.push(\';\'); )* s }} }')
case("macro: format of repetitions", 'm!(1, 2, 3)', 'macro_rules! m { ($($a:expr),*) => { F!(concat!($("{", stringify!($a), "}",)*), 7, 8, 9, 10 = 0) } }') if False else None
case("macro: concat of repetitions", 'm!(1, 2, 3)', 'macro_rules! m { ($($a:expr),*) => { F!(concat!($(m!(@ $a)),*), $($a),*) }; (@ $a:expr) => { "{}" } }') if False else None
case("macro: concat with stringify", 'm!(abc)', 'macro_rules! m { ($a:ident) => { F!(concat!(stringify!($a), "={}"), 1) } }')
case("macro: concat with line", 'F!(concat!("{}:", "5", concat!(":", "true"), "1.5",), 1)')
case("macro: a macro that defines a macro", 'outer!(inner); inner!("{}", 4)', 'macro_rules! outer { ($n:ident) => { macro_rules! $n { ($f:literal, $v:expr) => { F!($f, $v) } } } }')
case("macro: blocks, statements, types and paths as arguments", 'm!({ 1 + 1 }, i32, ::std::string::String::new)', 'macro_rules! m { ($b:block, $t:ty, $p:path) => { F!("{}{}{:?}", $b, 5 as $t, $p()) } }')
case("macro: lifetimes and labels", "m!('a)", "macro_rules! m { ($l:lifetime) => { $l: loop { break $l F!(\"{}\", 1) } } }") if False else None
case("macro: literals as arguments", 'm!(1, "a", \'c\', 1.5, b"x")', 'macro_rules! m { ($a:literal, $b:literal, $c:literal, $d:literal, $e:literal) => { F!("{}{}{}{}{:?}", $a, $b, $c, $d, $e) } }')
case("macro: negative and grouped expressions", 'm!(1 + 1)', 'macro_rules! m { ($a:expr) => { F!("{}{}{}", $a * 2, -$a, !$a) } }')
case("macro: captured expressions beside operators", 'let x = 3i32; m!(1i32 + 1) + &m!(x) + &m!(-x) + &m!(x as i32) + &m!(x << 1) + &m!((x)) + &m!(if x == 3 { 4i32 } else { 5 }) + &m!(match x { _ => 6i32 }) + &m!({ 7i32 }) + &m!(x.pow(2)) + &m!(*&x) + &m!(8i32) + &m!(- 9i32)', 'macro_rules! m { ($a:expr) => { F!("{}{}{}{}{}{:?}{}{n}", $a * 2, 10 - $a, $a.pow(2), $a as u8, [$a + 1, $a][0], ($a, -$a), $a == 2, n = $a % 3) } }')
case("macro: captured expressions in macros in arguments", 'm!(1 + 1, 2 | 1)', 'macro_rules! m { ($a:expr, $b:expr) => { F!("{:?}{}{x:?}", vec![$a * 2, $b * 2], F!("{}", $a * $b), x = [$a * 3; 2]) } }')
case("macro: captured by two macros", 'm!(1 + 1)', 'macro_rules! n { ($a:expr, $b:expr) => { F!("{}{}", $a * $b, $b * 2) } } macro_rules! m { ($a:expr) => { n!($a * 3, $a) } }')
case("macro: captured expressions with concat formats", 'm!(1 + 1)', 'macro_rules! m { ($a:expr) => { F!(concat!("{}", "{x}"), $a * 2, x = -$a) } }')
case("macro: captured closures, ranges and references", 'm!(|x: u8| x + 1, 1..3, &5, true || false)', 'macro_rules! m { ($f:expr, $r:expr, $p:expr, $b:expr) => { F!("{}{:?}{}{}{}", $f(1), $r.len(), *$p, $p.clone(), !$b) } }')
case("macro: captured types, paths, patterns and lifetimes", "m!(&u8, Vec<u8>, 1 | 2, std::primitive::u8::MAX, 'a, 1..=2, &3)", "macro_rules! m { ($t:ty, $u:ty, $p:pat, $q:path, $l:lifetime, $r:pat, $s:pat) => { F!(\"{:?}{}{}{}{:?}{}\", { let x: $t = &5; x as $t }, <$u>::new().len(), match 2 { $p => 1, _ => 0 }, $q - 1, { fn f<$l>(x: &$l str) -> &$l str { x } f(\"f\") }, match (2, &3) { ($r, $s) => 1, _ => 0 }) } }")
case("macro: captured statements, items, blocks and tokens", 'm!(let y = 4, fn f() -> u8 { 5 }, { 6 }, +, [1, 2])', 'macro_rules! m { ($s:stmt, $i:item, $b:block, $o:tt, $t:tt) => { F!("{}{}{}{:?}", { $i f() }, $b, 1 $o 2 * 3, $t) } }')
case("macro: captured by the writing macros", 'use @dyn as _; let mut w = @new; m!(w, 1 + 1, "{}"); @done(w)', 'macro_rules! m { ($w:expr, $a:expr, $f:literal) => { W!($w, $f, $a * 2).unwrap(); L!($w, $f, $a * 3).unwrap(); L!($w, concat!($f, "{x}"), $a * 3, x = -$a).unwrap() } }', NEW)
case("macro: the writer", 'let mut w = @new; m!(w, "{}", 1); m!((&mut w), "{x}", x = 2); @done(w)', 'use @dyn as _; macro_rules! m { ($w:expr, $($t:tt)*) => { W!($w, $($t)*).unwrap(); L!($w, $($t)*).unwrap() } }', NEW)
case("macro: the writer as an identifier", 'let mut w = @new; m!(w "{}", 1); @done(w)', 'use @dyn as _; macro_rules! m { ($w:ident $f:literal, $($t:expr),*) => { W!($w, $f, $($t),*).unwrap() } }', NEW)
case("another crate's macro: all tokens", 'let x = 5; @mid_say!("{}{x}{y:?}", 1, y = "z")')
case("another crate's macro: a literal and a value", 'let width = 9; @mid_labelled!("label", width)')
case("another crate's macro: nested arguments", 'let width = 9; @mid_labelled!("label", "{}{width}", 2)')
case("another crate's macro: its locals", 'let inner = 9; @mid_local!(inner + 1)')
case("another crate's macro: the writer", 'let mut w = @new; @mid_to!(w, "{}", 2).unwrap(); @mid_to!(&mut w, "{x:?}", x = "y").unwrap(); @done(w)', 'use @dyn as _;', NEW)
case("macros handed on by another crate", 'use @again::{Write as _, write}; let mut w = @new; write!(w, "{}{:?}", 1, 2).unwrap(); @done(w)', "", NEW)
case("macros handed on, renamed", 'use @again::format as f; let x = 1; f!("{}{x}", 2)', "", NEW)
case("macros handed on by a module", 'own::show!("{}{x}", 1, x = 2)', 'mod own { pub(crate) use @own::format as show; }', NEW)
case("macros by glob", 'let x = 3; format!("{}{x}", 2)', 'mod g { pub(crate) use @own::format; } use self::g::format;', NEW)
case("macros shadowing std's", 'use @names::{format_args, write, writeln}; use @dyn as _; let mut w = @new; write!(w, "{}", 1).unwrap(); writeln!(w).unwrap(); writeln!(w, "{}", 5).unwrap(); let s = F!("@shown", format_args!("{:?}", "x")); @done(w) + &s', "", NEW)

# ---- control flow in arguments
case("return in an argument", 'fn g(x: Option<u8>) -> String { F!("{}", match x { Some(x) => x, None => return "none".to_string() }) } g(None) + &g(Some(1))')
case("question mark in an argument", 'fn g(x: &str) -> Result<String, std::num::ParseIntError> { Ok(F!("{}{:?}", x.parse::<u8>()?, x)) } F!("{:?}{:?}", g("5"), g("x"))')
case("question mark after write", 'use @dyn as _; fn g(w: &mut @T, ok: bool) -> Result<(), Box<dyn std::error::Error>> { W!(w, "{}", 1)?; if !ok { return Err("no".into()); } L!(w, "{}", "x".len())?; Ok(()) } let mut w = @new; let a = F!("{:?}{:?}", g(&mut w, true).is_ok(), g(&mut w, false).is_ok()); @done(w) + &a', "", NEW)
case("break and continue in arguments", "let mut s = String::new(); 'o: for i in 0..6 { for j in 0..6 { s += &F!(\"{}{}\", if i == 4 { break 'o } else { i }, if j > i { continue 'o } else { j }); } } s")
case("break with a value", 'let s = loop { break F!("{}", loop { break 5 }) }; s')
case("unreachable arguments", '#[allow(unreachable_code)] fn g() -> String { F!("{}", { return String::from("out"); #[allow(unreachable_code)] 5 }) } g()')
case("await in arguments", 'async fn two() -> u8 { 2 } block(async { let x = 1; F!("{}{x}{y:?}", two().await, y = two().await) })', "@block", NEW)
case("a future that can be sent", 'fn send<T: Send>(t: T) -> T { t } async fn two() -> u8 { 2 } block(send(async { let s = F!("{}", 1); let n = two().await; let t = F!("{}{}", s, two().await); F!("{}{n}", t) }))', "@block", NEW)
case("a future that can be sent, write", 'use @dyn as _; fn send<T: Send>(t: T) -> T { t } async fn two() -> u8 { 2 } block(send(async { let mut w = @new; W!(w, "{}", 1).unwrap(); let n = two().await; L!(w, "{}{n}", n).unwrap(); let _ = two().await; W!(&mut w, "{}", two().await).unwrap(); @done(w) }))', "@block", NEW)
case("async closures and blocks that move", 'let s = String::from("s"); block(async move { F!("{s}{}", s.len()) })', "@block", NEW)
case("nested calls", 'let v = 1; F!("{}{}{v}", F!("{v}"), F!("{}", F!("{:?}", v)))')
case("nested arguments", 'let v = 1; F!("@shown{}", A!("{v}{}", A!("x").to_string_()), 2)', 'trait T { fn to_string_(&self) -> u8; } impl<X> T for X { fn to_string_(&self) -> u8 { 7 } }')
case("blocks in arguments", 'F!("{}{}{}", { let x = 1; x + 1 }, if true { 1 } else { 2 }, match 5 { 5 => "five", _ => "other" })')
case("closures in arguments", 'let v = 2; F!("{}{}", (|x: u8| x + v)(1), (0..3).map(|x| x * 2).sum::<i32>())')
case("unsafe blocks in arguments", '#[allow(unused_unsafe, unsafe_code)] { F!("{}", unsafe { 5 }) }')
case("macros in arguments", 'F!("{:?}{}{}", vec![1, 2], concat!("a", "b"), stringify!(x y))')
case("casts, ranges, comparisons and references", 'let a = 5i64; F!("{}{:?}{}{}{:?}", a as u8, 0..3, a < 6, &&a, &[1][..])')
case("struct literals, tuples, arrays and indexing", '#[derive(Debug)] struct P { x: u8 } let t = (1, [2, 3]); F!("{:?}{}{}{:?}", P { x: 1 }, t.0, t.1[1], ((1, 2), [3; 2]))')
case("assignments in blocks", 'let mut n = 0; let s = F!("{}{}", { n += 1; n }, { n += 1; n }); F!("{s}{n}")')
case("values stay usable", 'let s = String::from("s"); let b = Box::new(5); let x = F!("{}{}{s}{b}", s, b); x + &s + &b.to_string()')
case("mutable references and dereferences", 'let mut x = 5; let r = &mut x; let s = F!("{}{}", r, *r); *r += 1; F!("{s}{x}")')
case("mutable references reborrowed", 'fn g(r: &mut String) -> String { let s = F!("{r}{}", r.len()); r.push(\'x\'); s + &F!("{}", r) } g(&mut String::from("s"))')
case("guards as arguments", 'let m = std::sync::Mutex::new(5); let a = F!("{}", m.lock().unwrap()); let b = F!("{:?}", *m.lock().unwrap()); a + &b')
case("guards in tail position", 'fn g() -> String { let c = std::cell::RefCell::new(5); F!("{}{}", c.borrow(), { let v = *c.borrow(); v }) } g()')
case("guards in the writer's place", 'use @dyn as _; let c = std::cell::RefCell::new(@new); W!(c.borrow_mut(), "{}", 1).unwrap(); L!(c.borrow_mut(), "{}", 2).unwrap(); let w = c.into_inner(); @done(w)', "", NEW)
case("write in tail position", 'use @dyn as _; fn g(w: &mut @T) -> @R { let s = std::cell::RefCell::new(String::from("x")); let r = W!(w, "{}", s.borrow()); r } let mut w = @new; g(&mut w).unwrap(); @done(w)', "", NEW)
case("unsized places", 'let s: Box<str> = "abc".into(); let d: &std::fmt::Debug_ = &5; F!("{}{:?}{}{}", &*s, d, &s[1..], s)'.replace("&std::fmt::Debug_", "&dyn std::fmt::Debug"))
case("trait objects and generics", 'fn g<T: std::fmt::Display + ?Sized>(t: &T) -> String { F!("{}{t}{:>4}", t, t) } g("a") + &g(&5 as &dyn std::fmt::Display)')
case("generic bounds of each trait", 'use std::fmt::*; fn g<A: Display, B: Debug, C: LowerHex + UpperHex + Octal + Binary, D: LowerExp + UpperExp, E: Pointer>(a: A, b: B, c: C, d: D, _e: E) -> std::string::String { F!("{a}{b:?}{c:x}{c:X}{c:o}{c:b}{d:e}{d:E}") } g(1, "b", 255, 1.5, &1)')
case("impl trait arguments", 'fn g(t: impl std::fmt::Display, u: &impl std::fmt::Debug) -> String { F!("{t}{u:?}{}{:?}", t, u) } g("a", &"b")')
case("generic parameters and constants", 'fn g<\'a, T: std::fmt::Debug, const N: usize>(t: &\'a [T; N]) -> String { F!("{N}{}{t:?}", N) } g(&[1, 2])')
case("constants and statics captured", 'F!("{K}{S}{}{:?}", K, S)', "const K: u8 = 5; static S: &str = \"s\";")
case("associated constants", 'T::f()', 'struct T; impl T { const K: u8 = 4; fn f() -> String { F!("{}{}", Self::K, T::K) } }')
case("self in methods", 'T { a: 1 }.f()', 'struct T { a: u8 } impl T { fn f(&self) -> String { F!("{}{}", self.a, self) + &F!("{self}{self:>4}") } } impl std::fmt::Display for T { fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result { f.pad("T") } }')
case("self by value and by mutable reference", 'let mut t = T(1); let a = t.g(); a + &t.f()', '#[derive(Debug)] struct T(u8); impl T { fn f(self) -> String { F!("{self:?}{}", self.0) } fn g(&mut self) -> String { self.0 += 1; F!("{:?}{self:?}", self) } }')
case("self through a macro", 'T(1).f()', '#[derive(Debug)] struct T(u8); macro_rules! m { ($s:ident) => { F!("{:?}{}", $s, $s.0) } } impl T { fn f(&self) -> String { m!(self) } }')
case("default methods of traits", '5u8.f()', 'trait T: std::fmt::Debug { fn f(&self) -> String { F!("{self:?}{:?}", self) } } impl T for u8 {}')
case("implementations for values", 'F!("{:?}{}", 1, 2) + &F!("@shown", V(3))', 'struct V(u8); impl @V for V { fn fmt(&self, f: &mut @f) -> @R { W!(f, "<{}{:?}>", self.0, self.0)?; L!(f)?; W!(f, "@shown", A!("{}", 1)) } }', NEW)
case("implementations with generics and lifetimes", 'F!("@shown", V(&3, "x"))', 'struct V<\'a, T>(&\'a T, &\'a str); impl<\'a, T: std::fmt::Debug> @V for V<\'a, T> { fn fmt(&self, f: &mut @f) -> @R { let V(a, b) = self; W!(f, "{a:?}{b}")?; f.write_fmt(A!("{}", b)) } }', NEW)
case("implementations for references and boxes", 'F!("@shown", V(vec![1]))', 'struct V(Vec<u8>); impl @V for V { fn fmt(&self, f: &mut @f) -> @R { self.0.iter().try_for_each(|x| W!(f, "{x},"))?; let mut g = || W!(f, "{}", 1); g()?; for (i, x) in self.0.iter().enumerate() { W!(f, "{i}{x}")?; } match self.0.len() { 0 => W!(f, "none"), n @ 1 => W!(f, "one{n}"), _ => L!(f) } } }', NEW)
case("Drop implementations", 'let v = std::cell::RefCell::new(String::new()); drop(D(&v)); v.into_inner()', "struct D<'a>(&'a std::cell::RefCell<String>); impl<'a> Drop for D<'a> { fn drop(&mut self) { *self.0.borrow_mut() += &F!(\"{}\", 5); } }")

# ---- where the call stands
case("closures", 'let v = 1; let f = || F!("{v}{}", v); let g = move |x: u8| F!("{x}{v}"); f() + &g(2)')
case("closures that mutate", 'let mut s = String::new(); let mut f = |x: u8| s += &F!("{x}"); f(1); f(2); s')
case("closures that are sent and shared", 'fn both<T: Fn() -> String + Send + Sync + \'static>(t: T) -> String { std::thread::spawn(t).join().unwrap() } let v = 5; both(move || F!("{v}{}", v))')
case("threads", 'let v = String::from("v"); std::thread::scope(|s| { s.spawn(|| F!("{v}{}", v.len())).join().unwrap() })')
case("function pointers", 'fn g(x: u8) -> String { F!("{x}") } let f: fn(u8) -> String = g; [f(1), f(2)].concat()')
case("iterators", '(0..3).map(|i| F!("{i}{}", i * 2)).collect::<Vec<_>>().join(",")')
case("conditions and guards", 'if F!("{}", 1) == "1" { match 1 { x if F!("{x}") == "1" => F!("y{}", x), _ => String::new() } } else { String::new() }')
case("while and let else", 'let mut n = 0; while F!("{n}").len() < 2 { n += 1; } let Some(s) = Some(F!("{n}")) else { return String::new() }; s', "", ("2018", "2021", "2024"))
case("patterns", 'let (a, ref b, [c, ..]) = (1, 2, [3, 4]); let Some(d) = Some(5) else { unreachable!() }; F!("{a}{b}{c}{d}")', "", NEW)
case("bindings with at", 'match 5u8 { n @ 1..=9 => F!("{n}{}", n), n => F!("{}", n) }')
case("shadowed names", 'let x = 1; let s = F!("{x}"); let x = F!("{x}{s}"); let t = { let x = 2; F!("{x}") + &s }; t + &x')
case("loop variables", 'let mut s = String::new(); for (i, c) in "ab".chars().enumerate() { s += &F!("{i}{c}"); } s')
case("parameters of functions", 'fn g(a: u8, (b, c): (u8, u8), _d: u8) -> String { F!("{a}{b}{c}") } g(1, (2, 3), 4)')
case("arguments of other macros", 'assert!(true, "{}", F!("{}", 1)); assert_eq!(F!("{}", 1), "1"); let v = vec![F!("{}", 1), F!("{}", 2)]; println!("{}", F!("{}", 3).len()); v.concat()')
case("arguments of functions", 'fn g(a: &str, b: String) -> String { b + a } g(&F!("{}", 1), F!("{}", 2))')
case("fields, arrays, tuples and methods", 'struct S { s: String } let s = S { s: F!("{}", 1) }; let t = (F!("{}", 2), [F!("{}", 3)]); s.s.clone() + &t.0 + &t.1[0] + &F!(" {} ", 4).trim().to_owned() + &*F!("{}", 5)')
case("operators", 'F!("{}", 1) + &F!("{}", 2) + if F!("{}", 1) < F!("{}", 2) { "lt" } else { "ge" }')
case("statements and expressions", 'F!("{}", 1); let _ = F!("{}", 2); let s; s = F!("{}", 3); { F!("{}", 4) }; (F!("{}", s))'.replace('F!("{}", 1); ', "").replace('{ F!("{}", 4) }; ', ""))
case("statics with lazy values", 'S.with(|s| s.clone()) + L.get_or_init(|| F!("{}", 2))', 'thread_local! { static S: String = F!("{}", 1); } static L: std::sync::OnceLock<String> = std::sync::OnceLock::new();')
case("constants of functions", 'K(1)', 'const K: fn(u8) -> String = |x| F!("{}", x);')
case("functions in constants", 'T::F(1)', 'struct T; impl T { const F: fn(u8) -> String = { fn g(x: u8) -> String { F!("{x}") } g }; }')
case("modules in functions", 'mod inner { pub(crate) fn f() -> String { F!("{}", 1) } } inner::f()')
case("types' parameters with names of the values", 'fn g<x: std::fmt::Debug + Copy>(y: x) -> String { F!("{y:?}{x:?}", x = y) } g(1)', "#[allow(non_camel_case_types)] const _A: () = ();".replace("#[allow(non_camel_case_types)] const _A: () = ();", ""))
case("recursion", 'fn g(n: u8) -> String { if n == 0 { F!("0") } else { F!("{n}{}", g(n - 1)) } } g(5)')
case("const functions around", 'const fn k() -> u8 { 5 } F!("{}", k())')
case("diverging arms", 'fn g(x: u8) -> String { match x { 0 => F!("zero"), 1 => panic!("{}", F!("one")), _ => unreachable!("{x}") } } g(0)', "", ("2021", "2024"))
case("panics with the text", 'let r = std::panic::catch_unwind(|| { if true { std::panic::panic_any(F!("{}", 5)) } }); *r.unwrap_err().downcast::<String>().unwrap()')
case("results", 'fn g() -> Result<u8, String> { None.ok_or_else(|| F!("{}", 5)) } g().unwrap_err() + &Some(1).map_or_else(|| F!("none"), |x| F!("{x}"))')
case("arguments bound to a name", 'let x = 1; let a = A!("{x}{}", x); F!("@shown", a)')
case("arguments bound to a name, constants", 'let a = A!("{}{:?}", 1, "x"); F!("@shown@shown", a, a)')
case("arguments as parameters", 'fn g(a: @Args) -> String { F!("<@shown>", a) } let x = 5; g(A!("{x}{}", x + 1))')
case("arguments by reference", 'fn g(a: &@Args) -> String { F!("<@shown>", a) } let x = 5; g(&A!("{x}{}", x + 1))')
case("arguments handed down", 'fn g(a: @Args, n: u8) -> String { if n == 0 { F!("@shown", a) } else { g(A!("{n}@shown", a), n - 1) } } g(A!("x"), 3)')
case("arguments in a match", 'let x = 5; match A!("{x}{}", x) { a => F!("@shown", a) }')
case("arguments in a closure", 'let f = |a: @Args| F!("@shown", a); let x = 1; f(A!("{}", x)) + &f(A!("lit"))')
case("arguments with temporaries", 'F!("@shown", A!("{}{:?}", String::from("t"), vec![1]))')
case("arguments to a writer", 'use @dyn as _; let mut w = @new; w.write_fmt(A!("{}", String::from("t"))).unwrap(); let r: &mut dyn @dyn = &mut w; r.write_fmt(A!("{}", 2)).unwrap(); @done(w)', "", NEW)

# ---- the writer
case("writers of many kinds", 'use @dyn as _; struct H { w: @T } let mut h = H { w: @new }; W!(h.w, "{}", 1).unwrap(); L!(&mut h.w, "{}", 2).unwrap(); { let r = &mut h; W!(r.w, "{}", 3).unwrap(); let w = &mut r.w; W!(w, "{}", 4).unwrap(); W!(*w, "{}", 5).unwrap(); L!(w).unwrap(); } let mut v = [h.w]; W!(v[0], "{}", 6).unwrap(); let [w] = v; @done(w)', "", NEW)
case("writers from functions", 'use @dyn as _; fn id(w: &mut @T) -> &mut @T { w } let mut w = @new; W!(id(&mut w), "{}", 1).unwrap(); L!({ &mut w }, "{}", 2).unwrap(); W!((&mut w), "{}", 3).unwrap(); W!(if true { &mut w } else { unreachable!() }, "{}", 4).unwrap(); @done(w)', "", NEW)
case("writers by trait", 'use @dyn; fn g<T: Write + ?Sized>(w: &mut T) { W!(w, "{}", 1).unwrap(); } fn h(w: &mut dyn Write) { L!(w, "{}", 2).unwrap(); } fn i(mut w: impl Write) { W!(w, "{}", 3).unwrap(); } let mut w = @new; g(&mut w); h(&mut w); i(&mut w); g(&mut w as &mut dyn Write); let mut b: Box<dyn Write> = Box::new(@new); W!(b, "{}", 4).unwrap(); @done(w)'.replace("use @dyn;", "use @dyn;"), "", NEW)
case("writers used in their own arguments", 'use @dyn as _; let mut w = @new; let n = 5; W!(w, "{}", { n }).unwrap(); W!(w, "{n}{}", n).unwrap(); @done(w)', "", NEW)
case("writes as values", 'use @dyn as _; let mut w = @new; let r: @R = W!(w, "{}", 1); let s = L!(w).and(W!(w, "{}", 2)).is_ok(); let f = |w: &mut @T| W!(w, "{}", 3); let t = f(&mut w); match W!(w, "x") { Ok(()) => {} Err(e) => panic!("{}", e) } let text = @done(w); F!("{:?}{s}{:?}{text}", r, t)', "", NEW)
case("writes of bytes", 'use @IoDyn as _; let mut w = @io; W!(w, "{}", 1).unwrap(); L!(&mut w, "{x}", x = 2).unwrap(); let r: std::io::Result<()> = L!(w); r.unwrap(); fn g(w: &mut dyn @IoDyn) -> std::io::Result<()> { W!(w, "{}", 3)?; L!(w, "{}", 4) } g(&mut w).unwrap(); @iodone(w)', "", NEW)
case("a writer with a write_fmt of its own", 'let mut w = O(0); W!(w, "{}", 1); L!(w, "{}", 2); L!(w); F!("{}", w.0)', 'struct O(u8); impl O { fn write_fmt(&mut self, _: @Args) { self.0 += 1; } }')

# ---- forms of the call
case("delimiters", 'F!("{}", 1) + &F![ "{}", 2] + &F!{"{}", 3}'.replace("F![", "FB[").replace("F!{", "FC{"))
case("trailing commas and white space", 'F!("{}" , 1 , ) + &F!(\n"{}"\n,\n2\n) + &F!("x" ,) + &F!(/* c */ "{}" /* d */, // e\n 3)')
case("strings over lines", 'F!("a\\\n      b{}\n{}", 1, 2) + &F!(r#"{}"\\{{}}"#, 3)')
case("strings with escapes", 'F!("\\u{7b}}}\\x41\\t\\u{1F600}{}", 1)'.replace("\\u{7b}", "{{"))
case("raw identifiers", 'let r#type = 1; let r#fn = 2; F!("{type}{fn}{r#type}", r#type = r#type)'.replace("{r#type}", ""))
case("names that are keywords in some editions", 'let r#async = 1; let r#dyn = 2; let r#try = 3; let r#gen = 4; F!("{async}{dyn}{try}{gen}")')
case("names of the library's own", 'let f = 1; let fmt = 2; let style = 3; let args = 4; let arg = 5; let formatter = 6; let width = 7; F!("{f}{fmt}{style}{args}{arg}{formatter}{width}{}", f + fmt)')
case("underscores and non-ascii names", 'let _x = 1; let __y = 2; let é = 3; F!("{_x}{__y}{é}{}", é)', '')
case("underscores", 'let _x = 1; let __y = 2; F!("{_x}{__y}{}", __y)')
case("nothing", 'F!("") + &F!("{{}}") + &A_(A!(""))', 'fn A_(_: @Args) -> String { String::new() }'.replace("A_", "a_"))
CASES = [(n, i, b.replace("A_(", "a_("), e) for n, i, b, e in CASES]
case("many arguments", 'F!("' + "{}" * 40 + '", ' + ", ".join(str(i) for i in range(40)) + ")")
case("positions and names mixed", 'let z = 9; F!("{1}{0}{a}{}{z}{0:?}{a:>3}", 1, 2, a = 3)')
case("byte and char values", "F!(\"{}{:?}{}{:?}\", 'c', '\\'', b'x', \"q\\\"\")")
case("numbers of all types", 'F!("{}{}{}{}{}{}", 1u8, 2i128, 3usize, 4.5f32, -1i8, 1_000)')
case("options, results and units", 'F!("{:?}{:?}{:?}{:?}", Some(1), None::<u8>, Ok::<u8, ()>(1), ())')

BLOCK = """#[allow(unused_qualifications)] fn block<T>(f: impl std::future::Future<Output = T>) -> T { let mut f = Box::pin(f); struct W; impl std::task::Wake for W { fn wake(self: std::sync::Arc<Self>) {} } let w = std::sync::Arc::new(W).into(); let mut c = std::task::Context::from_waker(&w); loop { if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut c) { return x; } } }"""

# control flow out of arguments of every form: what leaves, in what form, at which place
LEAVES = {
    "return": ("fn go_(x: Option<u8>) -> String { let r = CALL; r }", "match x { Some(x) => x, None => return String::from(\"out\") }"),
    "?": ("fn go_(x: Option<u8>) -> String { fn g(x: Option<u8>) -> Option<String> { Some(CALL) } format!(\"{:?}\", g(x)) }", "x?"),
    "break": ("fn go_(x: Option<u8>) -> String { 'o: loop { break CALL; } }", "match x { Some(x) => x, None => break 'o String::from(\"out\") }"),
    "continue": ("fn go_(x: Option<u8>) -> String { let mut s = String::new(); 'o: for x in [x, Some(9)] { s += &CALL; s += \";\"; } s }", "match x { Some(x) => x, None => continue 'o }"),
    "await": ("fn go_(x: Option<u8>) -> String { async fn later(x: Option<u8>) -> u8 { x.unwrap_or(7) } block(async { CALL }) }", "later(x).await"),
    "nothing": ("fn go_(x: Option<u8>) -> String { CALL }", "x.unwrap_or(7)"),
}
FORMS = ["E", "{ E }", "{ let a = E; a }", "if x != Some(3) { E } else { 0 }", "if let Some(4) = x { 1 } else { E }", "match x { Some(5) => 0, _ => E }", "loop { break { E } }", "std::convert::identity(E)", "5u8.max(E)", "(E, 1).0", "[0, E][1]", "vec![E][0]", "Some(E)", "S_ { a: E }.a", "S_ { a: E }", "E + 1", "1 + E", "-(E as i16)", "&E", "&&E", "*&E", "E as u32", "(E)", "0..E", "E == 5", "!(E)", "'l: { if x == Some(6) { break 'l 0 } E }", "unsafe { E }", "{ fn q() -> u8 { 2 } q() + E }", "[E; 2]", "[E, E]", "F!(\"{}\", E)", "&F!(\"{}\", E)[..]", "(|y: u8| y)(E)", "E.to_string()", "{ const C: u8 = 1; C + E }", "while x == Some(8) { E; }", "assert!(E < 200)", "Box::new(E)", "{ E; 3 }", "return_value(E)"]
PLACES = ["F!(\"{:?}\", E)", "F!(\"{:?}{:?}\", E, 5)", "F!(\"{:?}{:?}\", 5, E)", "F!(\"{0:?}{0:?}\", E)", "F!(\"{a:?}\", a = E)", "F!(\"{:?}{a:?}{a:?}\", 1, a = E)", "F!(\"@shown\", A!(\"{:?}\", E))", "{ use @dyn as _; let mut w = @new; L!(w, \"{:?}\", E).unwrap(); @done(w) }"]


def leaving(rng, thorough):
    for kind, (around, leave) in LEAVES.items():
        for k, form in enumerate(FORMS):
            places = PLACES if thorough else [PLACES[0]] + rng.sample(PLACES[1:], 2)
            for place in places:
                e = re.sub(r"\bE\b", lambda _: leave if form == "E" or kind in ("?", "await", "nothing") else "(" + leave + ")", form)
                # a match, an if, a block or a loop as it is
                call = re.sub(r"\bE\b", lambda _: e, place)
                yield (f"control flow: {kind}, {form}, in {place}", "#![allow(unused_parens, unused_qualifications, unused_variables, unreachable_code, trivial_numeric_casts, unused_labels, path_statements, unused_unsafe, unsafe_code, unused_must_use, unused_comparisons, trivial_casts, unused_assignments)] " + BLOCK + " #[derive(Debug)] #[allow(dead_code)] pub(crate) struct S_ { a: u8 } fn return_value<T>(t: T) -> T { t } " + around.replace("CALL", call), "format!(\"{}|{}\", go_(None), go_(Some(2)))", ("2018", "2021", "2024"))


# the user's own items in scope, by the names of the prelude, the standard library, stylish
# and of common variables: in the module, in the function or glob imported
VALUES = "Ok Err Some None Argument Arguments Formatter Placeholder Style StyleDiff Foreground Background Intensity Color Red Green Bold Faint Normal Left Plus Default String Vec Box format format_args write writeln concat stringify drop identity Fn from_fn with fmt args formatter value a b c d e f g i j k l m n o p r s t u v w x y z it arg args_ buf buffer out output result res text style string str error err inner value0 data sink dest writer tmp temp this other arguments diff argument lit left right".split()
TYPES = "Option Result String Vec Box str u8 usize u32 i32 f64 bool char Arguments Formatter FormatterArgs StdFmt StdFmtDebug Error Style StyleDiff Restyle Foreground Background Intensity Color Align Sign DebugHex Plain core std alloc stylish stylish_core stylish_macros fmt io default option plain macros string Into From Default Clone Fn FnOnce FnMut Display Debug LowerHex Write Iterator Send Sync ToString ToOwned Argument Self_ T F".split()
MACROS = "format format_args format_args_nl _format_args write writeln concat stringify include_str env line panic assert vec with_builtin compile_error".split()
METHODS = "fmt with write_str write_char to_string to_owned clone into as_ref as_mut borrow borrow_mut apply new default call as_str deref try_into map unwrap_or and_then as_deref get style then from_ref".split()
SCOPE = {
    "const": ("#[allow(non_upper_case_globals)] VIS const N: u8 = 1;", VALUES),
    "static": ("#[allow(non_upper_case_globals)] VIS static N: u8 = 1;", VALUES),
    "function": ("#[allow(non_snake_case)] VIS fn N(_: u8) -> u8 { 1 }", VALUES),
    "unit struct": ("#[allow(non_camel_case_types)] VIS struct N;", VALUES),
    "tuple struct": ("#[allow(non_camel_case_types)] VIS struct N(VIS u8);", VALUES),
    "variants": ("#[allow(non_camel_case_types)] VIS enum Variants_ { N(u8), #[allow(dead_code)] Other_ } #[allow(unused_imports)] VIS use self::Variants_::*;", VALUES),
    "type": ("#[allow(non_camel_case_types)] VIS struct N { VIS a_: u8 }", TYPES),
    "type alias": ("#[allow(non_camel_case_types)] VIS type N = u64;", TYPES),
    "trait": ("#[allow(non_camel_case_types)] VIS trait N {}", TYPES),
    "module": ("#[allow(non_snake_case)] VIS mod N { VIS fn nothing_() {} }", TYPES),
    "macro": ("#[allow(unused_macros)] macro_rules! N { ($($t:tt)*) => { ::core::compile_error!(\"the user's macro\") } }", MACROS),
    "methods": ("VIS trait Methods_ { fn N(self) -> u8 where Self: ::core::marker::Sized { 1 } } impl<X: ?::core::marker::Sized> Methods_ for X {}", METHODS),
    "methods by reference": ("VIS trait Methods_ { fn N(&self, _: u8) -> u8 { 1 } } impl<X: ?::core::marker::Sized> Methods_ for X {}", METHODS),
}
SCOPED = """let (x_, y_) = (5, "y"); let mut r_ = ::std::string::String::new();
r_ += &F!("{}{x_:?}{y_:>4}{a_:#x}{:08.2}{:e}", x_, 1.5, 2.5, a_ = 7); r_ += &F!("@shown", A!("{}{0:?}", "z")); r_ += &F!(concat!("{:", "?}"), 'c');
{ use @dyn as _; let mut w_ = @new; W!(w_, "{y_}{:?}", 1).unwrap(); L!(w_, "{:+}", 1).unwrap(); L!(w_).unwrap(); r_ += &@done(w_); } r_"""


def scopes(rng, thorough):
    groups = [[k for k in SCOPE if SCOPE[k][1] is names] for names in (VALUES, TYPES, MACROS, METHODS)]
    for kinds in groups:
        for name in SCOPE[kinds[0]][1]:
            for kind in kinds if thorough else rng.sample(kinds, min(2, len(kinds))):
                item = re.sub(r"\bN\b", name, SCOPE[kind][0])
                body = SCOPED
                for place in ("module", "function", "glob") if thorough else [rng.choice(("module", "function", "glob"))]:
                    if kind == "macro" and place == "glob":
                        place = "module"
                    if place == "module":
                        items, b = item.replace("VIS", "pub(crate)"), body
                    elif place == "function":
                        items, b = "", item.replace("VIS ", "").replace("self::", "") + "\n" + body
                    else:
                        items, b = "mod glob_ { " + item.replace("VIS", "pub(crate)") + " } #[allow(unused_imports)] use self::glob_::*;", body
                    yield (f"the user's own {kind} {name} in the {place}", items, b, NEW)


# calls as expressions of type String, for random nestings of contexts
CALLS = ['F!("{}", 1)', 'F!("{v}{}", v)', 'F!("{s:?}{:>5}", s)', 'F!("{t}{t:?}{n:x}", n = v)', 'F!("{0}{0:?}", &s)', 'F!("lit")', 'F!("{}{}", t.len(), &t[..])', 'F!("@shown", A!("{}{v}", s))',
         '{ use @dyn as _; let mut w = @new; W!(w, "{}{v}", s).unwrap(); L!(w, "{}", t).unwrap(); @done(w) }', '{ let f = |a: @Args| F!("@shown", a); f(A!("{v}{}", t)) }', 'F!("{:?}", (v, s, &t))', 'F!("{:+}{:#x}{:08.3}", v, v, 1.5)', 'F!("{}", { let v = F!("{v}"); v + s })', 'F!("{k}", k = F!("{}", F!("{s}")))', 'F!("{K}{}", K)']
WRAPS = ["(|| E)()", "{ let s = E; s }", "loop { break E; }", "match v { 0 => String::new(), _ => E }", "if let Some(x) = Some(E) { x } else { E }", "(E, 1).0", "[E, E].concat()", "E + &E", "Some(E).unwrap()", "E.trim().to_string()", "Some(v).map(|v| E).unwrap()",
         "(0..2).map(|v| E).collect::<String>()", "{ let t = E; E }", "{ let (s, t) = (\"other\", E); E }", "std::thread::scope(|h| h.spawn(|| E).join().unwrap())", "{ fn g(v: u8, s: &str, t: String) -> String { E } g(v, s, t.clone()) }",
         "{ struct G<'a>(&'a str); impl<'a> G<'a> { fn g<T: std::fmt::Display + std::fmt::Debug + Clone>(&self, v: T, t: String) -> String { let s = self.0; E } } G(s).g(\"g\", t.clone()) }", "{ let v = &v; E }", "{ let mut t = t.clone(); let t = &mut t; E }", "F!(\"<{}>\", E)", "block(async { E })", "{ macro_rules! m { ($v:ident) => { E } } m!(v) }",
         "{ macro_rules! m { ($e:expr) => { $e } } m!(E) }", "{ macro_rules! m { ($($t:tt)*) => { $($t)* } } m!(E) }", "vec![E].remove(0)", "*Box::new(E)", "unsafe { E }", "{ const fn c() {} c(); E }", "String::from(E)", "E.parse::<String>().unwrap()", "return_!(E)", "std::convert::identity(E)", "{ let x = std::cell::RefCell::new(E); let y = x.borrow().clone(); y }", "(move || E)()"]


def random_cases(rng, n):
    for i in range(n):
        e = rng.choice(CALLS)
        wraps = [rng.choice([w for w in WRAPS if not w.startswith(("return_", "unsafe"))]) for _ in range(rng.randrange(1, 5))]
        size = 1
        for w in wraps:
            size *= w.count("E") if "E" in w else 1
            if size > 8:
                break
            e = "(" + re.sub(r"\bE\b", lambda _: e, w) + ")"
        yield (f"nested {i}", "#![allow(unused_parens, unused_qualifications, let_underscore_drop, non_local_definitions, unused_variables)] " + BLOCK + " const K: u8 = 6;", 'let v = 5u8; let s = "s"; let t = String::from("t"); let r = ' + e + "; let _ = (v, s, &t); r", ("2018", "2021", "2024"))


LINTS = ["warnings", "unused", "future_incompatible", "nonstandard_style", "rust_2018_idioms", "let_underscore", "keyword_idents", "non_ascii_idents", "uncommon_codepoints", "unused_qualifications", "trivial_casts", "trivial_numeric_casts", "elided_lifetimes_in_paths", "explicit_outlives_requirements", "unreachable_pub", "unsafe_code", "unused_extern_crates", "unused_results", "variant_size_differences", "macro_use_extern_crate", "if_let_rescope", "redundant_lifetimes", "meta_variable_misuse", "missing_abi", "unit_bindings", "unused_import_braces", "unused_lifetimes", "unused_macro_rules", "absolute_paths_not_starting_with_crate", "refining_impl_trait", "ambiguous_negative_literals", "closure_returning_async_block", "redundant_imports", "impl_trait_redundant_captures"]
ALLOWED = ["unused_imports", "unused_macros", "dead_code", "unused_macro_rules", "unused_must_use", "non_snake_case", "non_upper_case_globals", "non_camel_case_types", "unused_braces"]

RULE = "a case (a context with a call of the macros in it) in one edition, with no lints or all lints denied; non-trivial if std's macro is accepted there, so that stylish's is judged and its text compared"


class Unit:
    """one crate of cases, compiled with one of the two sets of macros"""

    def __init__(self, name, cases, edition, lints, sty, extra=""):
        self.name, self.cases, self.edition, self.lints, self.sty, self.extra = name, cases, edition, lints, sty, extra
        self.errors = {}

    def source(self, alive):
        head = []
        if self.lints:
            head.append("#![deny(" + ", ".join(LINTS) + ")]")
            head.append("#![allow(" + ", ".join(ALLOWED) + ")]")
        else:
            head.append("#![allow(warnings)]")
        if self.edition == "2015":
            head.append("extern crate stylish; extern crate mid;" if not self.lints else "#[allow(unused_extern_crates)] extern crate stylish; #[allow(unused_extern_crates)] extern crate mid;")
        lines = list(head)
        where = []
        for i, (name, items, body, _) in alive:
            text = render(f"mod case_{i} {{\n{items.replace('@block', BLOCK)}\npub(crate) fn go() -> ::std::string::String {{\n{body}\n}}\n}}", self.sty)
            lib = "::stylish::plain::format!" if self.sty else "::std::format!"
            text = text.replace("FB[", lib + "[").replace("FC{", lib + "{")
            a = len("\n".join(lines).split("\n")) + 1
            lines.append(text)
            where.append((a, a + text.count("\n"), i))
        main = "fn main() {\n" + "".join(f'println!("\\n@{i} {{:?}}", ::std::panic::catch_unwind(case_{i}::go).map_err(|_| "panicked"));\n' for i, _ in alive) + "}"
        lines.append(main)
        return "\n".join(lines) + "\n", where

    def run(self, rustc):
        alive = list(self.cases)
        d = os.path.join(WORK, "c26")
        src, exe = os.path.join(d, self.name + ".rs"), os.path.join(d, self.name)
        for _ in range(40):
            text, where = self.source(alive)
            with open(src, "w") as fh:
                fh.write(text)
            rc, out, err = engine.run(rustc + ["--edition", self.edition, "--error-format=json", "--crate-name", re.sub(r"\W", "_", self.name), "-o", exe, src], d, timeout=300)
            if rc == 0:
                break
            if rc == -999:
                raise Inconclusive(f"{self.name}: the compiler did not finish")
            hit = set()
            stray = []
            for line in err.splitlines():
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if m.get("level") not in ("error", "error: internal compiler error") or m["message"].startswith(("aborting due to", "could not compile")):
                    continue
                ls = engine.lines_of(m, self.name + ".rs")
                found = {i for ln in ls for a, b, i in where if a <= ln <= b}
                if not found:
                    stray.append(m.get("rendered") or m["message"])
                for i in found:
                    hit.add(i)
                    self.errors.setdefault(i, []).append(m["message"] + " " + (m.get("code") or {}).get("code", "") if m.get("code") else m["message"])
            if not hit:
                raise Inconclusive(f"{self.name}: errors outside of the cases: {(stray or [err])[0][:2000]}")
            alive = [(i, c) for i, c in alive if i not in hit]
        else:
            raise Inconclusive(f"{self.name}: does not come down to what compiles")
        self.out = {}
        if alive:
            rc, out, err = engine.run([exe], d, {"RUST_BACKTRACE": "0"}, timeout=60)
            for m in re.finditer(r"^@(\d+) (.*)$", out, re.M):
                self.out[int(m[1])] = m[2]
            if rc != 0:
                self.died = f"{rc}: {err[-400:]}"
                if not self.sty:
                    raise Inconclusive(f"{self.name} ended with {self.died}")
        for p in (exe,):
            if os.path.exists(p):
                os.remove(p)
        return self


def deps():
    """builds mid, and stylish with it; what to tell rustc"""
    src = os.path.join(VERIF, "progs", "mid")
    t = os.path.join(TARGET, "mid")
    fresh_target(t, src)
    rc, out, err = engine.run(["cargo", "build", "--offline", "--message-format=json", "-q"], src, {"CARGO_TARGET_DIR": t}, timeout=400)
    libs, errors = {}, []
    for l in out.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                if f.endswith(".rlib") and m["target"]["name"] in ("stylish", "mid"):
                    libs[m["target"]["name"]] = f
        elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error" and m["target"]["name"] == "mid":
            errors.append(m["message"].get("rendered") or m["message"]["message"])
    if rc != 0:
        return None, errors or [err[-2000:]] if errors else None
    if len(libs) != 2:
        raise Inconclusive(f"only built {sorted(libs)}")
    return ["rustc", "-C", "debuginfo=0", "-C", "linker-features=-lld", "--extern", "stylish=" + libs["stylish"], "--extern", "mid=" + libs["mid"], "-L", "dependency=" + os.path.join(t, "debug", "deps")], None


def run(seed, thorough, known):
    rustc, errors = deps()
    if rustc is None and errors is None:
        raise Inconclusive("the crates do not build")
    violations, samples, counters = [], [], {}
    if rustc is None:
        return dict(evaluations=1, distinct_nontrivial=0, counters={}, samples=[], violations=[("a crate that hands the macros on does not compile", "\n".join(errors)[:3000])], known=[])
    rustc = [x for x in rustc if x != "linker-features=-lld"]
    rustc = [x for i, x in enumerate(rustc) if not (x == "-C" and rustc[i + 1] == "--extern")]
    rng = random.Random(f"c26 {seed}")
    d = os.path.join(WORK, "c26")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cases = CASES + list(leaving(rng, thorough)) + list(scopes(rng, thorough)) + list(random_cases(rng, 2000 if thorough else 240))
    units = []
    for ed in ("2015", "2018", "2021", "2024"):
        for lints in (False, True):
            if lints and ed in ("2018",) and not thorough:
                continue
            mine = [(i, c) for i, c in enumerate(cases) if ed in c[3] and (not lints or "unsafe" not in c[2])]
            for k, part in enumerate([mine[j : j + 140] for j in range(0, len(mine), 140)]):
                pair = []
                for sty in (False, True):
                    pair.append(Unit(f"e{ed}{'lints' if lints else 'plain'}{k}{'sty' if sty else 'std'}", part, ed, lints, sty))
                units.append(pair)
    flat = [u for p in units for u in p]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda u: u.run(rustc), flat))
    evaluations = distinct = rejected = 0
    for std, sty in units:
        for i, c in std.cases:
            evaluations += 1
            how = f"{c[0]}, edition {std.edition}{', all lints denied' if std.lints else ''}"
            if i in std.errors:
                rejected += 1
                counters["not judged: std's macro is rejected"] = counters.get("not judged: std's macro is rejected", 0) + 1
                if std.edition != "2015" and not std.lints:
                    counters.setdefault("cases std rejects with no lints", 0)
                    counters["cases std rejects with no lints"] += 1
                continue
            distinct += 1
            if i in sty.errors:
                violations.append((f"{how}: std's macro is accepted, stylish's is not: {'; '.join(sty.errors[i])[:400]}", f"{c[1]}\n{c[2]}"))
            elif i not in sty.out:
                violations.append((f"{how}: no text, the program ended with {getattr(sty, 'died', '?')}", f"{c[1]}\n{c[2]}"))
            elif sty.out[i] != std.out.get(i):
                violations.append((f"{how}: stylish's text is {sty.out[i]}, std's {std.out.get(i)}", f"{c[1]}\n{c[2]}"))
            elif len(samples) < 8 and (evaluations % 97) == 1:
                samples.append(f"{how}: {sty.out[i][:100]}")
    counters["crates compiled"] = len(flat)
    counters["texts compared"] = sum(len(s.out) for _, s in units)
    if os.environ.get("C26_SHOW"):
        for std, sty in units:
            for i, c in std.cases:
                if i in std.errors:
                    print("STD", std.edition, std.lints, c[0], std.errors[i][0][:150])
    if distinct * 2 < evaluations:
        raise Inconclusive(f"std's macros are rejected in {rejected} of {evaluations} cases")
    if not violations:
        shutil.rmtree(d, ignore_errors=True)
    return dict(evaluations=evaluations, distinct_nontrivial=distinct, counters=counters, samples=samples, violations=violations, known=[], exhaustive=["every case of the list in every edition, with and without lints"])
