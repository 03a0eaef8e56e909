"""C18, the part that is decided at compile time: random format strings through
every macro and everything a macro's result can be handed to."""
import random
from engine import Case, HEAD as BASE, attr_list, literal, new_words, rust_str

HEAD = BASE + r'''
struct Inside<'a>(&'a dyn Fn(&mut stylish::Formatter<'_>) -> stylish::Result);
impl stylish::Display for Inside<'_> {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result { (self.0)(f) }
}
macro_rules! backend {
    ($c:ident, $b:ident, $to:ident, $end:ident, ($($fmt:tt)*) $($args:tt)*) => {{
        let base = { let mut w = stylish::$b(String::new()); stylish::write!(w, $($fmt)* $($args)*).unwrap(); let out = w.into_it(); out };
        $c.text("format!", &stylish::$b::format!($($fmt)* $($args)*), &base);
        $c.text("format", &stylish::$b::format(stylish::format_args!($($fmt)* $($args)*)), &base);
        $c.text("format_args!", &stylish::$b::format!("{:s}", stylish::format_args!($($fmt)* $($args)*)), &base);
        $c.text("to string", &stylish::format!($($fmt)* $($args)*).$to(), &base);
        $c.text("to string of arguments", &stylish::format_args!($($fmt)* $($args)*).$to(), &base);
        $c.text("stylish::format", &stylish::format(stylish::format_args!($($fmt)* $($args)*)).to_stylish_string().$to(), &base);
        $c.text("within a value", &Inside(&|f| stylish::write!(f, $($fmt)* $($args)*)).$to(), &base);
        $c.text("within a value by method", &Inside(&|f| f.write_fmt(stylish::format_args!($($fmt)* $($args)*))).$to(), &base);
        { let mut w = stylish::$b(String::new()); { let d: &mut dyn stylish::Write = &mut w; stylish::write!(d, $($fmt)* $($args)*).unwrap(); } $c.text("trait object", &w.into_it(), &base); }
        { let mut w = stylish::$b(String::new()); stylish::Write::write_fmt(&mut &mut w, stylish::format_args!($($fmt)* $($args)*)).unwrap(); $c.text("references", &w.into_it(), &base); }
        let line = { let mut w = stylish::$b(String::new()); stylish::write!(w, $($fmt)* $($args)*).unwrap(); stylish::Write::write_str(&mut w, "\n", stylish::Style::default()).unwrap(); w.into_it() };
        { let mut w = stylish::$b(String::new()); stylish::writeln!(w, $($fmt)* $($args)*).unwrap(); $c.text("writeln!", &w.into_it(), &line); }
        { let mut w = stylish::$b(String::new()); { let d: &mut dyn stylish::Write = &mut w; stylish::writeln!(d, $($fmt)* $($args)*).unwrap(); } $c.text("writeln! to a trait object", &w.into_it(), &line); }
        $c.text("writeln! within a value", &Inside(&|f| stylish::writeln!(f, $($fmt)* $($args)*)).$to(), &line);
        { let mut w = stylish::$b(String::new()); let mut s = stylish::String::new(); stylish::writeln!(s, $($fmt)* $($args)*).unwrap(); stylish::write!(w, "{:s}", s).unwrap(); $c.text("writeln! to a styled string", &w.into_it(), &line); }
        (base, line)
    }};
}
trait IntoIt { fn into_it(self) -> String; }
impl IntoIt for stylish::Ansi<String> { fn into_it(self) -> String { self.finish().unwrap() } }
impl IntoIt for stylish::Html<String> { fn into_it(self) -> String { self.finish().unwrap() } }
impl IntoIt for stylish::Plain<String> { fn into_it(self) -> String { self.into_inner() } }
fn utf8(v: Vec<u8>) -> String { String::from_utf8(v).unwrap() }
macro_rules! entries {
    ($c:ident, ($($fmt:tt)*) $($args:tt)*) => {{
        let (ansi, ansi_line) = backend!($c, ansi, to_ansi_string, finish, ($($fmt)*) $($args)*);
        let (_, _) = backend!($c, html, to_html_string, finish, ($($fmt)*) $($args)*);
        let (plain, plain_line) = backend!($c, plain, to_plain_string, into_inner, ($($fmt)*) $($args)*);
        { let mut w = stylish::io::ansi(Vec::new()); stylish::write!(w, $($fmt)* $($args)*).unwrap(); $c.text("io::ansi write!", &utf8(w.finish().unwrap()), &ansi); }
        { let mut w = stylish::io::ansi(Vec::new()); stylish::writeln!(w, $($fmt)* $($args)*).unwrap(); $c.text("io::ansi writeln!", &utf8(w.finish().unwrap()), &ansi_line); }
        { let mut w = stylish::io::ansi(Vec::new()); { let d: &mut dyn stylish::io::Write = &mut w; stylish::writeln!(d, $($fmt)* $($args)*).unwrap(); } $c.text("io::ansi writeln! to a trait object", &utf8(w.finish().unwrap()), &ansi_line); }
        { let mut w = stylish::io::plain(Vec::new()); stylish::write!(w, $($fmt)* $($args)*).unwrap(); $c.text("io::plain write!", &utf8(w.into_inner()), &plain); }
        { let mut w = stylish::io::plain(Vec::new()); { use stylish::io::Write as _; stylish::writeln!(w.by_ref(), $($fmt)* $($args)*).unwrap(); } $c.text("io::plain writeln!", &utf8(w.into_inner()), &plain_line); }
        { let mut rec = Rec::default(); stylish::writeln!(rec, $($fmt)* $($args)*).unwrap(); $c.text("text of writeln!", &rec.text(), &plain_line); }
        (plain, plain_line)
    }};
}
'''

LITS = ["", "", "a", " ", "\n", "\n\n", "\r\n", "\r", "{{", "}}", "{{}}", "{{{{", "é", "🦀", "<b>", "&amp;", "\"", "'", "\\", "\t", "\\n", "\x1b", "%s", "$", "#", "//", "\u2028", "\u0301", "\0", "x\n"]
ARGS = ["1", "\"two\"", "\"a\\nb\"", "\"\"", "'c'", "-1.5", "rt::Padded(\"p\")", "rt::Pieces(\"ab\")", "[1, 2]", "rt::tree()", "\"<i>\"", "\"end\\n\""]
DEBUG_ONLY = {"[1, 2]", "rt::tree()"}


def compound(rng, s):
    """the same string, made by macros that take part in format strings"""
    k = rng.randrange(4)
    cuts = sorted(rng.randrange(len(s) + 1) for _ in range(rng.choice([0, 1, 1, 2, 3])))
    parts = [s[a:b] for a, b in zip([0] + cuts, cuts + [len(s)])]
    lits = [rust_str(p) for p in parts]
    if k == 0 and len(lits) > 1:
        lits[0] = "concat!(" + lits[0] + ")"
    elif k == 1:
        lits.insert(rng.randrange(len(lits) + 1), "\"\"")
    return "concat!(" + ", ".join(lits) + rng.choice(["", ","]) + ")"


def case(rng, i, words=(), numbers=()):
    s, args, plain = "", [], ""
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        for _ in range(rng.choice([0, 1, 1, 2])):
            s += literal(rng, words, numbers, 400) if rng.random() < 0.05 else rng.choice(LITS)
        a = attr_list(rng, (rng.choice([None, rng.randrange(17)]), rng.choice([None, rng.randrange(17)]), rng.choice([None, 0, 1, 2]))) if rng.random() < 0.6 else ""
        if rng.random() < 0.3:
            e = rng.choice(["rt::Sty(\"s\")", "stylish::format_args!(\"{:(fg=red)}\\n\", 1)", "stylish::format!(\"{:(bg=blue)}{}\", 1, \"\\n\")", "rt::Sty(\"\\n\")"])
            s += "{:" + a + "s}"
        else:
            e = rng.choice(ARGS) if rng.random() < 0.95 else rust_str(literal(rng, words, numbers, 400))
            t = "?" if e in DEBUG_ONLY else rng.choice(["", "", "?"])
            spec = rng.choice(["", "", ">6", "^7", "<5"])
            s += "{" + (":" + spec + a + t if spec + a + t else "") + "}"
        args.append(e)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        s += rng.choice(LITS)
    tail = "".join(", " + a for a in args)
    lit = rust_str(s)
    if rng.random() < 0.15 and '"' not in s and "\r" not in s and not any(ord(c) < 32 and c != "\n" and c != "\t" for c in s):
        lit = f'r"{s}"'
    if rng.random() < 0.15:
        lit = compound(rng, s)
    code = f"let (plain, line) = entries!(c, ({lit}){tail});\nc.text(\"exactly one newline\", &line, &format!(\"{{plain}}\\n\"));"
    if not args:
        code += f"\nc.text(\"what it says\", &plain, &std::format!({lit}));"
    return Case(f"c18-{i}", code, f"{s!r}{tail}", nontrivial=bool(s), key=s + tail)


def cases(seed, thorough):
    rng = random.Random(f"c18 {seed}")
    words, numbers = new_words()
    out = [Case(f"c18-lit{i}", f"let (plain, line) = entries!(c, ({rust_str(l)}));\nc.text(\"what it says\", &plain, &std::format!({rust_str(l)}));\nc.text(\"exactly one newline\", &line, &format!(\"{{plain}}\\n\"));", repr(l), nontrivial=True, key=l) for i, l in enumerate(sorted(set(a + b for a in LITS for b in ["", "\n", "\n\n", "\r\n", "\\n", "}}\n"])))]
    for i in range(180 if not thorough else 3000):
        out.append(case(rng, i, words, numbers))
    for f, a in [("stringify!(a {} b)", ", 1"), ("concat!(stringify!({}), \"\\n\")", ", 1"), ("env!(\"CARGO_PKG_NAME\")", ""), ("concat!(env!(\"CARGO_PKG_NAME\"), \"{x:(fg=red)}\")", ", x = 3"), ("concat!(\"{\", \":(bold)\", \"}\")", ", 5"), ("concat!(\"{\", \"{\")", "")]:
        out.append(Case(f"c18-made{len(out)}", f"let (plain, line) = entries!(c, ({f}){a});\nc.text(\"exactly one newline\", &line, &format!(\"{{plain}}\\n\"));", f + a, nontrivial=True, key=f))
    return out


RULE = "format strings as programs: literals with newlines, braces and escapes, values with attributes, through every macro, function and conversion of each backend; non-trivial if the string is not empty"
EXHAUSTIVE = []
