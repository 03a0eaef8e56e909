"""C10: arguments are bound and evaluated exactly as std::fmt does. Every program
is run with std::format! as well, which says what is right."""
import random
from engine import Case, KEYWORDS, alike, attr_list, new_words, rust_str

TRAITS = ["", "", "", "?", "x?", "X?", "o", "x", "X", "p", "b", "e", "E"]
NAMES = ["a", "b", "name", "_x", "x1", "ünï", "f", "diff", "inner", "self_", "crate_", "type", "match", "fn", "true", "dyn", "async", "r", "w", "__stylish_arg", "args", "Some_", "log2", "été", "A", "s", "x", "bold"]
# names that are easily taken for each other
ALIKE = [["n", "N", "n_", "_n", "n1"], ["name", "Name", "NAME", "names", "nam"], ["a", "á", "а", "ａ", "ä"], ["x1", "x11", "x01", "x_1", "x2"], ["ab", "aB", "Ab", "AB", "ba"], ["s", "ſ", "S", "ß", "ss"], ["i", "I", "ı", "İ", "l"], ["v_0", "v0", "_0v", "__0", "_0"], ["fn", "Fn", "fn_", "_fn", "FN"], ["type", "Type", "ty", "r_type", "types"], ["very_long_name_of_a_variable_number_one", "very_long_name_of_a_variable_number_two", "very_long_name_of_a_variable", "very_long_name_of_a_variable_number_One", "very"]]
_I = ["", "", "", "?", "x", "X", "o", "b", "e", "E", "x?", "X?"]
_F = ["", "", "?", "e", "E"]
_T = ["", "", "?"]
LITERALS = [(x, _I) for x in ["5", "0", "0x1f", "0xFFu8", "1_000", "0b1011u8", "0o17", "255u8", "1_0_0i64", "u64::MAX", "-7", "-0x80i64", "- 3i8", "!0u8", "b'x'", "b'\\n'", "5usize", "0_0", "i128::MIN", "(5)", "{ 5 }", "1 + 1", "5 as u8", "'a' as u32", "line!() - line!()", "\"a\".len()", "&5", "&&0x10", "340282366920938463463374607431768211455u128"]]
LITERALS += [(x, _F) for x in ["1.5", "2.0", "1e3", "1E3", "1_0.5f32", "0.1", "1e-7", "1e21", "3f64", "1.", "-0.0", "-1e3", "100000000000000000000.0", "1.0e10", "f64::NAN", "std::f64::consts::PI"]]
LITERALS += [(x, _T) for x in ["\"text\"", "\"\"", "\"with {braces} {{}}\"", "\"q\\\"uo\\\\te\"", "\"n\\nl\"", "\"line \\\n     continued\"", "\"\\u{e9}\\x41\"", "r\"raw\\n\"", "r#\"r\"aw\"#", "'c'", "'\\''", "'\"'", "'\\n'", "'\\u{1F980}'", "true", "false", "concat!(\"a\", 1, 'c', 2.0, true)", "stringify!(a + b)", "module_path!().len() > 0", "\"a\".to_string()", "&\"sliced\"[1..]", "char::MAX", "&String::new()", "(\"paren\")", "{ \"block\" }"]]
LITERALS += [(x, ["?", "x?", "X?"]) for x in ["b\"bytes\"", "b\"\\xff\"", "br\"raw\\\"", "()", "[0x10, 200]", "(1, \"a\")", "None::<u8>", "Some(10)", "[\"\"; 2]", "1..2", ".."]]
RAW = {"type", "match", "fn", "true", "dyn", "async"}
SPECS = ["", "", "", ">9", "<9", "^9", "9", "+", "#", "05", ".2", "12.3"]


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        nump = [""] * 4 + ["?", "x", "X", "o", "b", "e", "E", "x?"]
        self.twins = [("log.ev(log.next())", TRAITS), ("log.num(log.next(), log.next())", nump), ("{ log.next() }", nump), ("log.next() + log.next()", nump), ("std::format!(\"{}\", log.next())", ["", "", "?"]), ("&log.next()", [t for t in nump if t != "p"]), ("log.ev(9)", TRAITS)]
        self.twins = rng.sample(self.twins, 2)
        self.setup = []
        self.after = []

    def id(self):
        self.n += 1
        return self.n

    def expr(self, depth=0):
        """(source, traits it has) of an argument"""
        r = self.rng
        k = r.randrange(34 + 10)
        i = self.id
        any_ = TRAITS
        if k >= 41:
            # written like another one, and yet another value
            return r.choice(self.twins)
        if k >= 34:
            # what a macro could know in advance
            return r.choice(LITERALS)
        nump = [""] * 4 + ["?", "x", "X", "o", "b", "e", "E", "x?"]
        txt = ["", "", "?"]
        if k < 4:
            return f"log.ev({i()})", any_
        if k == 4:
            return f"&log.ev({i()})", [t for t in any_ if t != "p"]
        if k == 5:
            v = f"v{i()}"
            self.setup.append(f"let {v} = log.ev({i()});")
            self.after.append(f"log.add(std::format!(\"kept {{}}\", {v}.id));")
            return v, any_
        if k == 6:
            v = f"v{i()}"
            self.setup.append(f"let mut {v} = log.ev({i()});")
            self.after.append(f"log.add(std::format!(\"touched {{}}\", {v}.id));")
            return f"{v}.touch()", nump
        if k == 7:
            return f"{{ log.add(\"block {i()}\"); log.ev({i()}) }}", any_
        if k == 8:
            return f"log.num({i()}, {r.randrange(100)}u32)", nump
        if k == 9:
            return f"if log.num({i()}, {r.choice(['true', 'false'])}) {{ log.ev({i()}) }} else {{ log.ev({i()}) }}", any_
        if k == 10:
            return f"match log.num({i()}, Some(3)) {{ Some(n) if n > 5 => log.ev({i()}), Some(_) => log.ev({i()}), None => unreachable!() }}", any_
        if k == 11:
            return f"(log.ev({i()}))", any_
        if k == 12:
            op = r.choice(["+", "*", "-", "|", "^", "<<", "%"])
            return f"log.num({i()}, 20i32) {op} log.num({i()}, 3i32)", nump[:-1] + [""]
        if k == 13:
            return f"log.num({i()}, 300u32) as u8", nump
        if k == 14:
            return f"-log.num({i()}, 5i64)", nump
        if k == 15:
            op = r.choice(["==", "!=", "<=", "<", ">="])
            return f"log.num({i()}, 1) {op} log.num({i()}, 2)", txt
        if k == 16:
            op = r.choice(["&&", "||"])
            return f"log.num({i()}, {r.choice(['true', 'false'])}) {op} log.num({i()}, {r.choice(['true', 'false'])})", txt
        if k == 17:
            return f"log.num({i()}, 1)..log.num({i()}, 9)", ["?", "x?"]
        if k == 18:
            return f"(|| log.ev({i()}))()", any_
        if k == 19:
            return f"std::format!(\"{{}}-{{:?}}\", log.ev({i()}), log.num({i()}, 'c'))", txt
        if k == 20:
            return f"[log.num({i()}, 7u8), log.num({i()}, 9u8)][log.num({i()}, 1)]", nump
        if k == 21:
            return f"&\"unsized\"[log.num({i()}, 2)..]", txt
        if k == 22:
            return f"rt::dst(&[1, log.num({i()}, 2)])", txt
        if k == 23:
            return f"loop {{ break log.ev({i()}) }}", any_
        if k == 24:
            return f"std::convert::identity::<rt::Val>(log.ev({i()}))", any_
        if k == 25:
            v = f"v{i()}"
            self.setup.append(f"let mut {v} = 10u32;")
            self.after.append(f"log.add(std::format!(\"count {{}}\", {v}));")
            return f"{{ {v} += 1; log.add(\"inc\"); {v} }}", nump
        if k == 26:
            return f"(log.ev({i()}), log.num({i()}, 4)).0", any_
        if k == 27:
            return f"&mut log.ev({i()})", [t for t in any_ if t != "p"]
        if k == 28:
            return f"Box::new(log.ev({i()}))", ["", "", "?"]
        if k == 29:
            return f"vec![log.ev({i()}), log.ev({i()})]", ["?", "x?"]
        if k == 30:
            return f"'l: {{ if log.num({i()}, true) {{ break 'l log.ev({i()}); }} log.ev({i()}) }}", any_
        if k == 31:
            return f"rt::Tree {{ n: log.num({i()}, 3), ..Default::default() }}.n", nump
        if k == 32:
            return f"unsafe {{ log.ev({i()}) }}", any_
        return f"!log.num({i()}, 5u8)", nump


def case(rng, i, words=()):
    g = Gen(rng)
    pos = [g.expr() for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 6]))]
    pool, pairs = NAMES, []
    if rng.random() < 0.35:
        pool = rng.choice(ALIKE)
    elif rng.random() < 0.5:
        given = [w for w in words if w.isidentifier() and w.strip("_") and w not in KEYWORDS]
        base = rng.choice(given) if given and rng.random() < 0.5 else rng.choice(["a", "n", "x", "name", "value", "é", "x1", "log2", "some_name"])
        pool, pairs = alike(rng, base, words)
    names = rng.sample(pool, min(len(pool), rng.choice([0, 0, 1, 1, 2, 3])))
    rest = [n for n in pool if n not in names]
    caps = rng.sample(rest, min(len(rest), rng.choice([0, 0, 1, 2] if pool is NAMES else [0, 1, 2, 2])))
    if pairs and rng.random() < 0.8:
        # one passed, the other one captured: or both passed, or both captured
        pair = list(rng.choice(pairs))
        rng.shuffle(pair)
        for n in pair:
            if n not in names and n not in caps:
                (names if n is pair[0] and rng.random() < 0.8 or rng.random() < 0.2 else caps).append(n)
    named = [(n, g.expr()) for n in names]
    raw = lambda n: "r#" + n if n in RAW or rng.random() < 0.05 and n.isascii() else n
    for n in caps:
        g.setup.append(f"let {raw(n)} = log.ev({g.id()});")
    for n in names:
        if rng.random() < 0.3:
            g.setup.append(f"let {raw(n)} = \"shadowed\";")
    # placeholders: implicit ones in order, and explicit ones; named arguments have positions, too
    ph = []
    all_ = pos + [e for _, e in named]
    implicit = rng.randrange(len(pos) + 1) if rng.random() < 0.8 else rng.randrange(len(all_) + 1)
    ph += [("", all_[k][1]) for k in range(implicit)]
    explicit = [(str(k), pos[k][1]) for k in range(implicit, len(pos))]
    for k, (n, e) in enumerate(named):
        if len(pos) + k < implicit and rng.random() < 0.5:
            continue
        explicit.append((n if rng.random() < 0.85 else str(len(pos) + k), e[1]))
    explicit += [(n, TRAITS) for n in caps]
    more = [(str(k), all_[k][1]) for k in range(len(all_))] + [(n, e[1]) for n, e in named] + [(n, TRAITS) for n in caps]
    if more:
        explicit += [rng.choice(more) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
    for e in explicit:
        ph.insert(rng.randrange(len(ph) + 1), e)
    s = t = ""
    for who, traits in ph:
        l = rng.choice(["", " ", "{{", "}}", "-é-", "|"])
        tr = rng.choice(traits)
        spec = rng.choice(SPECS)
        if who == "" and tr == "" and spec == "" and rng.random() < 0.5:
            s += l + "{}"
            t += l + "{}"
            continue
        a = attr_list(rng, (rng.choice([None, 1, 5]), rng.choice([None, 2, 16]), rng.choice([None, 1]))) if rng.random() < 0.3 else ""
        ws = " " if rng.random() < 0.03 else ""
        colon = ":" if spec or tr or a or rng.random() < 0.1 else ""
        s += l + "{" + who + colon + spec + a + tr + ws + "}"
        t += l + "{" + who + (":" if spec or tr else "") + spec + tr + ws + "}"
    args = [e[0] for e in pos]
    for n, e in named:
        args.append(f"{n if rng.random() < 0.4 else raw(n)} = {e[0]}")
    tail = ", " + ", ".join(args) if args else ""
    if tail and rng.random() < 0.2:
        tail += ","
    method = rng.random() < 0.1
    setup = "\n".join(g.setup)
    after = "\n".join(g.after)
    sq = rust_str(s) if rng.random() < 0.8 or '"' in s else f'r"{s}"'
    tq = rust_str(t)
    if rng.random() < 0.15 and s and not caps:
        # a format string out of built-in macros
        m = rng.randrange(1, len(s)) if len(s) > 1 else 0
        sq = f"concat!({rust_str(s[:m])}, {rust_str(s[m:])})"
    block = lambda body: "{\n" + setup + "\n" + body + "\n" + after + "\nout }"
    nl = False
    form = rng.randrange(8)
    if sq.startswith("concat"):
        form = rng.choice([0, 1, 2, 3, 4])
    once = True
    if form == 0:
        sty = f"let out = stylish::plain::format!({sq}{tail});"
    elif form == 1:
        sty = f"let mut rec_q = Rec::default(); stylish::write!(rec_q, {sq}{tail}).unwrap(); let out = rec_q.text();"
    elif form == 2:
        sty = f"let mut dst_q = stylish::io::plain(Vec::new()); stylish::write!({{ log.add(\"dst\"); &mut dst_q }}, {sq}{tail}).unwrap(); let out = String::from_utf8(dst_q.into_inner()).unwrap();"
    elif form == 3:
        # made once, rendered three times
        once = False
        sty = f"let out = match stylish::format_args!({sq}{tail}) {{ a => {{ log.add(\"made\"); let x = stylish::plain::format!(\"{{:s}}\", a); log.add(\"again\"); let y = stylish::plain::format!(\"{{0:s}}{{0:s}}\", a); assert_eq!(std::format!(\"{{x}}{{x}}\"), y); x }} }};"
    elif form == 4:
        sty = f"let out = stylish::plain::format!(\"{{:s}}\", stylish::format!({sq}{tail}));"
    elif form == 5:
        nl = True
        sty = f"let mut rec_q = Rec::default(); stylish::writeln!(rec_q, {sq}{tail}).unwrap(); let out = rec_q.text();"
    elif form == 6:
        sty = f"let out = stylish::plain::format!(\"{{:s}}\", stylish::format_args!({sq}{tail}));"
    else:
        sty = f"let s = stylish::ansi::format!({sq}{tail}); let mut out = String::new(); let mut esc = false; for ch in s.chars() {{ match (esc, ch) {{ (false, '\\u{{1b}}') => esc = true, (true, 'm') => esc = false, (false, ch) => out.push(ch), _ => () }} }}"
    if form == 2:
        std_ = f"let mut dst_q = Vec::new(); {{ use std::io::Write as _; std::write!({{ log.add(\"dst\"); &mut dst_q }}, {tq}{tail}).unwrap(); }} let out = String::from_utf8(dst_q).unwrap();"
    else:
        std_ = f"let out = std::format!({tq}{tail});"
    code = f"""let log = Log::default();
let want: String = {block(std_)};
let wlog = log.take();
let got: String = {block(sty)};
let glog = log.take();
c.text("text", &got, &{'(want + "\\n")' if nl else 'want'});
let evals = |l: &[String]| -> Vec<String> {{ l.iter().filter(|e| !e.contains(" #") && !e.starts_with("drop") && *e != "made" && *e != "again").cloned().collect() }};
let drops = |l: &[String]| -> Vec<String> {{ let mut v: Vec<String> = l.iter().filter(|e| e.starts_with("drop")).cloned().collect(); v.sort(); v }};
let formats = |l: &[String]| -> Vec<String> {{ l.iter().filter(|e| e.contains(" #")).map(|e| e.split(" #").next().unwrap().to_string()).collect() }};
c.same("evaluations", &evals(&glog), &evals(&wlog));
c.same("drops", &drops(&glog), &drops(&wlog));
let w = formats(&wlog);
"""
    if once:
        code += 'c.same("order of events", &glog.iter().filter(|e| !e.starts_with("drop")).cloned().collect::<Vec<_>>(), &wlog.iter().filter(|e| !e.starts_with("drop")).cloned().collect::<Vec<_>>());'
    else:
        # the values of nested std::format! arguments are formatted while evaluating
        code += """let m = glog.iter().position(|e| e == "made").unwrap();
let a = glog.iter().position(|e| e == "again").unwrap();
let while_evaluating = formats(&glog[..m]);
let rendering = w[while_evaluating.len()..].to_vec();
c.same("formatted while evaluating", &while_evaluating, &w[..while_evaluating.len()].to_vec());
c.same("first rendering", &formats(&glog[m..a]), &rendering);
c.same("two more renderings", &formats(&glog[a..]), &[rendering.clone(), rendering].concat());"""
    return Case(f"c10-{i}", code, f"{s!r}{tail} with {'; '.join(g.setup)}", nontrivial=bool(pos or named or caps), key=s + tail)


FIXED = [
    # self, generics, lifetimes, closures, question marks, macros around
    ("self", """struct T<'a, X>(&'a X);
impl<'a, X: std::fmt::Display + std::fmt::Debug> T<'a, X> {
    fn a(&self) -> (String, String) { (stylish::plain::format!("{self_}|{}|{x:?}", self.0, self_ = self.0, x = self.0), std::format!("{self_}|{}|{x:?}", self.0, self_ = self.0, x = self.0)) }
}
impl<'a, X: std::fmt::Display> std::fmt::Display for T<'a, X> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "T{}", self.0) } }
impl<'a, X: std::fmt::Display> T<'a, X> { fn b(&self) -> (String, String) { (stylish::plain::format!("{self}{self:>5}"), std::format!("{self}{self:>5}")) } }
let (g, w) = T(&5).a(); c.text("generic", &g, &w);
let (g, w) = T(&"x").b(); c.text("self", &g, &w);"""),
    ("question mark", """let log = Log::default();
fn go(log: &Log, std_: bool, o: Option<u8>) -> Option<String> {
    Some(if std_ { std::format!("{}{}", log.num(1, 1), log.num(2, o)?) } else { stylish::plain::format!("{}{}", log.num(1, 1), log.num(2, o)?) })
}
for o in [Some(1), None] { let g = go(&log, false, o); let gl = log.take(); let w = go(&log, true, o); c.same("result", &g, &w); c.same("log", &gl, &log.take()); }"""),
    ("inside a macro", """macro_rules! m { ($e:expr, $($t:tt)*) => { (stylish::plain::format!("{}{x:?}{0}", $e, x = $($t)*), std::format!("{}{x:?}{0}", $e, x = $($t)*)) } }
let log = Log::default();
let (g, w) = m!(log.num(1, 2) + 3, 4 * log.num(2, 5) - 1); c.text("text", &g, &w); c.same("log", &log.take(), &vec!["eval 1".to_string(), "eval 2".into(), "eval 1".into(), "eval 2".into()]);
macro_rules! cap { ($v:ident) => { (stylish::plain::format!("{}{y}", $v, y = $v + 1), std::format!("{}{y}", $v, y = $v + 1)) } }
let v = 3; let (g, w) = cap!(v); c.text("ident", &g, &w);
macro_rules! lit { ($l:literal $(, $a:expr)*) => { (stylish::plain::format!($l $(, $a)*), std::format!($l $(, $a)*)) } }
let (g, w) = lit!("{v}-{}-{1:>4}", 1, "é"); c.text("literal", &g, &w);"""),
    ("statics and consts", """static ST: &str = "static"; const CO: [u8; 2] = [1, 2];
c.text("text", &stylish::plain::format!("{ST}{CO:?}{ST:>9}"), &std::format!("{ST}{CO:?}{ST:>9}"));"""),
    ("borrowed while formatting", """let mut s = String::from("a"); let r = &s;
c.text("shared", &stylish::plain::format!("{r}{s}{}{0}{x}", s, x = r), &std::format!("{r}{s}{}{0}{x}", s, x = r));
s.push('b'); c.text("kept", &s, "ab");"""),
    ("temporaries live long enough", """fn mk() -> std::sync::Mutex<Vec<u8>> { std::sync::Mutex::new(vec![1]) }
c.text("guard", &stylish::plain::format!("{:?}{}", mk().lock().unwrap().as_slice(), String::from("x").as_str()), &std::format!("{:?}{}", mk().lock().unwrap().as_slice(), String::from("x").as_str()));"""),
    ("dyn values", """let b: Box<dyn std::fmt::Display> = Box::new(5); let d: &dyn std::fmt::Debug = &"x";
c.text("text", &stylish::plain::format!("{b}{d:?}{}{:?}", b, d), &std::format!("{b}{d:?}{}{:?}", b, d));"""),
    ("many arguments", "c.text(\"text\", &stylish::plain::format!(\"" + "".join("{%d}" % ((i * 7) % 40) for i in range(40)) + "\", " + ", ".join(str(i * 3) for i in range(40)) + "), &std::format!(\"" + "".join("{%d}" % ((i * 7) % 40) for i in range(40)) + "\", " + ", ".join(str(i * 3) for i in range(40)) + "));"),
    ("many named", "c.text(\"text\", &stylish::plain::format!(\"" + "".join("{n%d}" % ((i * 11) % 30) for i in range(30)) + "\", " + ", ".join(f"n{i} = {i * 3}" for i in range(30)) + "), &std::format!(\"" + "".join("{n%d}" % ((i * 11) % 30) for i in range(30)) + "\", " + ", ".join(f"n{i} = {i * 3}" for i in range(30)) + "));"),
    ("a shadowed prelude", """#[derive(Debug)] struct Display; #[derive(Debug)] struct Formatter; mod fmt { } mod core_ { }
let Debug = 1; let Result = 2; let Option = 3;
c.text("text", &stylish::plain::format!("{Debug}{Result:>3(fg=red)}{Option:?}{:?}{:?}", Display, Formatter), &std::format!("{Debug}{Result:>3}{Option:?}{:?}{:?}", Display, Formatter));"""),
    ("nested calls", """let log = Log::default();
let g = stylish::plain::format!("{:s}{}{:s}", stylish::format_args!("{}{x}{x}", log.ev(1), x = log.ev(2)), log.ev(3), stylish::format!("{:?}", log.ev(4)));
c.text("text", &g, "<Display1><Display2><Display2><Display3><Debug4>");
let l: Vec<_> = log.take().into_iter().filter(|e| e.starts_with("eval")).collect();
c.same("evaluations", &l, &vec!["eval 1".to_string(), "eval 2".into(), "eval 3".into(), "eval 4".into()]);"""),
    ("an expression that panics", """let log = Log::default();
let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| stylish::plain::format!("{}{}{}", log.ev(1), if true { panic!("x") } else { 2 }, log.ev(3))));
c.same("panics", &r.is_err(), &true); c.same("events", &log.take(), &vec!["eval 1".to_string(), "drop 1".into()]);"""),
    ("format_args evaluated without rendering", """let log = Log::default();
{ let _ = stylish::format_args!("{}{x}", log.ev(1), x = log.ev(2)); }
let l: Vec<_> = log.take().into_iter().filter(|e| !e.starts_with("drop")).collect();
c.same("events", &l, &vec!["eval 1".to_string(), "eval 2".into()]);"""),
]


def cases(seed, thorough):
    rng = random.Random(f"c10 {seed}")
    words = new_words()[0]
    out = [Case(f"c10-{n.replace(' ', '-')}", code, n, nontrivial=True, key=n) for n, code in FIXED]
    for i in range(2000 if not thorough else 20000):
        out.append(case(rng, i, words))
    return out


RULE = "generated programs: random argument lists (positional, named, captured; temporaries, places, operators, unsized places, blocks, control flow, nested macros) and format strings that use them, run through a stylish macro and through the std one with the same arguments; texts and logs of evaluations, formattings and drops compared; non-trivial if there is an argument"
EXHAUSTIVE = []
