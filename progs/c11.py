"""C11: format strings compile exactly when the documented grammar allows them.

Two programs: one with the stylish macros, one with the std ones. A string
without attributes is judged by std (and by the reference grammar, which has to
agree, or the string is not judged); one with attributes by the reference grammar
and, if that allows it, by std without the attributes."""
import random
import unicodedata
import fmtgrammar as g
from engine import Case, Program, chunked, new_words, rust_str, COLORS, INTENSITIES, attr_list

RULE = "generated format strings inside and outside the grammar, mutations of them and whole macro calls, compiled with the stylish macro and with the std one; the ones accepted are also run; non-trivial if it has a replacement field or has to be rejected"
NAMES = ["a", "b", "name", "_x", "x1", "ünï", "e", "x", "s", "X", "fg", "red", "q\u0301", "नाम", "ชื่อ", "l·l", "a\u203fb", "x٣", "名前", "имя", "ªº", "ⅷ", "℘x", "℮", "𝔁1", "한글", "_ß", "ስም\u1369", "שם"]
# no identifiers, though their letters pass for alphanumeric, or look the part
BAD_NAMES = ["a²", "½", "x½", "①", "ⓐ", "aⓐ", "a\u200d", "🦀", "a🦀", "a\u00a0b", "a-b", "a'b", "a\u2019b", "a\u2010b", "٣a", "\u0301a", "·a", "\u203fa", "a\u00adb", "a\u2064", "a\ufeff", "\ufeffa", "a€", "€", "$a", "a\u037a", "１", "a\u20dd", "²", "a_²", "#a", "@a", "~a", "a\u2028b", "a\u0000", "a\u2e2f"]
ALPHABET = list("{}{}{}:::(((()))))==,,<>^+-##0012345.?xXobpeEs_ abgr\n\té\"&$*") + ["fg=red", "bold", "{{", "}}", "()", "(bold)", "(fg=blue,bg=red)", "x?", "X?", "{}", "{a}", "{:?}", "faint", "normal", "brightred", "default"]
WRITE = "let mut rec_q = Rec::default();"


class Cand:
    """a call: format string and arguments; `must` is what is known of it beforehand"""

    def __init__(self, fmt, args="", must=None, std_fmt=None, why="", std_args=None, raw=None, std_raw=None):
        self.fmt, self.args, self.must, self.why = fmt, args, must, why
        self.std_fmt = std_fmt
        self.raw, self.std_raw = raw, std_raw
        self.std_args = args if std_args is None else std_args


def placeholder(rng, pos_left, names):
    who = rng.choice(["", "", "pos", "name", "name"])
    spec = rng.choice(["", "", "", "<", ">", "^", " <", " ^"]) + rng.choice(["", "", "", "+", "-"]) + rng.choice(["", "", "#"]) + rng.choice(["", "", "0"]) + rng.choice(["", "", "1", "12", "65535", "00", "007"]) + rng.choice(["", "", "", ".0", ".3", ".10"])
    attrs = ""
    if rng.random() < 0.5:
        attrs = attr_list(rng, (rng.choice([None, rng.randrange(17)]), rng.choice([None, rng.randrange(17)]), rng.choice([None, 0, 1, 2])))
    tr = rng.choice(["", "", ""] + g.TRAITS)
    ws = rng.choice(["", "", "", "", "", " ", "\n", "  ", "\t", "\u2003"]) if rng.random() < 0.3 else ""
    return who, spec, attrs, tr, ws


def random_names(rng, n):
    """identifiers of any scripts, and strings that are off by one character"""
    pool = []
    # the letters of Unicode 15 (2022) are left out: whether the macros know them is up to
    # the version of unicode-ident they are built with, which the workspace does not fix
    late = [(0xCF3, 0xCF3), (0xECE, 0xECE), (0x10EFD, 0x10EFF), (0x1123F, 0x11241), (0x11B00, 0x11B09), (0x11F00, 0x11F59), (0x13439, 0x13455), (0x1B132, 0x1B155), (0x1DF25, 0x1DF2A), (0x1E030, 0x1E08F), (0x1E4D0, 0x1E4F9), (0x31350, 0x323AF)]
    while len(pool) < 4000:
        c = chr(rng.choice([rng.randrange(0x80, 0x600), rng.randrange(0x80, 0x3000), rng.randrange(0x3000, 0xD800), rng.randrange(0xF900, 0x1FFFF)]))
        if unicodedata.category(c) not in ("Cn", "Co", "Cs") and unicodedata.normalize("NFC", c) == c and not c.isspace() and not any(a <= ord(c) <= b for a, b in late):
            pool.append(c)
    cont = [c for c in pool if ("a" + c).isidentifier()]
    start = [c for c in cont if c.isidentifier()]
    none = [c for c in pool if not ("a" + c).isidentifier()]
    only = [c for c in cont if not c.isidentifier()]
    good, bad = set(), set()
    while len(good) < n:
        s = rng.choice([rng.choice(start), rng.choice("abz_")]) + "".join(rng.choice([rng.choice(cont), rng.choice(only), rng.choice("a1_")]) for _ in range(rng.choice([1, 1, 2, 4])))
        if s.isidentifier() and unicodedata.normalize("NFC", s) == s and s.strip("_"):
            good.add(s)
    while len(bad) < n:
        s = rng.choice(["", "a", "_", rng.choice(start)]) + rng.choice(["", rng.choice(cont)]) + rng.choice(none) + rng.choice(["", "b", rng.choice(cont)])
        bad.add(s)
    for _ in range(n // 4):
        bad.add(rng.choice(only) + rng.choice(["", "a"]))
    return sorted(good), sorted(x for x in bad if not x.isidentifier() and not x[:1].isdigit())


def valid(rng, attrs_ok=True):
    s, npos = "", 0
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 5])):
        s += rng.choice(["", "", "a", "{{", "}}", "é ", "(", ")", "x:", "=", "\n", "{{}}"])
        who, spec, attrs, tr, ws = placeholder(rng, 0, NAMES)
        if not attrs_ok:
            attrs = ""
        if who == "pos":
            who = str(rng.randrange(3))
        elif who == "name":
            who = rng.choice(NAMES)
        body = spec + attrs + tr
        s += "{" + who + (":" + body if body or rng.random() < 0.2 else "") + ws + "}"
    return s + rng.choice(["", "", "z", "{{", "}}", ")"])


def fit(rng, fmt):
    """arguments for a string of the grammar"""
    ph, stripped = g.read(fmt)
    implicit = sum(1 for p in ph if p[0] == "")
    explicit = [int(p[0]) for p in ph if p[0][:1].isdigit()]
    npos = max([implicit] + [e + 1 for e in explicit])
    used = set(range(implicit)) | set(explicit)
    if used != set(range(npos)) or npos > 12:
        return None
    names = sorted({p[0] for p in ph if p[0] and not p[0][0].isdigit()})
    args = ["rt::Flags"] * npos
    if npos and rng.random() < 0.2:
        # named arguments have positions as well
        for k in range(rng.randrange(npos), npos):
            args[k] = f"pos_{k} = rt::Flags"
    for n in names:
        if n in KEYWORDS or (n not in NAMES or rng.random() < 0.3):
            args.append(("r#" if n in KEYWORDS and rng.random() < 0.5 else "") + n + " = rt::Flags")
    if any(n in ("self", "Self", "super", "crate") for n in names):
        return None
    a = "".join(", " + x for x in args)
    if rng.random() < 0.1 and a:
        a += ","
    return a, ph, stripped


def judged(rng, add, s, why):
    try:
        r = fit(rng, s)
        if r:
            add(s, r[0], True, why=why)
    except g.Unsure:
        pass
    except g.No:
        add(s, "" if s.startswith("{a") else ", rt::Flags", False, why=why)


KEYWORDS = {"as", "break", "const", "continue", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "static", "struct", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "gen"}


def mutate(rng, s):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.randrange(5)
        i = rng.randrange(len(s) + 1)
        if k == 0 or not s:
            s = s[:i] + rng.choice(ALPHABET) + s[i:]
        elif k == 1:
            i = min(i, len(s) - 1)
            s = s[:i] + s[i + 1:]
        elif k == 2:
            i = min(i, len(s) - 1)
            s = s[:i] + rng.choice(ALPHABET) + s[i + 1:]
        elif k == 3 and len(s) > 1:
            i = min(i, len(s) - 2)
            s = s[:i] + s[i + 1] + s[i] + s[i + 2:]
        else:
            j = min(len(s), i + rng.randrange(1, 6))
            if rng.random() < 0.5:
                s = s[:i] + s[j:]
            else:
                s = s[:j] + s[i:j] + s[j:]
    return s


F = "rt::Flags"
# what has to be rejected, whatever the format string is (arguments are right otherwise)
BAD_ATTRS = ["(fg=purple)", "(fg=)", "(fg)", "(=red)", "(bg=bold)", "(fg=red", "(bold", "(fg=red))", "((fg=red))", "(red)", "(italic)", "(underline)", "(blink)", "(FG=red)", "(fg=Red)", "(fg=RED)", "(Bold)", "(fg=red;bg=blue)", "(,)", "(,bold)", "(bold,,faint)", "(bold,,)", "(fg:red)", "(bold=true)", "(bold=1)", "(bold=bold)", "(intensity=bold)", "(int=bold)", "(fg=redbg=blue)", "(fg=red bg=blue)", "(fg=redd)", "(fg=re)", "(fg=brightpurple)", "(fg=bright)", "(fg=brightdefault)", "(fg=bright red)", "(fg=bright-red)", "(fg=bright_red)", "(fg=lightred)", "(fg=#ff0000)", "(fg=31)", "(fg=1)", "(fg=none)", "(fg=grey)", "(fg=gray)", "(fg=\"red\")", "(boldfaint)", "(bolder)", "(boldx)", "(xbold)", "(nofg)", "(fg=red,foo)", "(foo,fg=red)", "(fg=red,bg)", "(fg=red,bg=)", "(fg==red)", "(fg=red=blue)", "(dim)", "(reset)", "(fgred)", "(bg.red)", "[fg=red]", "<fg=red>", "(fg=red)(bold)", "(fg=red)()", "()()", "(normal,bold=x)", "(foreground=red)", "(background=red)", "(color=red)", "(fg=blackbright)", "(fg=whites)", "(bg=defaults)", "(bg=brightwhites)", "(faints)", "(normals)", "(normally)", "(fg=magent)", "(*)", "(?)", "(1)", "(0)", "(fg=red,1)", "({})", "(fg={})", "(fg=\\)"]
BAD_SPECS = ["{:z}", "{:?x}", "{:??}", "{:xx}", "{:xX}", "{:y?}", "{:d}", "{:i}", "{:u}", "{:f}", "{:g}", "{:S}", "{:ss}", "{:s?}", "{:?s}", "{:x?s}", "{:P}", "{:O}", "{:B}", "{:display}", "{:Debug}", "{:#+}", "{:0#}", "{:0+}", "{:5#}", "{:5+}", "{:5-}", "{:5<}", "{:.3>}", "{:+<}", "{:.3#}", "{:.3+}", "{:x5}", "{:?5}", "{:?#}", "{:x#}", "{:x.3}", "{:?.3}", "{:++}", "{:+-}", "{:##}", "{:.3.3}", "{:-+}", "{:a}", "{:1x1}", "{:5.}x}", "{:::}", "{::}", "{:;}", "{:,}", "{:!}", "{:@}", "{:%}", "{:&}", "{:/}", "{:=}", "{:\\\\}", "{:'}", "{:é}", "{:5 5}", "{:# x}", "{: 5}", "{: ?}", "{: x}", "{:0x 5}", "{:65536}", "{:.65536}", "{:99999999999999999999}", "{:.99999999999999999999}", "{:-5 0}", "{:5,3}", "{:5.3.1}", "{:1 .2}", "{:)}", "{:()(}", "{:#?x}", "{:#x?x}", "{:o?}", "{:b?}", "{:e?}", "{:p?}", "{:E?}", "{:ex}", "{:xe}", "{:pp}"]
BAD_BRACES = [("{", ""), ("}", ""), ("a{", ""), ("a}", ""), ("{}}", F), ("{{}", ""), ("{}{", F), ("}{}", F), ("{{{", ""), ("}}}", ""), ("{{}}}", ""), ("{{{}}", F), ("{ {}", F), ("{} }", F), ("{a", ""), ("a}", ""), ("{0", F), ("{:", F), ("{:?", F), ("{0:", F), ("{:(bold)", F), ("{:(bold)?", F), ("{a:x", ""), ("{}{a", F), ("{[}", F), ("{(}", F), ("{(bold)}", F), ("{0(bold)}", F), ("{a(fg=red)}", ""), ("{?}", F), ("{x?}", F), ("{#}", F), ("{.3}", F), ("{<}", F), ("{<5}", F), ("{+}", F), ("{,}", F), ("{=}", F), ("{a=}", ""), ("{a.b}", ""), ("{a+1}", ""), ("{a[0]}", ""), ("{a()}", ""), ("{&a}", ""), ("{*a}", ""), ("{!a}", ""), ("{a b}", ""), ("{0 1}", F), ("{a-b}", ""), ("{1.0}", F), ("{-1}", F), ("{0x0}", F), ("{0a}", F), ("{_}", ""), ("{a::b}", ""), ("{a::x}", ""), ("{'a'}", ""), ("{\\\"a\\\"}", ""), ("{a,b}", ""), ("{0,1}", F), ("{}\n}", F), ("{\n{}", F), ("{{}{}}", F), ("}}{", ""), ("{a}}b{{c}", "")]
for _t in g.TRAITS:
    BAD_BRACES.append(("{:%s(fg=red)}" % _t, F))
    BAD_BRACES.append(("{:%s()}" % _t, F))
for _p in ["<", "^5", "+", "#", "05", "7", ".2", ".2?", "#?", "5.3x"]:
    if _p[-1] not in "?x":
        BAD_BRACES.append(("{:(bold)%s}" % _p, F))
    else:
        BAD_BRACES.append(("{:(bold)%s}" % _p, F))
# argument lists: (format string, arguments)
BAD_ARGS = [("{}", ""), ("{} {}", F), ("{0}", ""), ("{1}", F), ("{0}{1}", F), ("{}{2}", f"{F}, {F}"), ("{5}", F), ("", F), ("x", F), ("{}", f"{F}, {F}"), ("{0}", f"{F}, {F}"), ("{1}", f"{F}, {F}"), ("{a}", F), ("{a}", f"{F}, a = {F}"), ("{}", f"{F}, a = {F}"), ("", f"a = {F}"), ("{a}", f"a = {F}, b = {F}"), ("{}", f"a = {F}, {F}"), ("{a}{}", f"a = {F}, {F}"), ("{a}{0}", f"a = {F}, {F}"), ("{a}", f"a = {F}, a = {F}"), ("{}{a}", f"{F}, a = {F}, b = {F}, a = {F}"), ("{nope}", ""), ("{nope:?}", ""), ("{:?}{nope}", F), ("{}", "nope"), ("{}", ","), ("{}", f"{F} {F}"), ("{}", f"{F}; {F}"), ("{a}", f"a : {F}"), ("{a}", "a ="), ("{a}", f"= {F}"), ("{}", f"{F},,"), ("{}", f", {F}"), ("{0}{1}{2}", f"{F}, {F}"), ("{}{}{}", f"{F}, {F}"), ("{1}", f"a = {F}"), ("{2}{0}{a}", f"{F}, a = {F}"), ("{}{}{}", f"{F}, a = {F}"), ("{}", f"a = {F}, b = {F}"), ("{}{}", f"{F}, a = {F}, b = {F}"), ("{1}{0}{3}", f"{F}, a = {F}, b = {F}"), ("{}{a}{}{}", f"{F}, a = {F}"), ("{0}{a}", f"{F}, b = {F}, a = {F}"), ("{a}{b}", f"a = {F}, c = {F}"), ("{r#type}", f"r#type = {F}"), ("{type}", ""), ("{r#a}", ""), ("{a}", f"let a = {F}"), ("{a}", f"a += {F}"), ("{}", f"{F}, ..."), ("{self_}", f"self = {F}"), ("{0}", f"a = {F}, a = {F}"), ("{type}", f"type = {F}, r#type = {F}"), ("{type}", f"r#type = {F}, r#type = {F}"), ("{a}{type}", f"a = {F}, r#type = {F}, r#a = {F}")]
# a value without the trait
BAD_TRAITS = [("{:x}", '"text"'), ("{:x}", "1.5f32"), ("{:b}", "'c'"), ("{:o}", "true"), ("{:e}", '"t"'), ("{:E}", "true"), ("{:p}", "5u8"), ("{:X}", '"x"'), ("{}", "vec![1]"), ("{}", "Some(1)"), ("{}", "()"), ("{}", "(1, 2)"), ("{:?}", "NoTraits"), ("{}", "NoTraits"), ("{:s}", "5u8"), ("{:s}", '"text"'), ("{:s}", "String::new()"), ("{:s}", "NoTraits"), ("{:s}", "rt::tree()"), ("{:x?}", "NoTraits"), ("{a:#?}", "a = NoTraits"), ("{:s}", "rt::Unit"), ("{}", "rt::Unit"), ("{}", "rt::Sty(\"x\")"), ("{:?}", "rt::Sty(\"x\")"), ("{}", "stylish::format!(\"x\")")]
# calls as a whole: (stylish, std)
BAD_CALLS = [("stylish::format!()", "std::format!()"), ("stylish::format_args!()", "std::format_args!()"), ("stylish::format!(,)", "std::format!(,)"), ("stylish::format!(5)", "std::format!(5)"), ("stylish::format!(b\"x\")", "std::format!(b\"x\")"), ("stylish::format!('x')", "std::format!('x')"), ("stylish::format!(true)", "std::format!(true)"), ("{ let f = \"{}\"; stylish::format!(f, 1) }", "{ let f = \"{}\"; std::format!(f, 1) }"), ("{ const F: &str = \"x\"; stylish::format!(F) }", "{ const F: &str = \"x\"; std::format!(F) }"), ("stylish::format!(String::from(\"x\"))", "std::format!(String::from(\"x\"))"), ("stylish::format!(\"{}\" 1)", "std::format!(\"{}\" 1)"), ("stylish::format!(\"a\" \"b\")", "std::format!(\"a\" \"b\")"), ("stylish::format!(\"{}\"; 1)", "std::format!(\"{}\"; 1)"), ("stylish::format!(1, \"{}\")", "std::format!(1, \"{}\")"), ("stylish::format!(a = 1, \"{a}\")", "std::format!(a = 1, \"{a}\")"), ("stylish::format!(\"{}\", 1 2)", "std::format!(\"{}\", 1 2)"), ("stylish::format!(\"{}\" => 1)", "std::format!(\"{}\" => 1)"), ("stylish::format!(c\"x\")", "std::format!(c\"x\")"), ("stylish::format!(\"{}\", let x = 1)", "std::format!(\"{}\", let x = 1)"), ("stylish::format!(concat!(\"{\", \"\"))", "std::format!(concat!(\"{\", \"\"))"), ("stylish::format!(concat!(\"{}\", \"{}\"), 1)", "std::format!(concat!(\"{}\", \"{}\"), 1)"), ("{ let x = 1; stylish::format!(concat!(\"{x\", \"}\")) }", "{ let x = 1; std::format!(concat!(\"{x\", \"}\")) }"), ("stylish::write!()", "std::write!()"), ("stylish::write!(rec_q)", None), ("stylish::writeln!()", "std::writeln!()"), ("stylish::write!(rec_q, 5)", None), ("stylish::writeln!(rec_q, 5)", None), ("stylish::write!(rec_q, \"{}\")", None), ("stylish::writeln!(rec_q, \"{}\")", None), ("stylish::writeln!(rec_q, \"{\")", None), ("stylish::writeln!(rec_q, \"}\")", None), ("stylish::writeln!(rec_q, \"{:?\", 1)", None), ("stylish::writeln!(rec_q, \"x\", 1)", None), ("stylish::writeln!(rec_q, \"{:(fg=purple)}\", 1)", None), ("stylish::ansi::format!()", None), ("stylish::html::format!(\"{:z}\", 1)", None), ("stylish::ansi::format!(\"{:(fg=x)}\", 1)", None), ("stylish::plain::format!(\"{}\")", None), ("stylish::plain::format!(\"}\")", None), ("stylish::html::format!(\"{0}\", 1, 2)", None)]

MACROS = ["stylish::plain::format!({})", "stylish::format!({})", "stylish::format_args!({})", "stylish::write!(rec_q, {})", "stylish::writeln!(rec_q, {})", "stylish::ansi::format!({})", "stylish::html::format!({})"]

HEADER = """#![allow(warnings)]
use rt::{At, Ctx, Log, NONE, Rec};
use stylish::Write as _;
struct NoTraits;
"""


def candidates(seed, thorough):
    rng = random.Random(f"c11 {seed}")
    out = []
    add = lambda *a, **k: out.append(Cand(*a, **k))
    # of the grammar
    for f in [None] + COLORS:
        for b in [None] + COLORS:
            if f is None or b is None or f == b or rng.random() < 0.1:
                n = rng.choice([None] + INTENSITIES)
                l = [x for x in ("fg=" + f if f else None, "bg=" + b if b else None, n) if x]
                rng.shuffle(l)
                add("{:(" + ",".join(l) + rng.choice(["", ",", ""]) * bool(l) + ")}", ", " + F, True, why="attributes")
    for tr in [""] + g.TRAITS:
        for a in ["", "()", "(bold)", "(fg=red,)", "(faint,bg=brightcyan,fg=default)"]:
            for sp in ["", "5", "<", " >7.2", "+#010.3", "^0", "-", "#", "0", ".0"]:
                for who, args in [("", ", " + F), ("0", ", " + F), ("a", ""), ("n", f", n = {F}")]:
                    if rng.random() < (0.25 if not thorough else 1):
                        c = ":" + sp + a + tr if sp + a + tr or rng.random() < 0.5 else ""
                        add("{" + who + c + rng.choice(["", "", " "]) + "}", args, True, why="specification")
    # texts of the sources, in all the places of a string
    words = [w for w in new_words()[0] if len(w) <= 40]
    ALPHABET.extend(w for w in words for _ in range(4))
    for w in words:
        for s in ["{:(%s)}", "{:(%s,bold)}", "{:(fg=red,%s)}", "{:(fg=%s)}", "{:(bg=%s,)}", "{:(%s=red)}", "{:5%s}", "{:%s}", "{:(bold)%s}", "{%s}", "{%s:?}", "{0%s}", "%s{}", "{}%s", "{}}%s", "{%s{}"]:
            judged(rng, add, s.replace("%s", w), "texts of the sources")
    # every attribute, off by one edit
    for _ in range(250 if not thorough else 4000):
        a = rng.choice(["fg=" + rng.choice(COLORS), "bg=" + rng.choice(COLORS), rng.choice(INTENSITIES)])
        k, i = rng.randrange(6), rng.randrange(len(a))
        c = rng.choice("abcdefghiklmnorstuwy=-_#1 é" + a)
        a = [a[:i] + a[i + 1:], a[:i] + c + a[i:], a[:i] + c + a[i + 1:], a[:i] + a[i:i + 2][::-1] + a[i + 2:], a[:i] + a[i].swapcase() + a[i + 1:], a[:i] + a[i:i + rng.randrange(1, 8)] + a[i:]][k]
        l = [a] + rng.choice([[], [], ["bold"], ["fg=blue"], ["bg=default"]])
        rng.shuffle(l)
        judged(rng, add, rng.choice(["{:", "{a:", "{:5", "{:<"]) + "(" + ",".join(l) + ")" + rng.choice(["", "", "?", "x"]) + "}", "attributes off by one edit")
    n_valid, n_mut = (500, 2500) if not thorough else (6000, 40000)
    while n_valid:
        s = valid(rng, rng.random() < 0.7)
        r = fit(rng, s)
        if r:
            add(s, r[0], True, why="random string of the grammar")
            n_valid -= 1
    good, bad = random_names(rng, 120 if not thorough else 3000)
    for n in good + NAMES:
        a = rng.choice(["", "", ":", ":?", ":>5", ":(bold)", ":#x", ":(fg=red)?"])
        add(rng.choice(["", "", "é ", "{{"]) + "{" + n + a + rng.choice(["", "", " "]) + "}", ", " + n + " = " + F if n not in NAMES or rng.random() < 0.5 else "", True, why="identifier")
    for n in bad + BAD_NAMES:
        a = rng.choice(["", "", ":", ":?", ":>5", ":(bold)", ":(fg=red)?"])
        add("{" + n + a + "}", "", False, why="identifier")
    # off it by a little
    seen = set()
    while n_mut:
        base = valid(rng, rng.random() < 0.6)
        s = mutate(rng, base)
        if s in seen or len(s) > 120:
            continue
        seen.add(s)
        try:
            r = fit(rng, s)
            if not r:
                continue
            add(s, r[0], True, why="mutated")
        except g.Unsure:
            continue
        except g.No as e:
            try:
                r = fit(rng, base)
            except (g.No, g.Unsure):
                continue
            add(s, r[0] if r else "", False, why=f"mutated: {e}")
        n_mut -= 1
    # far off
    for a in BAD_ATTRS:
        for pre, post, args in rng.sample([("", "", ", " + F), ("5", "", ", " + F), ("", "?", ", " + F), ("+#07.1", "x", ", " + F), ("", "s", ", " + F)], 5 if thorough else 2):
            who = rng.choice(["", "0", "a"])
            add("{" + who + ":" + pre + a + post + "}", "" if who == "a" else args, False, why="attributes")
    for s in BAD_SPECS:
        who = rng.choice(["", "0", "a"])
        add(rng.choice(["", "x", "{{"]) + "{" + who + s[1:], "" if who == "a" else ", " + F, False, why="specification")
        if rng.random() < 0.5:
            add(s[:-1] + rng.choice(["(bold)", "(fg=red)"]) + "}", ", " + F, False, why="specification")
    for s, a in BAD_BRACES:
        add(s, ", " + a if a else "", False, why="braces")
    for s, a in BAD_ARGS:
        add(s, ", " + a if a else "", False, why="arguments")
        # the same with attributes in the way
        if "{" in s and "}" in s and ":" not in s:
            t = s.replace("}", rng.choice([":(bold)", ":(fg=red)", ":()"]) + "}", 1)
            add(t, ", " + a if a else "", False, why="arguments")
    for s, a in BAD_TRAITS:
        add(s, ", " + a, False, why="a value without the trait")
    for a, b in BAD_CALLS:
        out.append(Cand("", "", False, why="call", raw=a, std_raw=b))
    out.extend(calls(rng, 1500 if not thorough else 4000))
    for name, what, a, b in contexts(rng):
        c = Cand("", "", True, why="context", raw=a, std_raw=b)
        c.label = what
        out.append(c)
    # sizes: counts, positions, lengths and values at and beyond what a small integer holds
    def a_of(n):
        return ", " + ", ".join([F] * n)
    for n in [10, 11, 16, 17, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300]:
        k = rng.randrange(n)
        big = n > 130
        if big and not thorough and rng.random() < 0.5:
            add("{%d}" % (n - 1) + "{}" * n, a_of(n), True, why="sizes")
            add("{%d}" % n + "{}" * n, a_of(n), False, why="sizes")
            continue
        add("{}" * n, a_of(n), True, why="sizes")
        add("{}" * (n + 1), a_of(n), False, why="sizes")
        add("{}" * (n - 1), a_of(n), False, why="sizes")
        order = list(range(n))
        rng.shuffle(order)
        add("".join("{%d}" % i for i in order), a_of(n), True, why="sizes")
        add("".join("{%d}" % i for i in order if i != k), a_of(n), False, why="sizes")
        add("".join("{%d}" % i for i in order) + "{%d}" % n, a_of(n), False, why="sizes")
        add("{0}" * n, a_of(1), True, why="sizes")
        add("{%d}" % n, a_of(1), False, why="sizes")
        names = "".join(f", v{i} = {F}" for i in range(n))
        add("".join("{v%d:(bold)}" % i for i in order), names, True, why="sizes")
        add("".join("{v%d}" % i for i in order if i != k), names, False, why="sizes")
        add("".join("{%d}" % i for i in order), names, True, why="sizes")
        name = "n" * n
        add("{" + name + "}", f", {name} = {F}", True, why="sizes")
        add("{" + name + "n}", f", {name} = {F}", False, why="sizes")
        lit = "x" * n
        add(lit + "{}" + lit, a_of(1), True, why="sizes")
        add(lit + "}" + lit, "", False, why="sizes")
        add("{{" * n, "", True, why="sizes")
        add("{{" * n + "{", "", False, why="sizes")
        add("{:" + "0" * n + "}", a_of(1), True, why="sizes")
        add("{:" + "0" * n + "7.3}", a_of(1), True, why="sizes")
        add("{:." + "0" * n + "}", a_of(1), True, why="sizes")
        add("{" + "0" * n + "}", a_of(1), True, why="sizes")
        add("{0" + " " * n + "}", a_of(1), True, why="sizes")
        add("{:" + "bold" * n + "}", a_of(1), False, why="sizes")
        add("{:" + "x" * n + "}", a_of(1), False, why="sizes")
    for v in [255, 256, 257, 32767, 32768, 65534, 65535]:
        for sp in ["{:%d}", "{:.%d}", "{:0%d}", "{:<%d?}", "{:(bold)}{:%d}", "{:^%d.%d}"]:
            add(sp.replace("%d", str(v)), a_of(sp.count("{")), True, why="sizes")
    for v in [65536, 65537, 65541, 70000, 131072, 2**31, 2**32, 2**32 + 5, 2**63, 2**64, 2**64 + 5, 2**128, 10**30]:
        for sp in ["{:%d}", "{:.%d}", "{:0%d(bold)}", "{:^%d.5?}", "{:5.%d(fg=red)x}", "{%d}", "{%d:?}", "{}{%d}", "{0}{%d}"]:
            if thorough or rng.random() < 0.5:
                add(sp.replace("%d", str(v)), a_of(1), False, why="sizes")
    # argument lists of the grammar
    for s, a in [("{}", F + ","), ("{0}{0}{0}", F), ("{1}{0}", f"{F}, {F}"), ("{}{0}{}", f"{F}, {F}"), ("{}{1}", f"{F}, {F}"), ("{a}{a}", f"a = {F}"), ("{}{a}{}", f"{F}, {F}, a = {F},"), ("{}{a}{}", f"{F}, a = {F}"), ("{}", f"n = {F}"), ("{0}", f"n = {F}"), ("{1}{0}", f"{F}, n = {F}"), ("{n}{0}", f"n = {F}"), ("{}{1}{n}{}", f"{F}, n = {F}"), ("{}{}{}", f"{F}, n = {F}, m = {F}"), ("{2}{n}{0}", f"{F}, n = {F}, m = {F}"), ("{1}{0}{a}", f"n = {F}, r#type = {F}"), ("{a}{b}", ""), ("{a}{n}", f"n = {F}"), ("{type}", f"r#type = {F}"), ("{a}", f"r#a = {F}"), ("", ""), ("", " "), ("{{}}", ""), ("no args", ""), ("{}", "1 + 2"), ("{}", "a2 == a2"), ("{}", "5 as u8"), ("{x}", "x = 1 < 2"), ("{:?}", "0..5"), ("{:?}", "..3"), ("{}", "{ 5 }"), ("{}", "if true { 1 } else { 2 }"), ("{}", "-a2"), ("{}", "|| 5 as u8 == 5 && true" if False else "true || false"), ("{:?}", "(1, 2,)"), ("{:?}", "[1; 3]"), ("{}", "a2.min(3)"), ("{}", "&&&a2"), ("{}", "Vec::<u8>::new().len()"), ("{:?}", "Some(|x: u8| x).map(|f| f(3))"), ("{n}", "n = { let n = 3; n }"), ("{n}{}", "{ let n = 3; n }, n = a2"), ("{}", "return_(1)"), ("{:?}", "\"a\".chars()"), ("{:?}", "match 3 { 1..=4 => 'a', _ => 'b' }"), ("{0:?}{0:x}{0:e}", "5i32"), ("{:?}", "rt::Unit"), ("{}", "unsafe { 5 }"), ("{:?}", "async { 1 }.await_()" if False else "()"), ("{:p}", "&a2")]:
        add(s, ", " + a if a.strip() else a, True, why="arguments")
    return out


# argument lists as lists of tokens; std decides
CALL_TOKENS = [",", ",", "=", "=", "==", "+=", "::", "<u8>::", "#[foo]", "#[allow(unused)]", "x", "y", "a", "r#x", "r#type", "type", "self", "crate", "_", "(x)", "(x, y)", "[x]", "{ x }", "&", "*", "-", "!", "?", ";", ":", "..", "..=", "return", "let", "mut", "ref", "move", "if", "in", "=>", "->", "as", "u8", "1", "2.5", "\"s\"", "'c'", "'a", "'a:", "()", "[]", "{}", "|x|", "||", "&&", ".", ".0", ".min(1)", "<", ">", "@", "$x", "x = ", "y = 1", ", y = 2", "x::y", "x.y", "x[0]", "x!()", "::x", "<x>", "x as", "const", "unsafe", "async", "static", "~", "\\", "x()", "box", "try", "dyn", "match"]
CALL_BASES = [("{}", "1"), ("{}{}", "1 , 2"), ("{x}", "x = 3"), ("{x}{y}", "x = 3 , y = a"), ("{}{x}", "1 , x = a"), ("{0}{x}", "a + 1 , x = ( 2 )"), ("{a}", ""), ("{x}", "x = - 1"), ("{x:?}{}", "& a , x = { 2 } ,"), ("{}{}{x}", "1 , a , x = 1 == 1"), ("{}", "a == a"), ("{type}", "r#type = 2"), ("{type}", "type = 2"), ("{match}{}{dyn}", "1 , match = a , dyn = 2 ,"), ("{self}", "self = 1"), ("{crate}{Self}", "crate = a , Self = x"), ("{union}{async}{raw}", "union = 1 , async = 2 , raw = a"), ("{x}{0}", "x = 5"), ("x", "")]


# what may stand where the format string does; std decides. Macros that std expands
# there are not judged unless they are those `with_builtin_macros` documents.
FORMATS = ["L", "Lsuffix", "stringify!(L)", "Lu8", "L_", "(L)", "((L))", "{ L }", "&L", "*L", "-L", "!L", "L L", "L + L", "L as &str", "L?", "L.0", "[L][0]", "[L]", "(L,)", "const { L }", "unsafe { L }", "if true { L } else { L }", "match 1 { _ => L }", "#[foo] L", "concat!(L)", "concat!(L,)", "concat!(\"\", L)", "concat!(L, \"\",)", "concat!(concat!(L), \"\")", "concat!()", "concat! { L }", "concat![L]", "concat!(L L)", "concat!(L;)", "concat!(,L)", "concat!(L,,)", "concat!(L", "r#L#", "bL", "cL", "rL", "brL", "b'x'", "'x'", "1", "1.5", "true", "()", "|| L", "L..", "L = L", "x = L", "return L", "break L", "L.len()", "L,", ",", "L;", "L =>", "L as str", "L: &str", "fmt", "FMT", "Some(L)", "String::from(L)", "std::format!(L)", "_", "self", "\"\"", "\"{{}}\" L", "crate = L", "crate = crate, L", "crate = stylish, L", "crate, L", "stylish, L", "L | L", "L in L", "let L", "'a: L", "$L", "@L", "~L", "L == L", "L => L", "box L", "mut L", "ref L", "dyn L", "async { L }", "loop { break L }", "while L {}", "L!", "!L()", "<L>", "L::x", "L { }", "L()", "L[0]"]


DESTINATIONS = ["&mut w", "(w)", "((w))", "(&mut w)", "{ &mut w }", "{ w }", "*&mut w", "(*&mut w)", "&mut &mut w", "(&mut &mut w)", "if true { &mut w } else { &mut w }", "match () { _ => &mut w }", "loop { break &mut w }", "(|| &mut w)()", "*Box::new(&mut w)", "Box::new(&mut w)", "unsafe { &mut w }", "&w", "Some(&mut w).unwrap()", "[&mut w][0]", "(&mut w,).0", "{ let v = &mut w; v }", "w as _", "w w", "", "1", "\"w\"", "w = w", "w.", "w?", "!w", "-w", "return", "mut w", "ref w", "let w", "#[foo] w", "#[allow(unused)] w", "w, w", "nope", "self", "w::w", "w!()", "|| w", "move || w", "w..", "..w", "w[0]", "'a: w", "dst = w", "crate = w", "_", "(w, w)", "[w]", "()", "w + w", "w == w", "*w", "&&mut w", "&mut *&mut w", "std::io::sink()", "std::convert::identity(&mut w)", "{ &mut w } as _", "async { w }", "const { 1 }", "'a': w", "$w", "@w"]


def calls(rng, n):
    seen = set()
    while n:
        fmt, args = rng.choice(CALL_BASES)
        l = args.split(" ") if args else []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            k, i = rng.randrange(5), rng.randrange(len(l) + 1)
            if k < 2 or not l:
                l.insert(i, rng.choice(CALL_TOKENS))
            elif k == 2:
                l[min(i, len(l) - 1)] = rng.choice(CALL_TOKENS)
            elif k == 3:
                del l[min(i, len(l) - 1)]
            else:
                l.insert(i, rng.choice(l))
        a = rng.choice([", ", ", ", ", ", ",", " "]) + " ".join(l) if l else rng.choice(["", ","])
        lit = rust_str(fmt)
        if rng.random() < 0.25:
            lit = rng.choice(FORMATS).replace("L", lit)
            if lit.count("(") != lit.count(")"):
                continue
            if rng.random() < 0.5:
                a = ", " + args if args else ""
        if (lit, a) in seen:
            continue
        seen.add((lit, a))
        n -= 1
        if rng.random() < 0.35:
            m = rng.choice(["write!", "writeln!", "writeln!"])
            x = rng.choice(["w", "w", "w", rng.choice(DESTINATIONS)]) + rng.choice([", ", ", ", ", ", ", ", ",", ";", " ", ",,", " => "])
            x += lit + a if rng.random() < 0.8 else rng.choice(["", "", ",", "_", "w", "()"])
            c = Cand("", "", None, why="argument lists", raw=f"{{ let mut w = Rec::default(); let _ = stylish::{m}({x}); w.text() }}", std_raw=f"{{ use std::fmt::Write as _; let mut w = String::new(); let _ = std::{m}({x}); w }}")
            c.label = f"stylish::{m}({x})"
            yield c
            continue
        c = Cand("", "", None, why="argument lists", raw=f"stylish::plain::format!({lit}{a})", std_raw=f"std::format!({lit}{a})")
        c.label = c.raw
        yield c


# what may be in scope where a macro is called, none of which std's macro minds
CONTEXTS = {
    "a type with the variants Some and None": "enum Opt { Some, None } use Opt::*;",
    "variants Ok and Err": "enum R { Ok, Err } use R::*;",
    "constants with short names": "const diff: i32 = 3; const style: u8 = 1; const fmt: u8 = 2; const arg: u8 = 3; const args: u8 = 4; const res: u8 = 5; const formatter: u8 = 7;",
    "statics with short names": "static diff: i32 = 3; static style: u8 = 1; static fmt: u8 = 2; static arg: u8 = 3; static args: u8 = 4; static res: u8 = 5; static formatter: u8 = 7; static width: u8 = 1; static precision: u8 = 1;",
    "unit types with short names": "struct diff; struct style; struct fmt; struct arg; struct args; struct res; struct formatter; struct width; struct align;",
    "functions with the library's names": "fn format() {} fn write() {} fn with() {} fn with_args() {} fn write_str() {} fn fmt() {} fn default() {} fn write_fmt() {} fn drop() {}",
    "types with the library's names": "struct Style; struct StyleDiff; struct Color; struct Intensity; struct Foreground; struct Background; struct Formatter; struct FormatterArgs; struct Arguments; struct Restyle; struct StdFmt; struct Align; struct Sign;",
    "types with the prelude's names": "struct String; struct Vec; struct Option; struct Result; struct Box; struct Default; struct Clone; struct Fn; struct Send; struct ToString; struct Into; struct usize; struct str; struct bool; struct u8;",
    "modules with the crates' names": "mod core {} mod std {} mod alloc {} mod stylish_core {} mod stylish_macros {} mod fmt {} mod option {} mod io {} mod plain {} mod style {}",
    "macros with std's names": "macro_rules! concat { () => {} } macro_rules! panic { () => {} } macro_rules! format_args { () => {} } macro_rules! format { () => {} } macro_rules! write { () => {} } macro_rules! stringify { () => {} } macro_rules! vec { () => {} } macro_rules! matches { () => {} } macro_rules! unreachable { () => {} }",
    "a trait that gives everything a method default": "trait D { fn default() -> i32 { 1 } fn new() -> i32 { 1 } } impl<T: ?Sized> D for T {}",
    "a trait that gives everything methods of the library's names": "trait D { fn with_args(&self) {} fn with(&self) {} fn apply(&self) {} fn borrow(&self) {} fn deref(&self) {} fn as_ref(&self) {} fn into(&self) {} fn to_string(&self) {} fn clone(&self) {} fn expect(&self) {} fn unwrap(&self) {} } impl<T: ?Sized> D for T {}",
    "traits with std's names": "trait Display {} trait Debug {} trait Fn {} trait Deref {} trait Drop {} trait Copy {} trait Write {}",
    "generic parameters": "",
    "no prelude": "",
}
CONTEXT_CALLS = [
    ('"{{}}{v}{:?}{b:>5}"', ", 1, b = 2"),
    ('"{:(fg=red,bold)}{v:(bg=blue)?}{0:(faint)}"', ", 1"),
    ('"{:+#010.3(bg=default)}{x:^7.2(fg=brightblue)x?}"', ", 1.5, x = 3"),
    ('"{v:(normal)}"', ""),
    ('"text"', ""),
    ('"{:s}"', ", ::stylish::format_args!(\"{:(fg=red)}\", 5)"),
]


def contexts(rng):
    def strip(fmt):
        if "{:s}" in fmt:
            return '"{}"'
        return g.read(fmt)[1]
    for name, pre in CONTEXTS.items():
        for fmt, args in CONTEXT_CALLS:
            for mac in ["format", "write", "writeln"]:
                blocks = []
                for lib in ("sty", "std"):
                    f, a = (fmt, args) if lib == "sty" else (strip(fmt), args.replace('::stylish::format_args!("{:(fg=red)}", 5)', "5"))
                    if mac == "format":
                        e = f"::stylish::plain::format!({f}{a})" if lib == "sty" else f"::std::format!({f}{a})"
                    elif lib == "sty":
                        e = f"{{ let mut rec_q = <::rt::Rec as ::core::default::Default>::default(); use ::stylish::Write as _; ::core::assert!(::stylish::{mac}!(rec_q, {f}{a}).is_ok()); rec_q.text() }}"
                    else:
                        e = f"{{ let mut out_q = ::std::string::String::new(); use ::core::fmt::Write as _; ::core::assert!(::std::{mac}!(out_q, {f}{a}).is_ok()); out_q }}"
                    if name == "no prelude":
                        b = f"{{ #[no_implicit_prelude] mod inner {{ pub fn go() -> ::std::string::String {{ let v = 5u8; {e} }} }} inner::go() }}"
                    elif name == "generic parameters":
                        b = f"{{ fn go<diff: ::core::fmt::Display + ::core::fmt::Debug, Some, 'a>(v: &'a diff) -> ::std::string::String {{ {e} }} go::<u8, ()>(&5) }}"
                    else:
                        b = f"{{ {pre} let v = 5u8; {e} }}"
                    blocks.append(b)
                yield name, f"{mac}!({fmt}{args}) with {name}", blocks[0], blocks[1]


NAMED = ", ".join(NAMES)
DISCARDS = []
LETS = f"{WRITE} let ({NAMED}) = ({', '.join(['rt::Flags'] * len(NAMES))}); let a2 = 7i32; fn return_(x: u8) -> u8 {{ x }}"

RULE = "generated calls of the macros: format strings and argument lists of the documented grammar, ones off it by a few edits, and ones of families that are not in it, each compiled; accepted and rejected ones compared with what std's macro makes of the string without attributes and with a reference reader of the grammar; accepted ones are run and their text compared with std's; non-trivial if there is a placeholder or the call has to be rejected"
EXHAUSTIVE = ["every known name of an attribute value, and a list of attribute lists, specifications, brace placements, argument lists and calls that must be rejected"]


def judge(cands, counters):
    """settles what has to become of each candidate, as far as the reference goes"""
    out = []
    for c in cands:
        c.stripped = None
        c.attrs = False
        if c.raw is None:
            try:
                ph, c.stripped = g.read(c.fmt)
                ok = True
                c.attrs = any(p[2] is not None for p in ph)
                c.sty = any(p[1] == "s" for p in ph)
            except g.Unsure:
                counters["strings not judged: reference unsure"] = counters.get("strings not judged: reference unsure", 0) + 1
                continue
            except g.No:
                ok = False
                c.attrs = "(" in c.fmt
                c.sty = False
            if c.why not in ("arguments", "sizes", "a value without the trait") and ok != c.must:
                counters["strings not judged: meant otherwise"] = counters.get("strings not judged: meant otherwise", 0) + 1
                continue
        else:
            c.sty = False
        out.append(c)
    return out


def run(seed, thorough, known):
    counters = {}
    rng = random.Random(f"c11 calls {seed}")
    cands = judge(candidates(seed, thorough), counters)
    # the macros as they are used
    sty, std = [], []
    for i, c in enumerate(cands):
        if c.raw is not None:
            call = c.raw
            twin = c.std_raw
        else:
            m = rng.choice(MACROS) if rng.random() < 0.6 else MACROS[0]
            call = m.replace("{}", rust_str(c.fmt) + c.args, 1)
            twin = None
            if c.stripped is not None:
                if c.why == "a value without the trait" and c.sty:
                    twin = None
                else:
                    twin = f"std::format!({rust_str(c.stripped)}{c.std_args})"
            elif not c.attrs:
                twin = f"std::format!({rust_str(c.fmt)}{c.std_args})"
        c.call, c.twin = call, twin
        c.s = Case(f"c11-{i}", f"{LETS}\nlet _ = {call};", call)
        sty.append(c.s)
        c.t = None
        if twin:
            c.t = Case(f"c11-{i}", f"{LETS}\nlet _ = {twin};", twin)
            std.append(c.t)
    findings = [k for k in known if k["property"] == "C11"]
    for k in findings:
        k["case"] = Case("c11-known", f"{LETS}\nlet (width, prec) = (5usize, 2usize); let _ = {k['input']};", k["input"])
        sty.append(k["case"])
    ps = Program("c11s", HEADER)
    ps.setup()
    ps.build(chunked(sty, 16), check=True)
    pt = Program("c11t", HEADER)
    pt.setup()
    pt.build(chunked(std, 16), check=True)
    violations, todo = [], []
    n_acc = n_rej = 0
    evaluations = distinct = 0
    families = {}
    samples = []
    for c in cands:
        accepted = c.s.errors is None
        if c.t is not None:
            std_ok = c.t.errors is None
            if c.must is None:
                c.must = std_ok
            if std_ok != c.must and (c.must or not c.attrs):
                counters["strings not judged: std disagrees with the reference"] = counters.get("strings not judged: std disagrees with the reference", 0) + 1
                DISCARDS.append((c.call, c.must, c.why))
                c.discard = True
                continue
            counters["verdicts confirmed by std's macro"] = counters.get("verdicts confirmed by std's macro", 0) + 1
        evaluations += 1
        distinct += 1 if not c.must or "{" in c.call else 0
        key = ("accept" if c.must else "reject") + ": " + c.why.split(":")[0]
        families[key] = families.get(key, 0) + 1
        if accepted != c.must:
            violations.append((f"{getattr(c, 'label', c.call)} is {'accepted' if accepted else 'rejected: ' + '; '.join(c.s.errors)[:300]}, but it is {'in' if c.must else 'outside'} the grammar ({c.why})", c.call))
        elif c.must:
            n_acc += 1
            if c.raw is not None:
                todo.append(Case(f"c11-run-{len(todo)}", f"let got: String = {{ {LETS if c.why == 'argument lists' else ''}\n{c.raw} }}; let want: String = {{ {LETS if c.why == 'argument lists' else ''}\n{c.twin} }}; c.text({rust_str(c.label)}, &got, &want);", c.label))
            if c.stripped is not None:
                want = f"std::format!({rust_str(c.stripped)}{c.std_args})" if not c.sty else None
                code = f"{LETS}\nlet got = stylish::plain::format!({rust_str(c.fmt)}{c.args});\n"
                code += f"c.text({rust_str(c.fmt)}, &got, &{want});" if want else "c.same(\"renders\", &got.is_empty(), &false);"
                todo.append(Case(f"c11-run-{len(todo)}", code, c.call))
        else:
            n_rej += 1
            if len(samples) < 5 and rng.random() < 0.01:
                samples.append(f"{c.call} rejected: {c.s.errors[0]}")
    # the verdicts of the macros as they are shipped
    some = rng.sample([c for c in cands if not getattr(c, "discard", False)], len(cands) // 4) if not violations else []
    shipped = [Case(c.s.id, c.s.code, c.s.what) for c in some]
    pq = Program("c11q", HEADER, config="shipped")
    pq.setup()
    pq.build(chunked(shipped, 12), check=True)
    for c, q in zip(some, shipped):
        evaluations += 1
        if (q.errors is None) != c.must:
            violations.append((f"{getattr(c, 'label', c.call)} is {'accepted' if not q.errors else 'rejected: ' + '; '.join(q.errors)[:300]} without debug assertions, but it is {'in' if c.must else 'outside'} the grammar ({c.why})", c.call))
    counters["verdicts of macros without debug assertions"] = len(some)
    pr = Program("c11r", HEADER)
    pr.setup()
    pr.build(chunked(todo, 16))
    pr.execute()
    for c in todo:
        if c.errors:
            violations.append((f"{c.what} does not compile in another place: {c.errors}", c.code))
        elif not c.passed:
            violations.append((f"{c.what} renders wrongly: {c.fail}", c.code))
        elif len(samples) < 10 and rng.random() < 0.01:
            samples.append(f"{c.what} accepted, right")
    counters.update({"accepted as they have to be": n_acc, "rejected as they have to be": n_rej, "accepted ones run and compared": len(todo), "runs of the compiler": ps.builds + pt.builds + pr.builds})
    counters.update({k: v for k, v in sorted(families.items())})
    known_out = [(k, "; ".join(k["case"].errors)[:200]) for k in findings if k["case"].errors]
    for p in (ps, pt, pr, pq):
        p.clean()
    return dict(evaluations=evaluations, distinct_nontrivial=distinct, counters=counters, samples=samples, violations=violations, known=known_out)
