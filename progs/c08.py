"""C08: attributes in a format string equal the same programmatic restyle."""
import random
from engine import Case, at, attr_list, literal, new_words, rust_str, size, text_of

# (spec before the attributes, trait, Rust expression); spec and trait also for std
VALUES = [
    ("", "", '"text"'), (">8", "", '"ab"'), ("^9", "", '"é✓"'), ("<7", "", "'x'"), ("", "?", '"q\\"uote\\n"'),
    ("05", "", "-42i32"), ("+", "", "7u8"), ("#010", "x", "255u32"), ("#", "X", "48879u64"), ("", "o", "8i8"),
    ("#b".replace("b", ""), "b", "5u16"), ("12", "e", "1234.5f64"), ("", "E", "0.00012f32"), (".3", "", "2.0f64 / 3.0"),
    ("+08.2", "", "-3.14159f64"), ("#", "?", "(1u8, \"a\", [true, false])"), ("", "x?", "[10u8, 255]"), ("#", "X?", "Some(0xabcu32)"),
    (".2", "", '"truncated"'), ("10.3", "", '"truncated"'), ("", "", "\"<&>\\\"'\""), ("", "", '"\\u{1b}[31m"'), ("", "", '"line\\nline"'),
    (" >6", "", "3i32"), ("", "", "rt::Pieces(\"abc\")"), (">30", "", "rt::Padded(\"pad\")"), ("", "?", "rt::tree()"), ("#", "?", "rt::tree()"),
    ("20", "p", "0x1234usize as *const u8"), ("", "", '""'), ("5", "", '""'), ("", "", "std::format_args!(\"{}-{:>4}\", 1, 2)"),
]
# arguments that say themselves what they will look like
PLAIN = ['"text"', '""', '" "', '"é"', '"a{}b"', '"\\n"', 'r"raw"', 'r#"r"aw"#', "'c'", "'é'", "'\\n'", "5", "0", "0x1f", "1_000", "0b101u8", "0o17i64", "255u8", "1.5", "2.0", "1e3", "1_0.5f32", "true", "false", "-7", "-1.25", "b'x'", "!0u8", "&5", "&&\"ref\"", "(5)", "(\"paren\")", "{ 5 }", "1 + 1", "5 as u8", "concat!(\"a\", 1)", "stringify!(a b)", "line!() - line!()", "u8::MAX", "std::f64::consts::PI", "\"a\".len()", "&\"sliced\"[1..]", "'a' as u32", "std::primitive::char::MAX", "Box::new(3)", "String::from(\"s\")", "&String::new()"]
LITS = ["", "", "a", "{{", "}}", " é ", "{{}}", "\\n", "<b>&", "x=1, ", "\\u{1F980}", "(fg=red)"]


def lit_text(l):
    return l.replace("{{", "{").replace("}}", "}")


def lit(rng, words, numbers):
    if rng.random() < (0.15 if words or numbers else 0.03):
        return rust_str(literal(rng, words, numbers))[1:-1]
    return rng.choice(LITS)


def piece(rng, n, a, sty_ok=True, words=(), numbers=()):
    """(placeholder source, argument source or None, list of (text expression, attributes))"""
    attrs = attr_list(rng, a)
    if a == (None, None, None) and rng.random() < 0.6:
        attrs = ""
    if sty_ok and rng.random() < 0.15:
        t = rng.choice(['"s"', '"ß<"', '""', '"two words"'])
        own = (2, a[1], 1)
        return "%s" + f":{attrs}s", f"rt::Sty({t})", [(t, a), (t, own), (t, a)]
    spec, tr, v = rng.choice(VALUES)
    if rng.random() < 0.4:
        spec, tr, v = rng.choice(["", "", "", "", "4"]), rng.choice(["", "", "", "", "?"]), rng.choice(PLAIN)
    if rng.random() < (0.15 if words or numbers else 0.03):
        spec, tr, v = rng.choice(["", "", "4"]), rng.choice(["", "", "?"]), rust_str(literal(rng, words, numbers))
    src = f":{spec}{attrs}{tr}"
    return "%s" + src, v, [(f"&std::format!(\"{{:{spec}{tr}}}\", {v})", a)]


def case(rng, i, attrs, single, words=(), numbers=()):
    """attrs: one triple a placeholder"""
    s, args, want, named = "", [], [], []
    pieces = []
    for a in attrs:
        l = lit(rng, words, numbers)
        s += l
        if l:
            want.append((f"\"{lit_text(l)}\"", (None, None, None)))
        p, v, w = piece(rng, i, a, True, words, numbers)
        mode = rng.random()
        if mode < 0.6:
            pieces.append((p, v, "pos"))
        else:
            pieces.append((p, v, "named"))
        s += "{" + f"\0{len(pieces) - 1}\0" + "}"
        want += w
    l = lit(rng, words, numbers)
    s += l
    if l:
        want.append((f"\"{lit_text(l)}\"", (None, None, None)))
    explicit = rng.random() < 0.4
    pos = 0
    lets = ""
    for k, (p, v, mode) in enumerate(pieces):
        if mode == "pos":
            who = str(pos) if explicit else ""
            pos += 1
            args.append(v)
        else:
            who = f"n{k}"
            if rng.random() < 0.5 and "format_args" not in v:
                lets += f"let n{k} = {v};\n"
            else:
                named.append(f"n{k} = {v}")
        s = s.replace(f"\0{k}\0", p.replace("%s", who))
    fmt = '"' + s + '"'
    a = ", ".join([fmt] + args + named)
    wants = ", ".join(f"({t}, {at(x)})" for t, x in want)
    kind = rng.randrange(5)
    nl = f", (\"\\n\", {at((None, None, None))})"
    if kind < 2:
        call = f"c.attrs(&|f| stylish::write!(f, {a}), &[{wants}]);"
    elif kind == 2:
        call = f"c.attrs(&|f| stylish::writeln!(f, {a}), &[{wants}{nl if wants else nl[2:]}]);"
    elif kind == 3:
        call = f"c.attrs(&|f| f.write_fmt(stylish::format_args!({a})), &[{wants}]);"
    else:
        call = f"c.attrs(&|f| stylish::write!(f, \"{{:s}}\", stylish::format_args!({a})), &[{wants}]);"
    return Case(f"c08-{i}", lets + call, a, nontrivial=any(x != (None, None, None) for x in attrs), key=a)


def cases(seed, thorough):
    rng = random.Random(f"c08 {seed}")
    words, numbers = new_words()
    out = []
    every = [(f, b, n) for f in [None] + list(range(17)) for b in [None] + list(range(17)) for n in [None, 0, 1, 2]]
    rng.shuffle(every)
    # every combination of attributes, alone in its format string
    todo = list(every)
    i = 0
    for a in todo:
        out.append(case(rng, i, [a], True, words, numbers))
        i += 1
    # every such argument under every kind of list
    for v in PLAIN:
        for n in [(None, None, 0), (None, None, 1), (None, None, 2), (rng.randrange(17), None, None), (None, rng.randrange(17), None), (rng.randrange(17), rng.randrange(17), rng.randrange(3)), (16, 16, 0)]:
            a = attr_list(rng, n)
            w = [("a", (None, None, None))] if rng.random() < 0.5 else []
            lit = "a" if w else ""
            for tr in ["", "?"]:
                want = ", ".join(f"({t}, {at(x)})" for t, x in [(f'"{l}"', x) for l, x in w] + [(f'&std::format!("{{:{tr}}}", {v})', n)])
                if rng.random() < 0.5:
                    call = f'c.attrs(&|f| stylish::write!(f, "{lit}{{:{a}{tr}}}", {v}), &[{want}]);'
                else:
                    call = f'c.attrs(&|f| stylish::write!(f, "{lit}{{v:{a}{tr}}}", v = {v}), &[{want}]);'
                out.append(Case(f"c08-{i}", call, f"{lit}{{:{a}{tr}}} of {v}", nontrivial=True, key=a + tr + v))
                i += 1
    # several placeholders with attributes of their own in one format string
    for _ in range(900 if not thorough else 4000):
        out.append(case(rng, i, [rng.choice(every) for _ in range(rng.randrange(2, 6))], False, words, numbers))
        i += 1
    # very many of them
    for _ in range(24 if not thorough else 100):
        out.append(many(rng, i, size(rng, numbers, 300)))
        i += 1
    return out


def many(rng, i, n):
    """n placeholders and literals, in all of them or in few the same attributes"""
    some = [(rng.choice([None] + list(range(17))), rng.choice([None] + list(range(17))), rng.choice([None, 0, 1, 2])) for _ in range(rng.choice([1, 2, 5, n + 1]))]
    s, args, want = "", [], []
    arg = rng.random() < 0.5
    for k in range(n):
        a = rng.choice(some)
        l = rng.choice(["", "", "-", "{{"])
        if l:
            s += l
            want.append((f'"{lit_text(l)}"', (None, None, None)))
        who = "" if arg else rng.choice(["n", "0", "m"])
        s += "{" + who + ":" + attr_list(rng, a) + "}"
        if arg:
            args.append(str(k))
        want.append((f'"{k}"' if arg else {"n": '"n"', "0": '"0"', "m": '"m"'}[who], a))
    if not arg:
        args = [str(0)] if "{0" in s else []
    lets = 'let (n, m) = ("n", "m"); let _ = (n, m);\n'
    call = ", ".join(['"' + s + '"'] + args)
    return Case(f"c08-{i}", lets + f"c.attrs(&|f| stylish::write!(f, {call}), &[{', '.join(f'({t}, {at(x)})' for t, x in want)}]);", f"{n} placeholders: {s[:200]}", nontrivial=n > 0, key=s)


RULE = "generated programs: every one of the 18*18*4 attribute combinations in a format string, and random format strings with several; attributes in random order, random other parts of the specification, values, traits and ways to name the argument; each rendered into a recording writer under 22 surrounding styles, every character compared with its wanted style; non-trivial if an attribute is named"
EXHAUSTIVE = ["all 1296 combinations of foreground, background and intensity attributes, absent ones included"]
