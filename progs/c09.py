"""C09: formatted text is identical to what std::fmt produces."""
import itertools, random
from engine import Case, attr_list, literal, new_words, rust_str, size, text_of

ALIGNS = ["", "<", "^", ">"]
SIGNS = ["", "+", "-"]
TRAITS = ["", "?", "x?", "X?", "o", "x", "X", "p", "b", "e", "E"]

INTS = ["0i32", "1u8", "-1i8", "i64::MIN", "u64::MAX", "i128::MIN", "u128::MAX", "-42isize", "usize::MAX", "12345u16", "-7i16", "std::num::NonZeroU8::new(9).unwrap()", "std::num::Wrapping(-5i32)", "&&17u32", "Box::new(-3i64)"]
FLOATS = ["0.0f64", "-0.0f32", "1.5f64", "-2.25f32", "1e21f64", "1e-7f64", "f64::MAX", "f32::MIN_POSITIVE", "f64::INFINITY", "f32::NEG_INFINITY", "f64::NAN", "123456789.987654321f64", "0.1f32 + 0.2"]
TEXTS = ['""', '"a"', '"hello world"', '"é✓🦀"', '"e\\u{301}x"', '"q\\"uo\\n\\t\\u{0}\\u{7f}te"', '"<&>\\u{1b}[0m"', "'x'", "'\\''", "'🦀'", "true", "false", 'String::from("owned")', 'std::borrow::Cow::Borrowed("cow")', 'std::rc::Rc::<str>::from("rc")', 'rt::Padded("padded")', 'rt::Pieces("pie")', "rt::dst(&[1, 2, 3])", "&&\"refref\"", "()", "std::net::Ipv4Addr::new(10, 1, 0, 255)"]
DEBUGS = ["rt::tree()", "rt::Unit", "rt::En::A", "rt::En::B(-1, vec![1, 200])", "rt::En::C { x: 1.0, y: ('c', true) }", "[1u8, 20, 255]", "Vec::<i32>::new()", "(1u8, -2i16, \"t\")", "Some(\"x\")", "None::<u8>", "Ok::<u8, ()>(9)", "std::collections::BTreeMap::from([(1, \"a\"), (2, \"b\")])", "std::time::Duration::from_millis(1503)", "0u8..10", "\"str\\\\\\\"\"", "[[1.5f64, 2.0], [f64::NAN, -0.0]]", "std::cell::Cell::new(3u32)", "rt::Padded(\"p\")", "\"a\\nb\".lines().collect::<Vec<_>>()"]
PTRS = ["0x1234usize as *const u8", "std::ptr::null::<u64>()", "usize::MAX as *mut i32", "0xdeadusize as *const [u8; 4]"]
BY_TRAIT = {
    "": lambda t: [x for x in INTS + FLOATS + TEXTS if x != "()"],
    "?": lambda t: INTS + FLOATS + TEXTS + DEBUGS + PTRS,
    "x?": lambda t: INTS + DEBUGS + FLOATS + TEXTS,
    "X?": lambda t: INTS + DEBUGS + FLOATS + TEXTS,
    "p": lambda t: PTRS,
    "e": lambda t: FLOATS + [i for i in INTS if "Wrapping" not in i and "Box" not in i and "NonZero" not in i],
}
BY_TRAIT["E"] = BY_TRAIT["e"]
for _t in "oxXb":
    BY_TRAIT[_t] = lambda t: [i for i in INTS if "Box" not in i]


def flags_of(spec):
    return spec


def compare(i, spec, trait, vals, rng, attrs=False):
    """every value in a format string of its own"""
    code = ""
    a = ""
    if attrs:
        a = attr_list(rng, (rng.choice([None, rng.randrange(17)]), rng.choice([None, rng.randrange(17)]), rng.choice([None, 0, 1, 2])))
    for v in vals:
        s, t = "{:" + spec + a + trait + "}", "{:" + spec + trait + "}"
        if rng.random() < 0.02:
            s, t = s[:-1] + " }", t[:-1] + " }"
        form = rng.randrange(4)
        label = rust_str(f"{s} of {v}")
        val = v
        if trait == "p" and form == 1:
            form = 0  # a reference has an address of its own
        if form == 0:
            got = f"stylish::plain::format!({rust_str('|' + s + '|')}, {val})"
        elif form == 1:
            got = f"{{ let v = &{v if ' as ' not in v and ' + ' not in v and '..' not in v else '(' + v + ')'}; let mut r = Rec::default(); stylish::write!(r, {rust_str('|' + s + '|')}, v).unwrap(); r.text() }}"
        elif form == 2:
            got = f"stylish::plain::format(stylish::format_args!({rust_str('|{v' + s[1:] + '|')}, v = {val}))"
        else:
            got = f"{{ let mut w = stylish::io::plain(Vec::new()); stylish::write!(w, {rust_str('|{0' + s[1:] + '|')}, {val}).unwrap(); String::from_utf8(w.into_inner()).unwrap() }}"
        want = f"std::format!({rust_str('|' + t + '|')}, {val})"
        code += f"c.text({label}, &{got}, &{want});\n"
    return Case(f"c09-{i}", code, "{:" + spec + a + trait + "} of " + ", ".join(vals), nontrivial=spec != "" or trait != "", key=spec + a + trait + "|" + "|".join(vals))


def spec_of(rng, k):
    """flags, none of them with probability k"""
    if rng.random() < k:
        return ""
    return rng.choice(["", "", "<", "^", ">"]) + rng.choice(["", "", "+", "-"]) + rng.choice(["", "#"]) + rng.choice(["", "0"]) + rng.choice(["", "1", "4", "9", "30"]) + rng.choice(["", "", ".0", ".2", ".9"])


def attrs_of(rng, k):
    if rng.random() < k:
        return ""
    return attr_list(rng, (rng.choice([None, rng.randrange(17)]), rng.choice([None, rng.randrange(17)]), rng.choice([None, 0, 1, 2])))


def inner(rng, depth):
    """a format string, its arguments, and the std format string and arguments of the same text:
    what encloses a placeholder has no say in what its value sees"""
    fmt, args, sfmt, sargs = "", [], "", []
    for _ in range(rng.randrange(1, 4)):
        lit = rng.choice(["", "|", "a", "{{", "é"])
        fmt += lit
        sfmt += lit
        if depth and rng.random() < 0.45:
            e, sf, sa = wrapped(rng, depth - 1)
            if rng.random() < 0.15:
                e = "&&" + e
            fmt += "{:" + spec_of(rng, 0.25) + attrs_of(rng, 0.5) + "s}"
            args.append(e)
            sfmt += sf
            sargs += sa
        else:
            tr = rng.choice(TRAITS)
            sp = spec_of(rng, 0.6)
            v = rng.choice(["rt::Flags", "rt::Flags", rng.choice(BY_TRAIT[tr](tr))])
            at = attrs_of(rng, 0.6)
            fmt += "{:" + sp + at + tr + "}" if sp + at + tr or rng.random() < 0.5 else "{}"
            sfmt += "{:" + sp + tr + "}"
            args.append(v)
            sargs.append(v)
    return fmt, args, sfmt, sargs


def wrapped(rng, depth):
    """an expression with stylish text of its own, and the std text of it"""
    fmt, args, sfmt, sargs = inner(rng, depth)
    call = ", ".join([rust_str(fmt)] + args)
    k = rng.randrange(6)
    if k == 0:
        e = f"rt::by(|f| stylish::write!(f, {call}))"
    elif k == 1:
        e = f"rt::by(|f| stylish::write!(f.with(stylish::Foreground(stylish::Color::Red)), {call}))"
    elif k == 2:
        e = f"rt::by(|f| f.write_fmt(stylish::format_args!({call})))"
    elif k == 3:
        e = f"stylish::format_args!({call})"
    elif k == 4:
        e = f"stylish::format!({call})"
    else:
        e = f"rt::by(|f| {{ let mut g = f.with(stylish::Intensity::Bold); stylish::write!(g, {call})?; Ok(()) }})"
    return e, sfmt, sargs


def cases(seed, thorough):
    rng = random.Random(f"c09 {seed}")
    words, numbers = new_words()
    out = []
    i = 0
    # the whole grid of flags and traits, as seen by an implementation
    widths = ["", "0", "7", "300"] if not thorough else ["", "0", "7", "60", "65535"]
    precs = ["", ".0", ".3"] if not thorough else ["", ".0", ".3", ".40", ".65535"]
    for al, sg, alt, z, w, p, tr in itertools.product(ALIGNS, SIGNS, ["", "#"], ["", "0"], widths, precs, TRAITS):
        # what a fixed grid value samples is moved around by the seed
        w2 = w if w in ("", "0", "65535") else str(rng.choice([1, 2, 3, 7, 10, 99, 255, 256, 1000, int(w)]))
        p2 = p if p in ("", ".0", ".65535") else "." + str(rng.choice([0, 1, 2, 9, 31, 255, 256, 1000, int(p[1:])]))
        if al and rng.random() < 0.1:
            al = " " + al
        spec = al + sg + alt + z + w2 + p2
        pool = BY_TRAIT[tr](tr)
        vals = ["rt::Flags"]
        if rng.random() < (0.25 if not thorough else 0.6):
            vals.append(rng.choice(pool))
        out.append(compare(i, spec, tr, vals, rng, rng.random() < 0.3))
        i += 1
    # every value with every trait it has
    for tr in TRAITS:
        for v in BY_TRAIT[tr](tr):
            for _ in range(1 if not thorough else 6):
                spec = rng.choice(ALIGNS) + rng.choice(SIGNS) + rng.choice(["", "#"]) + rng.choice(["", "0"]) + rng.choice(["", "", "1", "5", "12", "30", "300"]) + rng.choice(["", "", ".0", ".1", ".5", ".17"])
                out.append(compare(i, spec, tr, [v], rng, rng.random() < 0.3))
                i += 1
    # the edges of what a width or precision can be
    for n in sorted({n + k for n in numbers for k in (-1, 0, 1) if 0 <= n + k <= 65535}) + [0, 1, 9, 10, 99, 254, 255, 256, 257, 511, 512, 4095, 4096, 32767, 32768, 65534, 65535]:
        for s in [f"{n}", f".{n}", f"0{n}", f"{n}.{n}", f">{n}", f"^{n}.1", f"+#0{n}.2", f"00{n}", f".00{n}"]:
            for tr, v in [("", "rt::Flags"), ("", '"ab"'), ("?", "1.5f32"), ("x", "-1i8"), ("e", "0.5f64")]:
                if thorough or rng.random() < 0.4:
                    out.append(compare(i, s, tr, [v], rng, rng.random() < 0.3))
                    i += 1
    # values that write placeholders of their own, under placeholders with flags
    for sp in ["04", ">9", "^+.3", "#", "0", "-<5", ".2", "+#07.1"]:
        for k in range(6):
            x = random.Random(f"{seed} {sp} {k}")
            x.randrange = (lambda r: (lambda *a: k if a == (6,) else r(*a)))(x.randrange)
            e, sf, sa = wrapped(x, 0)
            for v, w, st in [(e, sf, sa), ('rt::by(|f| stylish::write!(f, "{}", rt::Flags))', "{}", ["rt::Flags"]), ('rt::by(|f| stylish::write!(f.with(stylish::Foreground(stylish::Color::Red)), "{:?}{}", rt::Flags, 1.5f64))', "{:?}{}", ["rt::Flags", "1.5f64"])]:
                got = "{:" + sp + attrs_of(x, 0.7) + "s}"
                out.append(Case(f"c09-{i}", f"c.text({rust_str(got)}, &stylish::plain::format!({rust_str(got)}, {v}), &std::format!({', '.join([rust_str(w)] + st)}));", f"{got} of {v}", nontrivial=True, key=got + v))
                i += 1
    for _ in range(400 if not thorough else 4000):
        fmt, args, sfmt, sargs = inner(rng, rng.choice([1, 2, 2, 3]))
        call, want = ", ".join([rust_str(fmt)] + args), ", ".join([rust_str(sfmt)] + sargs)
        form = rng.randrange(4)
        if form == 0:
            got = f"stylish::plain::format!({call})"
        elif form == 1:
            got = f"{{ let mut r = Rec::default(); stylish::write!(r, {call}).unwrap(); r.text() }}"
        elif form == 2:
            got = f"{{ let mut w = stylish::io::plain(Vec::new()); stylish::write!(w, {call}).unwrap(); String::from_utf8(w.into_inner()).unwrap() }}"
        else:
            got = f"stylish::plain::format!(\"{{:>40.1s}}\", stylish::format_args!({call}))"
        out.append(Case(f"c09-{i}", f"c.text({rust_str(fmt)}, &{got}, &std::format!({want}));", f"{fmt} of {', '.join(args)}", nontrivial=True, key=fmt + "|".join(args)))
        i += 1
    # numbers and texts of all sizes, and those of the sources
    values = [f"{n + k}{t}" for n in numbers for k in (-1, 0, 1) for t in ("u128", "i64") if 0 <= n + k < 1 << 63]
    values += [f"{(1 << b) + k}u128" for b in range(0, 128, 3) for k in (-1, 0, 1)] + [f"{rng.choice(['', '-'])}{10 ** k}i128" for k in range(0, 38, 2)]
    values += [f"{rng.choice(['', '-'])}{rng.randrange(1, 9999999)}e{k}f64" for k in range(-30, 30, 3)]
    values += [rust_str(w) for w in words for _ in range(6)] + [f"{rust_str(text_of(rng, max(1, size(rng, numbers, 70))))}.repeat({size(rng, numbers, 300)})" for _ in range(60)]
    for v in values:
        tr = rng.choice(["", "", "?"] if v[0] == '"' else ["", "", "?", "e"] if "e" in v else ["", "", "?", "x", "X", "o", "b", "e"])
        spec = spec_of(rng, 0.4)
        if rng.random() < 0.3:
            spec = rng.choice(["", "<", "^", ">", "+", "#", "0"]) + str(max(1, size(rng, numbers, 2000))) + rng.choice(["", "", f".{size(rng, numbers, 500)}"])
        out.append(compare(i, spec, tr, [v], rng, rng.random() < 0.3))
        i += 1
    # very many placeholders
    for _ in range(20 if not thorough else 100):
        n = size(rng, numbers, 300)
        same = rng.random() < 0.5
        fmt = "".join(rng.choice(["", "-", "{{"]) + "{" + ("" if same else rng.choice(["0", "1", "v", "w"])) + rng.choice(["", ":?", ":>3", ":04"]) + "}" for _ in range(n))
        fmt += "" if same else "{0}{1}{v}{w}"
        args = "".join(f", {k}" for k in range(n)) if same else ", 1.5, 2, v = 7"
        out.append(Case(f"c09-{i}", f"let w = 9; let _ = w; c.text({rust_str(fmt[:200])}, &stylish::plain::format!({rust_str(fmt)}{args}), &std::format!({rust_str(fmt)}{args}));", f"{n} placeholders: {fmt[:200]}", nontrivial=True, key=fmt))
        i += 1
    # literals around and between
    for _ in range(60 if not thorough else 600):
        lits = [literal(rng, words, numbers) if rng.random() < 0.15 else rng.choice(["", "a", "{{", "}}", "{{}}", "é\n", "\"", "\\", "{{:?}}", "🦀", "%s", "$", "\u200b", "\0", "\r\n", "}}{{", "{{{{", "tab\t"]) for _ in range(4)]
        body = lits[0] + "{}" + lits[1] + "{:?}" + lits[2] + "{:>3}" + lits[3]
        s = rust_str(body)
        raw = s if "\\" in s or "\"" in body or rng.random() < 0.5 else 'r#"' + body + '"#'
        form = rng.randrange(3)
        if form == 0:
            code = f"c.text({rust_str(body)}, &stylish::plain::format!({raw}, 1, \"x\", 'c'), &std::format!({raw}, 1, \"x\", 'c'));"
        elif form == 1:
            code = f"let mut r = Rec::default(); stylish::writeln!(r, {raw}, 1, \"x\", 'c').unwrap(); c.text({rust_str(body)}, &r.text(), &(std::format!({raw}, 1, \"x\", 'c') + \"\\n\"));"
        else:
            code = f"c.text({rust_str(body)}, &stylish::plain::format!(\"{{:s}}\", stylish::format!({raw}, 1, \"x\", 'c')), &std::format!({raw}, 1, \"x\", 'c'));"
        out.append(Case(f"c09-{i}", code, "literals in " + repr(body), nontrivial=True, key=body))
        i += 1
    return out


RULE = "generated programs: the whole grid of alignment, sign, alternate form, zero padding, width, precision and the eleven trait selectors against a probe that prints every flag its implementation sees; every value of a pool with every trait it has; the edges of widths and precisions; literals; each compared with std::format!; non-trivial if the specification is not empty"
EXHAUSTIVE = ["4 alignments * 3 signs * alternate * zero * width or none * precision or none * 11 trait selectors"]
