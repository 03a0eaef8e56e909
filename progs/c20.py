"""C20: every feature combination builds, offers its items and renders alike.

One program uses all items documented for the enabled features and prints what
they render. It is built and run in all 64 configurations, and in the 32 without
`std` also as a program without the standard library, with an allocator only if
`alloc` is on. The output of each has to be what the configuration with all
features prints for the same items.
"""
import itertools, os, random, re, shutil, time
from concurrent.futures import ThreadPoolExecutor
import queue
import c09, engine
from engine import REPO, WORK, TARGET, VERIF, Inconclusive, fresh_target, run as sh

FEATURES = ["std", "alloc", "macros", "ansi", "html", "plain"]
RULE = ("one evaluation is one configuration built and, unless it is one of a single crate, run; it is non-trivial if its program "
        "printed at least one observation that was compared with the one of the configuration with all features (single crates: if it was built with a feature set of its own)")

CRATES = {"stylish-core": ("core", ["std", "alloc", "macros"]), "stylish-style": ("style", ["std", "alloc"]),
          "stylish-ansi": ("ansi", ["std", "alloc", "macros"]), "stylish-html": ("html", ["std", "alloc", "macros"]),
          "stylish-plain": ("plain", ["std", "alloc", "macros"])}

# items whose documentation names them for a feature, as the compiler has to see
# them; `feature = expression` pairs checked apart from the rest as findings may
PROFILE = "[profile.dev]\ndebug = false\nopt-level = 0\nincremental = false\npanic = \"abort\"\n"


def subsets(fs):
    return [c for n in range(len(fs) + 1) for c in itertools.combinations(fs, n)]


def manifest_probe():
    feats = "".join(f'{f} = ["stylish/{f}"{", \"alloc\"" if f == "std" else ""}]\n' for f in FEATURES)
    return f"""[package]
name = "probe"
version = "0.0.0"
edition = "2021"
[workspace]
[features]
{feats}
[dependencies]
stylish = {{ path = "{REPO}", default-features = false }}
{PROFILE}"""


def manifest_stub(crate, feats):
    return f"""[package]
name = "stub"
version = "0.0.0"
edition = "2021"
[workspace]
[lib]
path = "lib.rs"
[dependencies]
{crate} = {{ path = "{os.path.join(REPO, CRATES[crate][0])}", default-features = false, features = [{", ".join(chr(34) + f + chr(34) for f in feats)}] }}
{PROFILE}"""


# the items a feature of a single crate stands for
STUB_ITEMS = {
    "stylish-core": {"": "use x::{Arguments, Background, Color, Display, Error, Foreground, Formatter, Intensity, Restyle, Result, Style, StyleDiff, Write};",
                     "alloc": "use x::{format, String};", "macros": "use x::{format_args, write, writeln};", "alloc+macros": "use x::ToStylishString;",
                     "std": "use x::io::{Error as E, ErrorKind, Result as R, Write as W};"},
    "stylish-style": {"": "use x::{Background, Color, Foreground, Intensity, Restyle, Style, StyleDiff};",
                      "alloc": "fn f(s: Style, b: alloc::boxed::Box<dyn Restyle>) -> Style { s.with(b) }"},
    "stylish-ansi": {"": "use x::Ansi;", "alloc": "use x::format;", "alloc+macros": "use x::ToAnsiString;", "std": "use x::io::Ansi as I;"},
    "stylish-html": {"": "use x::Html;", "alloc": "use x::format;", "alloc+macros": "use x::ToHtmlString;"},
    "stylish-plain": {"": "use x::Plain;", "alloc": "use x::format;", "alloc+macros": "use x::ToPlainString;", "std": "use x::io::Plain as I;"},
}


# what the types and traits of the crates offer beyond being there: in which crates
# (of "" the facade), for which features, what
CORE, STYLE = ["", "stylish-core"], ["", "stylish-core", "stylish-style"]
API = [
    (STYLE, "", """
        use x::{Background, Color, Foreground, Intensity, Restyle, Style, StyleDiff};
        fn is<T: Copy + Clone + core::fmt::Debug + Default + Eq + PartialEq + Send + Sync + Unpin + 'static>() {}
        fn restyles<T: Restyle + ?Sized>() {}
        pub fn all<'a>() {
            is::<Style>(); is::<StyleDiff>(); is::<Color>(); is::<Intensity>(); is::<Foreground>(); is::<Background>();
            restyles::<Style>(); restyles::<StyleDiff>(); restyles::<Intensity>(); restyles::<Foreground>(); restyles::<Background>(); restyles::<()>();
            restyles::<&Style>(); restyles::<&'a dyn Restyle>(); restyles::<dyn Restyle>(); restyles::<dyn Restyle + Send>(); restyles::<&&dyn Restyle>();
            restyles::<[Foreground]>(); restyles::<&[Intensity]>(); restyles::<[&dyn Restyle]>(); restyles::<&'a [Option<Style>]>(); restyles::<[()]>();
            restyles::<Option<Style>>(); restyles::<Option<&dyn Restyle>>(); restyles::<Option<(Foreground, Background)>>();
            restyles::<(Style, StyleDiff)>(); restyles::<(Foreground, Background, Intensity)>(); restyles::<((), &[Style], Option<Intensity>)>();
            let _: fn(Style, &'static [Intensity]) -> Style = Style::with;
            let _: fn(Style, Style) -> StyleDiff = Style::diff_from;
            let _: fn(&dyn Restyle, Style) -> Style = |r, s| r.apply(s);
            let Style { foreground: _, background: _, intensity: _, .. } = Style::default();
            let StyleDiff { foreground: None::<Color>, background: None::<Color>, intensity: None::<Intensity>, .. } = StyleDiff::default() else { return };
            const C: [Color; 17] = [Color::Black, Color::Red, Color::Green, Color::Yellow, Color::Blue, Color::Magenta, Color::Cyan, Color::White, Color::BrightBlack, Color::BrightRed, Color::BrightGreen, Color::BrightYellow, Color::BrightBlue, Color::BrightMagenta, Color::BrightCyan, Color::BrightWhite, Color::Default];
            const F: (Foreground, Background, [Intensity; 3]) = (Foreground(Color::Red), Background(Color::Blue), [Intensity::Normal, Intensity::Bold, Intensity::Faint]);
        }
        struct Mine;
        impl Restyle for Mine { fn apply(&self, s: Style) -> Style { s } }"""),
    (CORE, "", """
        use x::{Arguments, Display, Error, Formatter, Result, Restyle, Style, Write};
        fn displays<T: Display + ?Sized>() {}
        fn writes<T: Write + ?Sized>() {}
        fn debugs<T: core::fmt::Debug>() {}
        pub fn all<'a>() {
            displays::<&'a dyn Display>(); displays::<dyn Display>(); displays::<&&dyn Display>(); displays::<Arguments<'a>>(); displays::<&Arguments<'a>>();
            writes::<&'a mut dyn Write>(); writes::<dyn Write>(); writes::<&'a mut &'a mut dyn Write>(); writes::<Formatter<'a>>(); writes::<&'a mut Formatter<'a>>();
            fn cw<T: core::fmt::Write>() {} cw::<Formatter<'a>>();
            debugs::<Formatter<'a>>();
            let _: core::fmt::Error = Error;
            let _: core::fmt::Result = Result::Ok(());
        }
        fn methods(f: &mut Formatter<'_>, a: fn() -> Arguments<'static>, w: &mut dyn Write) -> Result {
            f.with(Style::default()).with(&[Style::default()][..]).write_str("x")?;
            { let g: Formatter<'_> = f.with(()); }
            f.write_fmt(a())?;
            Write::write_str(f, "x", Style::default())?;
            Write::write_char(f, 'x', Style::default())?;
            Write::write_fmt(f, a())?;
            core::fmt::Write::write_char(f, 'x')?;
            core::fmt::Write::write_fmt(f, core::format_args!("{}", 1))?;
            Display::fmt(&a(), f)?;
            w.write_str("x", Style::default())?;
            w.write_char('x', Style::default())?;
            w.write_fmt(a())
        }
        struct Mine;
        impl Write for Mine { fn write_str(&mut self, _: &str, _: Style) -> Result { Ok(()) } }
        impl Display for Mine { fn fmt(&self, f: &mut Formatter<'_>) -> Result { Err(Error) } }"""),
    (CORE, "macros", """
        use x::{Display, Write, Formatter, Result};
        pub fn all(w: &mut dyn Write, f: &mut Formatter<'_>, d: &dyn Display) -> Result {
            x::write!(w, "{:s}{d:(fg=red,bg=brightcyan,faint)s}{:>+#08.3?}{0:s}{:e}", d, 1.5, 2.5)?;
            x::writeln!(w)?;
            x::writeln!(f, "{x}{:(normal)}", 'c', x = "x")?;
            x::write!(f, concat!("{:x}", "{:o}"), 1, 2)?;
            Write::write_fmt(w, x::format_args!("{:p}{:b}{:X?}", &1, 1, "x"))
        }"""),
    (CORE, "alloc", """
        use x::{Display, String, Write};
        fn is<T: Clone + core::fmt::Debug + Default + Display + Write + Send + Sync + 'static>() {}
        pub fn all() {
            is::<String>();
            let _: fn() -> String = String::new;
            let _: fn(x::Arguments<'_>) -> String = x::format;
        }"""),
    (CORE, "alloc+macros", """
        use x::{Display, String, ToStylishString};
        fn converts<T: ToStylishString + ?Sized>() {}
        pub fn all(d: &dyn Display) -> (String, String) {
            converts::<String>(); converts::<dyn Display>(); converts::<x::Arguments<'_>>();
            (x::format!("{:s}", d), d.to_stylish_string())
        }"""),
    (CORE, "std", """
        extern crate std;
        use x::io::{Error, ErrorKind, Result, Write};
        fn writes<T: Write + ?Sized>() {}
        pub fn all<'a>(mut w: &'a mut dyn Write, a: x::Arguments<'_>) -> std::io::Result<()> {
            writes::<dyn Write>(); writes::<&'a mut dyn Write>(); writes::<&'a mut &'a mut dyn Write>();
            let _: std::io::Error = Error::from(ErrorKind::Other);
            let _: usize = w.write(b"x", x::Style::default())?;
            w.write_all(b"x", x::Style::default())?;
            (&mut w).by_ref().flush()?;
            w.write_fmt(a)
        }"""),
]


def adaptors():
    """the same for the backends, as the facade and as crates of their own offer them"""
    out = []
    for name, T, end in (("ansi", "Ansi", "finish"), ("html", "Html", "finish"), ("plain", "Plain", "into_inner")):
        ended = "core::result::Result<W, core::fmt::Error>" if end == "finish" else "W"
        for crates, path in ([""], f"x::{name}"), ([f"stylish-{name}"], "x"):
            core = "x" if crates == [""] else "stylish_core"
            def add(need, code):
                need = "+".join(n for n in ([name] if crates == [""] else []) + need if n)
                out.append((crates, need, code))
            if crates == [""]:
                add([], f"""
        use x::{{{T}, Write}};
        #[derive(Clone, Debug, Default)]
        pub struct W;
        impl core::fmt::Write for W {{ fn write_str(&mut self, _: &str) -> core::fmt::Result {{ Ok(()) }} }}
        fn is<T: Write + Clone + core::fmt::Debug + Default + Send + Sync + Unpin + 'static>() {{}}
        pub fn all(a: x::Arguments<'_>) {{
            is::<{T}<W>>();
            fn any<S: core::fmt::Write>(s: S) -> impl Write {{ x::{name}(s) }}
            let _: fn(W) -> {T}<W> = {T}::new;
            let _: fn(W) -> {T}<W> = x::{name};
            let _: fn(&mut {T}<W>, x::Arguments<'_>) -> x::Result = {T}::write_fmt;
            let _: fn({T}<W>) -> {ended} = {T}::{end};
            let mut v = 5; let _ = &mut v;
            let mut w = W; {{ let mut w = {T}::new(&mut w); w.write_str("x", x::Style::default()); let d: &mut dyn Write = &mut w; }}
        }}""")
                if name != "html":
                    io_ended = "std::io::Result<W>" if end == "finish" else "W"
                    add(["std"], f"""
        extern crate std;
        use std::vec::Vec;
        use x::io::{{{T}, Write}};
        type W = Vec<u8>;
        fn is<T: Write + Clone + core::fmt::Debug + Default + Send + Sync + Unpin + 'static>() {{}}
        pub fn all() {{
            is::<{T}<W>>();
            let _: fn(W) -> {T}<W> = {T}::new;
            let _: fn(W) -> {T}<W> = x::io::{name};
            let _: fn(&mut {T}<W>, x::Arguments<'_>) -> std::io::Result<()> = {T}::write_fmt;
            let _: fn({T}<W>) -> {io_ended} = {T}::{end};
            let _ = x::io::{name}(std::io::stdout());
            let _ = x::io::{name}(std::boxed::Box::new(std::io::sink()) as std::boxed::Box<dyn std::io::Write>);
            let mut v = Vec::new(); {{ let mut w = {T}::new(&mut v); let d: &mut dyn Write = &mut w; }}
        }}""")
            add(["alloc"], f"""
        extern crate alloc;
        pub fn all(a: x::Arguments<'_>) -> alloc::string::String {{ {path}::format(a) }}""" if crates == [""] else f"""
        extern crate alloc;
        pub use {path}::format;""")
            add(["alloc", "macros"], f"""
        extern crate alloc;
        use x::To{T}String;
        fn converts<T: To{T}String + ?Sized>() {{}}
        pub fn all(d: &str) -> alloc::string::String {{ {path}::format!("{{}}{{d:(fg=red)}}", 1) }}""")
    return out


def api(crate, eff=None):
    """a module for each part, with the features as conditions unless they are given"""
    mods = []
    for k, (crates, need, code) in enumerate(API + adaptors()):
        if crate not in crates:
            continue
        needs = [n for n in need.split("+") if n]
        if eff is not None and not set(needs) <= eff:
            continue
        cond = "".join(f'feature = "{n}", ' for n in needs) if eff is None else ""
        mods.append((f"#[cfg(all({cond}))]\n" if cond else "") + f"pub mod api_{k} {{\n    use super::x;{code}\n}}\n")
    return "\n".join(mods)


def effective(fs):
    return set(fs) | ({"alloc"} if "std" in fs else set())


def stub_code(crate, feats):
    eff = effective(feats)
    code = "#![no_std]\n#![allow(warnings)]\nextern crate alloc;\nuse %s as x;\n" % crate.replace("-", "_")
    for need, item in STUB_ITEMS[crate].items():
        if not need or set(need.split("+")) <= eff:
            code += item + "\n"
    return code + api(crate, eff)


def first_errors(err):
    lines = err.split("\n")
    out = []
    for i, l in enumerate(lines):
        if re.match(r"error(\[E\d+\])?:", l) and "could not compile" not in l and "aborting" not in l:
            at = next((x.strip() for x in lines[i + 1:i + 4] if "-->" in x), "")
            out.append(l + " " + at)
    return "; ".join(out[:4]) or err[-600:]


def infra(err):
    """not about the code: the tools did not work"""
    return re.search(r"No space left|failed to (acquire|open|write|create)|failed to select a version|no matching package|signal: 9|Cannot allocate", err) is not None


# values there are without the standard library, for each trait
CORE_VALUES = {
    "": ["0i32", "-42isize", "u128::MAX", "1.5f64", "-0.0f32", "1e21f64", "\"é✓🦀\"", "\"<&>\\u{1b}[0m\"", "'x'", "true", "&&7u8"],
    "?": ["-42isize", "0.1f32", "f64::NAN", "\"q\\\"\\n\\u{7f}\"", "[1u8, 20, 255]", "(1, 'c', \"t\")", "Some(Ok::<u8, ()>(9))", "None::<u8>", "0..10", "core::cell::Cell::new(3)"],
    "p": ["0x1234usize as *const u8", "core::ptr::null::<u64>()"],
    "e": ["1.5f64", "123456u64", "-0.00025f32"],
    "x": ["255u8", "-1i8", "i128::MIN"],
}
CORE_VALUES["E"] = CORE_VALUES["e"]
CORE_VALUES["x?"] = CORE_VALUES["X?"] = CORE_VALUES["?"]
for _t in "oXb":
    CORE_VALUES[_t] = CORE_VALUES["x"]


def extra(seed, n):
    """texts and sizes of the sources, and calls of the macros"""
    rng = random.Random(f"c20 {seed}")
    texts, numbers = engine.dictionary()
    new, fresh = engine.new_words()
    pick = new * 8 + rng.sample(texts, min(len(texts), 150))
    sizes = sorted({0, 1} | {m + d for m in [k for k in numbers if 0 < k <= 200_000] + [1 << b for b in range(6, 18)] for d in (-1, 0, 1)} | {m for m in fresh if m <= 200_000})
    code = "#![allow(warnings)]\nuse super::*;\npub const DICT: &[&str] = &[" + ", ".join(engine.rust_str(t) for t in pick) + "];\n"
    code += "pub const SIZES: &[usize] = &[" + ", ".join(map(str, sizes)) + "];\n"
    code += 'pub const LONG: &str = include_str!("long.txt");\n'
    calls = []
    for i in range(n):
        tr = c09.TRAITS[i % len(c09.TRAITS)]
        spec = c09.spec_of(rng, 0.2) + c09.attrs_of(rng, 0.5) + tr
        lit = engine.literal(rng, new, fresh, 200) if rng.random() < 0.4 else rng.choice(["", "|", "{{", "é"])
        form = rng.randrange(3)
        v = rng.choice(CORE_VALUES[tr])
        f = lit + "{" + rng.choice(["", "0", "v"][form:form + 1]) + ":" + spec + "}" + rng.choice(["", "}}", "\n"])
        macro = rng.choice(["write", "writeln"])
        calls.append((f"{macro} {i} of {spec}".replace("\t", " "), f"stylish::{macro}!(w, {engine.rust_str(f)}, {'v = ' if form == 2 else ''}{v}).unwrap();"))
    code += '#[cfg(feature = "macros")]\npub fn specs(w: &mut dyn SW) {\n' + "".join(f"f{i}(w);\n" for i in range(n)) + "}\n"
    code += "".join(f'#[cfg(feature = "macros")]\nfn f{i}(w: &mut dyn SW) {{ {c[1]} }}\n' for i, c in enumerate(calls))
    code += '#[cfg(feature = "macros")]\npub fn each(mut o: impl FnMut(&str, fn(&mut dyn SW))) {\n' + "".join(f"o({engine.rust_str(c[0])}, f{i});\n" for i, c in enumerate(calls)) + "}\n"
    return code


class Job:
    def __init__(self, kind, name, feats, crate=None):
        self.kind, self.name, self.feats, self.crate = kind, name, feats, crate
        self.error = None
        self.lines = None


def run(seed, thorough, known):
    t0 = time.time()
    base, docs = (seed * 7919) % 900_000, 60 if thorough else 12
    work = os.path.join(WORK, "c20")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    workers = 8
    more = extra(seed, 44 if not thorough else 220)
    slots = queue.Queue()
    for k in range(workers):
        d = os.path.join(work, f"w{k}")
        shutil.copytree(os.path.join(VERIF, "progs", "feat"), os.path.join(d, "probe"))
        with open(os.path.join(d, "probe", "Cargo.toml"), "w") as fh:
            fh.write(manifest_probe())
        with open(os.path.join(d, "probe", "api.rs"), "w") as fh:
            fh.write("#![allow(warnings)]\nuse stylish as x;\n" + api(""))
        with open(os.path.join(d, "probe", "extra.rs"), "w") as fh:
            fh.write(more)
        with open(os.path.join(d, "probe", "long.txt"), "w") as fh:
            fh.write(("0123456789abcdefghijklmnopqrstuvwxyz <&>\"' \n" * 5000)[:200_000])
        os.makedirs(os.path.join(d, "stub"))
        lock = os.path.join(REPO, "Cargo.lock")
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(d, "probe", "Cargo.lock"))
            shutil.copy(lock, os.path.join(d, "stub", "Cargo.lock"))
        t = os.path.join(TARGET, "feat", f"w{k}")
        fresh_target(t, d)
        slots.put((d, t))

    def job(j):
        d, t = slots.get()
        try:
            env = {"CARGO_TARGET_DIR": t, "RUSTFLAGS": "--cap-lints=allow"}
            if j.kind == "crate":
                with open(os.path.join(d, "stub", "Cargo.toml"), "w") as fh:
                    fh.write(manifest_stub(j.crate, j.feats))
                with open(os.path.join(d, "stub", "lib.rs"), "w") as fh:
                    fh.write(stub_code(j.crate, j.feats))
                rc, out, err = sh(["cargo", "check", "--offline", "-q"], os.path.join(d, "stub"), env, timeout=400)
            else:
                rc, out, err = sh(["cargo", "build", "--offline", "-q", "--bin", j.kind, "--features", ",".join(j.feats)], os.path.join(d, "probe"), env, timeout=400)
            if rc == -999 or (rc != 0 and infra(err)):
                raise Inconclusive(f"{j.name}: the build did not finish: {err[-500:]}")
            if rc != 0:
                j.error = first_errors(err)
                return
            if j.kind == "crate":
                return
            rc, out, err = sh([os.path.join(t, "debug", j.kind), str(base), str(docs)], d, timeout=60)
            lines = [l.split("\t", 1) for l in out.split("\n") if "\t" in l]
            got = {l[0]: l[1] for l in lines}
            if rc != 0 or "end" not in got or int(got["end"]) != len(lines) - 1:
                j.error = f"the program ended with {rc}: {out[-200:]} {err[-300:]}"
                return
            del got["end"]
            j.lines = got
        finally:
            slots.put((d, t))

    jobs = []
    for fs in subsets(FEATURES):
        jobs.append(Job("probe", "features [" + " ".join(fs) + "]", fs))
        if "std" not in fs:
            jobs.append(Job("bare", "features [" + " ".join(fs) + "] without the standard library" + ("" if "alloc" in fs else " and without an allocator"), fs))
    for c, (_, feats) in CRATES.items():
        for fs in subsets(feats):
            jobs.append(Job("crate", f"{c} with features [" + " ".join(fs) + "]", fs, c))
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(job, jobs))
    violations, counters, samples = [], {}, []
    full = next(j for j in jobs if j.kind == "probe" and set(j.feats) == set(FEATURES))
    compared = 0
    distinct = 0
    for j in jobs:
        if j.error:
            violations.append((f"{j.name}: {j.error}", f"features: {' '.join(j.feats)}\nkind: {j.kind} {j.crate or ''}\n"))
            continue
        if j.kind == "crate":
            counters["configurations of single crates"] = counters.get("configurations of single crates", 0) + 1
            distinct += 1
            continue
        counters["programs " + ("with" if j.kind == "probe" else "without") + " the standard library"] = counters.get("programs " + ("with" if j.kind == "probe" else "without") + " the standard library", 0) + 1
        if full.lines is None:
            continue
        bad = [k for k in j.lines if j.lines[k] != full.lines.get(k)]
        compared += len(j.lines)
        distinct += 1 if j.lines else 0
        if bad:
            k = bad[0]
            violations.append((f"{j.name}: {k} renders {j.lines[k]}, with all features it is {full.lines.get(k)} ({len(bad)} of {len(j.lines)} observations differ)", f"features: {' '.join(j.feats)}\nkind: {j.kind}\n"))
        # configurations that are offered the same items print the same observations
    by = {}
    for j in jobs:
        if j.lines is not None:
            by.setdefault(frozenset(effective(j.feats)), []).append(j)
    for eff, js in by.items():
        for j in js[1:]:
            if set(j.lines) != set(js[0].lines):
                violations.append((f"{j.name} offers other items than {js[0].name}", ""))
    if full.lines and not violations and len(set(full.lines.values())) < 100:
        raise Inconclusive("the probe observed too little")
    for j in jobs[:3] + jobs[-3:]:
        samples.append(f"{j.name}: " + ("built" if j.lines is None else f"{len(j.lines)} observations"))
    if full.lines:
        ks = sorted(full.lines)
        samples += [f"{k}: {full.lines[k]}"[:200] for k in ks[::max(1, len(ks) // 6)]]
    counters["observations compared"] = compared
    counters["observations with all features"] = len(full.lines or {})
    counters["distinct feature sets in effect"] = len(by)
    # findings: items that are documented and missing
    known_out = []
    for k in known:
        if k["property"] != "C20":
            continue
        d, t = slots.get()
        feats, expr = k["input"].split(": ", 1)
        p = os.path.join(d, "stub")
        with open(os.path.join(p, "Cargo.toml"), "w") as fh:
            fh.write(manifest_stub("stylish-core", []).split("[dependencies]")[0] + f"[dependencies]\nstylish = {{ path = \"{REPO}\", default-features = false, features = [{', '.join(chr(34) + f + chr(34) for f in feats.split())}] }}\n" + PROFILE)
        with open(os.path.join(p, "lib.rs"), "w") as fh:
            fh.write("#![allow(warnings)]\n" + expr + "\n")
        rc, out, err = sh(["cargo", "check", "--offline", "-q"], p, {"CARGO_TARGET_DIR": t, "RUSTFLAGS": "--cap-lints=allow"}, timeout=400)
        if rc != 0:
            known_out.append((k, first_errors(err)[:200]))
        slots.put((d, t))
    shutil.rmtree(work, ignore_errors=True)
    return dict(evaluations=len(jobs), distinct_nontrivial=distinct, counters=counters, samples=samples, violations=violations, known=known_out, exhaustive=["all 64 feature sets, all 32 of them without std as bare programs, all feature sets of the single crates"])
