"""Builds and runs generated Rust programs against /repo.

A program consists of cases, each a function of its own. Errors of the compiler
are traced back to the case whose lines they point at; such cases are taken out
and the rest is built again, until it builds. Outcomes of running the cases are
read from stdout, and a crash or hang is the fault of the case that had started.
"""
import json, os, re, shutil, subprocess, sys, time, hashlib, unicodedata
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SVH_REPO", "/repo")
WORK = os.environ.get("SVH_WORK", os.path.join(VERIF, ".work"))
TARGET = os.environ.get("SVH_TARGET", os.path.join(VERIF, "target"))
CRATES = ["stylish", "stylish-core", "stylish-style", "stylish-macros", "stylish-ansi", "stylish-html", "stylish-plain"]


class Inconclusive(Exception):
    pass


def sources():
    """what /repo's crates are made of, as a digest"""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith((".rs", ".toml", ".md", ".lock")) and os.path.isfile(p):
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read() + b"\0")
    return h.hexdigest()


LITERAL = re.compile(
    r"""//[^\n]*|/\*.*?\*/|b?r(#*)"(.*?)"\1|b?"((?:[^"\\]|\\.)*)"|b?'((?:[^'\\]|\\(?:u\{[0-9a-fA-F_]+\}|x..|.)))'|\b(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)""",
    re.S,
)


def unescape(s):
    def one(m):
        e = m[1]
        if e[0] == "x":
            return chr(int(e[1:], 16))
        if e[0] == "u":
            n = int(e[2:-1].replace("_", ""), 16)
            return chr(n) if n < 0x110000 and not 0xD800 <= n < 0xE000 else ""
        return {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\n": ""}.get(e[0], e[0])

    return re.sub(r"\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|\n\s*|.)", one, s, flags=re.S)


def dictionary():
    """texts and numbers that occur as literals in the sources of the crates: the
    generators weave them into their workloads, as fuzzers do. Code that treats some
    text or size of its own names it."""
    texts, numbers = set(), set()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "tests", "examples", "benches"))
        for f in sorted(files):
            if not f.endswith(".rs"):
                continue
            with open(os.path.join(root, f), encoding="utf-8", errors="replace") as fh:
                source = fh.read()
                numbers |= {1 << int(m[1]) for m in re.finditer(r"\b1 ?<< ?([0-9]{1,2})\b", source)}
                for m in LITERAL.finditer(source):
                    if m[5]:
                        try:
                            numbers.add(int(m[5].replace("_", ""), 0 if m[5][:2] in ("0x", "0b", "0o") else 10))
                        except ValueError:
                            pass
                        continue
                    t = m[2] if m[2] is not None else m[3] if m[3] is not None else m[4]
                    if t is not None:
                        t = t if m[2] is not None else unescape(t)
                        if 0 < len(t) <= 60:
                            texts.add(t)
    return sorted(texts), sorted(numbers)


def new_words():
    """texts and numbers of the dictionary that the tree this was written for does not have"""
    old = set(json.load(open(os.path.join(VERIF, "progs", "dictionary.json"))))
    texts, numbers = dictionary()
    return [t for t in texts if t not in old], [n for n in numbers if str(n) not in old]


KEYWORDS = set("as async await box break const continue crate do dyn else enum extern false fn for gen if impl in let loop macro match mod move mut pub ref return self Self static struct super trait true try type typeof union unsafe unsized use virtual where while yield abstract become final override priv".split())


def alike(rng, base, words=()):
    """identifiers made from one another: affixes, cases, digits, halves, doublings;
    and which were made from which"""
    affix = ["_"] * 12 + ["__", "___", "0", "1", "2", "s", "x", "r_", "raw", "arg", "_mut", "_ref", "un", "is_", "get_", "é", "i", "n"]
    affix += [w for w in words if re.fullmatch(r"\w{1,20}", w)] * 3
    out, pairs = [base], []
    for _ in range(40):
        if len(out) >= rng.choice([4, 6, 9]):
            break
        k, parent = rng.randrange(16), rng.choice(out)
        n = parent
        if k < 4:
            n = rng.choice(affix) + n
        elif k < 8:
            n = n + rng.choice(affix)
        elif k == 8:
            n = n.swapcase()
        elif k == 9:
            n = n.capitalize()
        elif k == 10:
            n = n + n
        elif k == 11:
            n = n[::-1]
        elif k == 12:
            n = n[: rng.randrange(1, len(n) + 1)]
        elif k == 13:
            a = rng.choice(["_", "__"])
            n = a + n + a
        elif k == 14:
            i = rng.randrange(len(n) + 1)
            n = n[:i] + rng.choice("_0aé") + n[i:]
        else:
            n = n.strip("_") or "a"
        n = unicodedata.normalize("NFC", n)
        if n.isidentifier() and n.strip("_") and n not in KEYWORDS and n not in out and len(n) < 90 and not re.fullmatch(r".*_q|log|out|c|rt|stylish|v\d+|At|Ctx|Log|NONE|Rec|Some|None|Ok|Err|u8|i8|bool|char|str|core|std|alloc", n):
            out.append(n)
            pairs.append((parent, n))
    return out, pairs


def literal(rng, words, numbers, most=3000):
    """a text to put between placeholders, its braces doubled: long ones and ones
    the sources name. Lengths are those around powers of two and numbers of the
    sources."""
    k = rng.randrange(4)
    if words and k:
        w = rng.choice(words)
        t = w if k == 1 else w * rng.choice([2, 3]) if k == 2 else rng.choice(["", "a", " ", "é"]) + w + rng.choice(["", "a", "\n"])
    else:
        t = text_of(rng, size(rng, numbers, most))
    return t.replace("{", "{{").replace("}", "}}")


def size(rng, numbers, most):
    few = [n for n in numbers if n <= most]
    n = rng.choice(few) if few and rng.random() < 0.5 else 1 << rng.randrange(most.bit_length())
    return max(0, min(most, n + rng.choice([-1, 0, 0, 1])))


def text_of(rng, n):
    a = rng.choice(["x", "ab ", "é", "<&>", "ab\n", "🦀", "0123456789", "{}"])
    return (a * n)[:n]


def dictionary_file():
    """the dictionary for the harness; what is not in the tree this was written for
    is tried much more often than what is"""
    texts, numbers = dictionary()
    known = os.path.join(VERIF, "progs", "dictionary.json")
    old = set(json.load(open(known)))
    p = os.path.join(WORK, "dictionary")
    os.makedirs(WORK, exist_ok=True)
    with open(p + f".{os.getpid()}", "w") as fh:
        for t in texts:
            fh.write(f"t {1 if t in old else 60} {t.encode('utf-8', 'ignore').hex()}\n")
        for n in numbers:
            fh.write(f"n {1 if str(n) in old else 60} {n}\n")
    os.replace(p + f".{os.getpid()}", p)
    return p


def fresh_target(target, cwd, env=None, toolchain=None):
    """a target directory in which nothing of /repo is older than its sources:
    cargo goes by time stamps, this goes by content"""
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, ".sources")
    now = sources()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old == now:
        return
    if old is not None or any(e for e in os.listdir(target) if e != ".sources"):
        for sub in ("debug", "release", "x86_64-unknown-linux-gnu", "miri", "thumbv7em-none-eabi"):
            p = os.path.join(target, sub)
            if os.path.isdir(p):
                # only what belongs to the crates of /repo and to what is built on them
                cargo_clean(p)
    with open(stamp, "w") as fh:
        fh.write(now)


def cargo_clean(d):
    for root, dirs, files in os.walk(d):
        if os.path.basename(root) == ".fingerprint":
            for x in list(dirs):
                if re.match(r"(lib)?(stylish|svh|rt|case|probe|stub)", x):
                    shutil.rmtree(os.path.join(root, x))
            dirs[:] = []


def run(cmd, cwd, env=None, timeout=600, **kw):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as t:
        return -999, (t.stdout or b"").decode("utf8", "replace"), (t.stderr or b"").decode("utf8", "replace")
    return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")


class Case:
    """code: the body of `fn(c: &mut rt::Ctx)`; what: shown with a violation"""

    def __init__(self, id, code, what, **meta):
        self.id, self.code, self.what, self.meta = id, code, what, meta
        self.errors = None
        self.fail = None
        self.passed = False
        self.events = self.comparisons = 0


HEAD = """#![allow(warnings)]
use rt::{At, Ctx, Log, NONE, Rec};
use stylish::Write as _;
use stylish::{ToAnsiString as _, ToHtmlString as _, ToPlainString as _, ToStylishString as _};
"""


CONFIGS = {"": "", "shipped": "without debug assertions", "expand": "cfg stylish_proc_macro_expand"}


class Program:
    def __init__(self, name, head=HEAD, kind="run", features=None, repo=None, config=""):
        self.config = config
        self.name, self.head, self.kind = name, head, kind
        self.dir = os.path.join(WORK, name)
        self.target = os.path.join(TARGET, "progs" + config)
        self.features = features
        self.builds = 0
        self.build_s = 0.0

    def setup(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(os.path.join(self.dir, "src", "bin"))
        os.makedirs(os.path.join(self.dir, "rt"))
        rt = os.path.join(VERIF, "progs", "rt", "lib.rs")
        shutil.copy(rt, os.path.join(self.dir, "rt", "lib.rs"))
        shutil.copy(os.path.join(VERIF, "progs", "rt", "model.rs"), os.path.join(self.dir, "rt", "model.rs"))
        with open(os.path.join(self.dir, "Cargo.toml"), "w") as fh:
            fh.write(f"""[package]
name = "cases"
version = "0.0.0"
edition = "2021"
[workspace]
[lib]
name = "rt"
path = "rt/lib.rs"
[dependencies]
stylish = {{ path = "{REPO}", features = ["ansi", "html", "plain", "std", "macros"] }}
[profile.dev]
debug = false
opt-level = 0
incremental = false
""" + ("""debug-assertions = false
overflow-checks = false
[profile.dev.build-override]
debug-assertions = false
overflow-checks = false
""" if self.config == "shipped" else ""))
        lock = os.path.join(REPO, "Cargo.lock")
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(self.dir, "Cargo.lock"))
        fresh_target(self.target, self.dir)

    def write_chunk(self, k, cases):
        lines = self.head.split("\n")
        where = []
        n = len(lines)
        out = [self.head.rstrip("\n")]
        n = self.head.rstrip("\n").count("\n") + 1
        table = []
        for i, c in enumerate(cases):
            body = f"fn case_{i}(c: &mut Ctx) {{\n{c.code}\n}}"
            out.append(body)
            a = n + 1
            n += body.count("\n") + 1
            where.append((a, n, c))
            table.append(f"({json_str(c.id)}, case_{i} as fn(&mut Ctx))")
        out.append("fn main() { rt::main(&[" + ",\n".join(table) + "]) }")
        path = os.path.join(self.dir, "src", "bin", f"case{k}.rs")
        text = "\n".join(out) + "\n"
        if not os.path.exists(path) or open(path).read() != text:
            with open(path, "w") as fh:
                fh.write(text)
        return where

    def build(self, chunks, check=False, rounds=16):
        """chunks: lists of cases. Cases that do not compile get their errors."""
        t0 = time.time()
        alive = {k: list(cs) for k, cs in enumerate(chunks)}
        free = len(chunks)
        for rnd in range(rounds):
            for f in os.listdir(os.path.join(self.dir, "src", "bin")):
                if int(f[4:-3]) not in alive:
                    os.remove(os.path.join(self.dir, "src", "bin", f))
            where = {k: self.write_chunk(k, cs) for k, cs in alive.items()}
            expand = self.config == "expand"
            cmd = ["cargo"] + (["+nightly"] if expand else []) + ["check" if check else "build", "--offline", "--bins", "--keep-going", "--message-format=json", "-q"]
            flags = "--cap-lints=allow" + (" --cfg stylish_proc_macro_expand" if expand else "")
            rc, out, err = run(cmd, self.dir, {"CARGO_TARGET_DIR": self.target, "RUSTFLAGS": flags}, timeout=800)
            self.builds += 1
            if rc == -999:
                raise Inconclusive("the compiler did not finish")
            if rc == 0:
                self.alive = alive
                self.build_s += time.time() - t0
                return
            found = False
            stray, lost = [], {}
            hit_in = set()
            for line in out.splitlines():
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"):
                    continue
                msg = m["message"]
                if msg["message"].startswith("aborting due to"):
                    continue
                hits = set()
                mm = re.match(r"case(\d+)$", m["target"]["name"])
                k = int(mm.group(1)) if mm else None
                if k is not None:
                    for ln in lines_of(msg, f"src/bin/case{k}.rs"):
                        for a, b, c in where[k]:
                            if a <= ln <= b:
                                hits.add(c)
                if hits:
                    found = True
                    hit_in.add(k)
                    for c in hits:
                        c.errors = (c.errors or []) + [f"{msg['message']}"]
                elif k is not None:
                    lost.setdefault(k, []).append(msg["message"])
                else:
                    stray.append(f"{m['target']['name']}: {msg.get('rendered') or msg['message']}")
            if stray:
                raise Inconclusive("errors outside of the generated programs:\n" + "\n".join(stray)[:3000])
            if not found and not lost:
                raise Inconclusive("the build failed without an error: " + err[-3000:])
            # errors that point nowhere: narrow down which case they belong to
            for k, msgs in lost.items():
                cs = [c for c in alive[k] if c.errors is None]
                if k in hit_in and len(cs) > 1:
                    continue
                if len(alive[k]) == 1:
                    alive[k][0].errors = msgs
                elif len(cs) >= 1:
                    del alive[k]
                    step = max(1, -(-len(cs) // 12))
                    for i in range(0, len(cs), step):
                        alive[free] = cs[i:i + step]
                        free += 1
            alive = {k: [c for c in cs if c.errors is None] for k, cs in alive.items()}
            alive = {k: cs for k, cs in alive.items() if cs}
        raise Inconclusive("the cases that compile could not be told from those that do not")

    def execute(self, timeout=120):
        def one(k):
            cs = self.alive[k]
            exe = os.path.join(self.target, "debug", f"case{k}")
            start = 0
            while start < len(cs):
                rc, out, err = run([exe, str(start)], self.dir, timeout=timeout)
                last, done = None, False
                for line in out.split("\n"):
                    p = line.split(" ", 3)
                    if p[0] == "start":
                        last = int(p[1])
                    elif p[0] == "pass":
                        ev = p[3].split(" ")
                        c = cs[int(p[1])]
                        c.passed, c.events, c.comparisons = True, int(ev[0]), int(ev[1])
                    elif p[0] == "fail":
                        cs[int(p[1])].fail = p[3] if len(p) > 3 else "failed"
                    elif p[0] == "done":
                        done = True
                if done and rc == 0:
                    return
                if last is None:
                    raise Inconclusive(f"case{k} did not start: {rc} {err[-500:]}")
                how = "did not come to an end" if rc == -999 else f"ended with status {rc}"
                cs[last].fail = f"the program {how} in this case: {err[-300:]}"
                cs[last].passed = False
                start = last + 1

        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, [k for k in self.alive if self.alive[k]]))

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def lines_of(msg, file):
    """lines of `file` an error is about, the calls of the macros it came out of included"""
    out = []

    def span(s):
        while s:
            if s["file_name"].endswith(file):
                out.append(s["line_start"])
            e = s.get("expansion")
            s = e["span"] if e else None

    prim = [s for s in msg["spans"] if s["is_primary"]]
    for s in prim or msg["spans"]:
        span(s)
    if not out:
        for s in msg["spans"]:
            span(s)
        for ch in msg.get("children", []):
            for s in ch["spans"]:
                span(s)
    return out


def json_str(s):
    return rust_str(s)


def rust_str(s):
    """a Rust string literal"""
    out = ['"']
    for ch in s:
        if ch in '"\\':
            out.append("\\" + ch)
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\r":
            out.append("\\r")
        elif ch == "\t":
            out.append("\\t")
        elif ord(ch) < 32 or ord(ch) == 127 or 0x80 <= ord(ch) < 0xA0 or ord(ch) in (0x200E, 0x200F, 0x202A, 0x202B, 0x202C, 0x202D, 0x202E, 0x2066, 0x2067, 0x2068, 0x2069, 0x2028, 0x2029, 0xFEFF):
            out.append("\\u{%x}" % ord(ch))
        else:
            out.append(ch)
    return "".join(out) + '"'


def chunked(cases, n):
    return [cases[i::n] for i in range(n) if cases[i::n]]


COLORS = ["black", "red", "green", "yellow", "blue", "magenta", "cyan", "white", "brightblack", "brightred", "brightgreen", "brightyellow", "brightblue", "brightmagenta", "brightcyan", "brightwhite", "default"]
INTENSITIES = ["normal", "bold", "faint"]


def at(a):
    """attributes as a Rust value of rt::At"""
    o = lambda x: "None" if x is None else f"Some({x})"
    return f"At({o(a[0])}, {o(a[1])}, {o(a[2])})"


def attr_list(rng, a, trailing=None):
    """an attribute list that names these attributes, in any order"""
    parts = []
    if a[0] is not None:
        parts.append("fg=" + COLORS[a[0]])
    if a[1] is not None:
        parts.append("bg=" + COLORS[a[1]])
    if a[2] is not None:
        parts.append(INTENSITIES[a[2]])
    rng.shuffle(parts)
    s = ",".join(parts)
    if parts and (trailing if trailing is not None else rng.random() < 0.2):
        s += ","
    return "(" + s + ")"
