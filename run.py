#!/usr/bin/env python3
"""run.py <property> [seed]: runs the check of one property against /repo.

Builds what it needs from /repo's working tree, runs it under its monitors,
writes evidence/<property>.json and prints
  VIOLATION property=<id> replay=<path>      exit 1
  KNOWN-FINDING: property=<id> <what fails>  exit 0
Exit 2: the check itself did not come to a verdict.
"""
import json, os, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "progs"))
import engine
from engine import Inconclusive, fresh_target, TARGET, REPO

HARNESS = os.path.join(VERIF, "harness")
NATIVE = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C22", "C23", "C24"]
PROGRAMS = {"C08": "c08", "C09": "c09", "C10": "c10", "C18": "c18"}
# how much more than the harness's own number of random cases a quick run takes
SCALE = {"C02": 8, "C03": 4, "C04": 4, "C05": 8, "C06": 4, "C07": 8, "C12": 3, "C13": 8, "C14": 25, "C15": 3, "C16": 2, "C17": 3, "C18": 3, "C19": 3, "C22": 6, "C23": 3, "C24": 3}
LEVEL = "exploration"
FAULTS = {"C13", "C14", "C15", "C16", "C23"}


def known_findings():
    out = []
    with open(os.path.join(VERIF, "known-findings.txt")) as fh:
        for l in fh:
            m = re.match(r"finding: property=(C\d+) (.*?) -- (.*)$", l.rstrip("\n"))
            if m:
                out.append(dict(property=m[1], input=m[2], what=m[3]))
    return out


class Result:
    def __init__(self):
        self.evaluations = self.distinct = 0
        self.rule = ""
        self.counters = {}
        self.samples = []
        self.violations = []  # (what, case, how to run it again)
        self.exhaustive = []
        self.known = []
        self.notes = []

    def add(self, other, prefix=""):
        self.evaluations += other.evaluations
        self.distinct += other.distinct
        if other.rule and other.rule not in self.rule:
            self.rule += ("; programs: " if self.rule else "") + other.rule
        for k, v in other.counters.items():
            self.counters[prefix + k] = v
        self.samples += [prefix + s for s in other.samples]
        self.violations += [(prefix + w, c, h) for w, c, h in other.violations]
        self.exhaustive += [x for x in other.exhaustive if x not in self.exhaustive]


def harness_build(target, cmd, env=None, timeout=800):
    fresh_target(target, HARNESS)
    e = {"CARGO_TARGET_DIR": target}
    e.update(env or {})
    rc, out, err = engine.run(cmd, HARNESS, e, timeout=timeout)
    if rc != 0:
        raise Inconclusive(f"the harness does not build ({' '.join(cmd)}): {err[-4000:]}")


def harness_run(prop, argv, env, out, timeout, watch, sanitizer=None):
    """one run of the harness; its report, or what a sanitizer has said"""
    if os.path.exists(out):
        os.remove(out)
    e = {"SVH_OUT": out, "SVH_WATCH_S": str(watch), "RUST_BACKTRACE": "0"}
    e.update(env)
    rc, so, se = engine.run(argv, HARNESS, e, timeout=timeout)
    r = Result()
    again = " ".join([f"{k}={v}" for k, v in e.items() if k not in ("SVH_OUT", "SVH_WATCH_S")] + argv)
    said = re.search(r"(ERROR: AddressSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|error: Undefined Behavior[^\n]*|error: (?:memory leaked|deadlock|data race)[^\n]*|ERROR: LeakSanitizer[^\n]*)", se + so)
    if said:
        where = "\n".join((se + so)[max(0, (se + so).find(said[1]) - 200):][:4000].splitlines())
        r.violations.append((f"{sanitizer}: {said[1]}", where, again))
        r.evaluations = 1
        return r
    if rc == -999:
        raise Inconclusive(f"no report after {timeout} s: {se[-500:]}")
    if os.path.exists(out):
        d = json.load(open(out))
        r.evaluations, r.distinct = d["evaluations"], d["distinct_nontrivial"]
        r.rule, r.counters, r.samples = d["rule"], d["counters"], d["samples"]
        r.counters.pop("violations", None)
        r.exhaustive = d["exhaustive_parts"]
        r.violations = [(v["what"], v["case"], again) for v in d["violations"]]
        if rc == 1 or r.violations:
            return r
        if rc != 0:
            raise Inconclusive(f"ended with {rc}: {se[-1500:]}")
        return r
    if rc in (-4, -6, -7, -8, -11):
        # stack overflow, abort, access outside of memory: in code without unsafe
        # blocks of its own the monitor has nothing that does this
        r.violations.append((f"the run was ended by signal {-rc}: {se[-300:]}", se[-3000:], again))
        r.evaluations = 1
        return r
    raise Inconclusive(f"ended with {rc} and without a report: {se[-1500:]}")


def native(prop, seed, thorough):
    """the harness, with the code under test built as for development and, at other
    random cases, as for release"""
    t = os.path.join(TARGET, "native")
    words = engine.dictionary_file()

    def one(release):
        target = t + "-release" if release else t
        harness_build(target, ["cargo", "build", "--offline", "-q"] + (["--release"] if release else []))
        env = {"VERIF_SEED": str(seed + (7000 if release else 0)), "VERIF_TIER": "thorough" if thorough else "quick"}
        scale = (1 if thorough else SCALE.get(prop, 1)) * (0.3 if release else 1)
        env["SVH_SCALE"] = str(round(scale, 3))
        env["SVH_DICT"] = words
        exe = os.path.join(target, "release" if release else "debug", "svh")
        out = os.path.join(engine.WORK, f"{prop}{'-release' if release else ''}.json")
        return harness_run(prop, [exe, prop], env, out, 840 if not thorough else 3000, 90)

    if prop not in NATIVE:
        return one(False)
    with ThreadPoolExecutor(2) as ex:
        dev, rel = ex.submit(one, False), ex.submit(one, True)
        failed = None
        res = Result()
        for f, name in (dev, ""), (rel, "built for release: "):
            try:
                res.add(f.result(), name)
            except Inconclusive as e:
                failed = failed or e
    if failed and not res.violations:
        raise failed
    return res


def probe(name, codes=None):
    """builds and runs progs/<name>: errors of the compiler in the probe itself (with
    one of these codes, if given) are violations, and so is ending with an error"""
    res = Result()
    src = os.path.join(VERIF, "progs", name)
    t = os.path.join(TARGET, name)
    fresh_target(t, src)
    rc, so, se = engine.run(["cargo", "build", "--offline", "--message-format=json", "-q"], src, {"CARGO_TARGET_DIR": t}, timeout=400)
    exe = os.path.join(t, "debug", "probe")
    if rc != 0:
        errors = []
        for l in so.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error" and m["target"]["name"] == "probe":
                errors.append(m["message"])
        bad = [m for m in errors if (m.get("code") or {}).get("code") is not None and (codes is None or m["code"]["code"] in codes)]
        if not bad:
            raise Inconclusive(f"the probe {name} does not build: {se[-3000:]}")
        res.violations.append((f"the probe {name} does not compile: {bad[0]['message']}", bad[0].get("rendered") or "", f"cd progs/{name} && CARGO_TARGET_DIR={t} cargo build --offline"))
        res.evaluations = 1
        return res, ""
    rc, so, se = engine.run([exe], src, timeout=60)
    if rc == -999:
        raise Inconclusive(f"the probe {name} does not end")
    if rc != 0:
        wrong = re.search(r"^WRONG .*$", so, re.M)
        res.violations.append((f"the probe {name} ends with {rc}: {(wrong[0] if wrong else se[-500:])}", so[-1000:] + se[-2000:], exe))
        res.evaluations = 1
    return res, so


def forwarding(seed, thorough):
    res, so = probe("forward")
    if res.violations:
        return res
    oks = [l for l in so.splitlines() if l.startswith("ok ")]
    if "done" not in so or len(oks) < 25:
        raise Inconclusive(f"the probe says {so[-500:]}")
    res.counters["facts about macros over other destinations"] = len(oks)
    res.evaluations += len(oks)
    res.distinct += len(oks)
    res.add(native("C22", seed, thorough))
    return res


def isolation(seed, thorough):
    # may they be shared and sent? A probe that has to compile.
    res, so = probe("threads", ("E0277", "E0310", "E0597", "E0521", "E0373"))
    facts = [l for l in so.splitlines() if l.startswith(("Send", "Sync"))]
    if res.violations:
        return res
    if "moved" not in so or len(facts) < 30:
        raise Inconclusive(f"the probe says {so[-500:]}")
    res.counters["types confirmed Send or Sync"] = len(facts)
    res.evaluations += len(facts)
    res.distinct += len(set(facts))
    tier = "thorough" if thorough else "quick"
    base = {"VERIF_SEED": str(seed), "VERIF_TIER": tier}
    triple = "x86_64-unknown-linux-gnu"

    def plain():
        return native("C21", seed, thorough)

    def asan():
        t = os.path.join(TARGET, "asan")
        flags = {"RUSTFLAGS": "-Zsanitizer=address"}
        harness_build(t, ["cargo", "+nightly", "build", "--offline", "-q", "--target", triple], flags)
        return harness_run("C21", [os.path.join(t, triple, "debug", "svh"), "C21"], dict(base, SVH_MODE="asan"), os.path.join(engine.WORK, "C21-asan.json"), 800 if not thorough else 3000, 200, "AddressSanitizer")

    def tsan():
        t = os.path.join(TARGET, "tsan")
        flags = {"RUSTFLAGS": "-Zsanitizer=thread"}
        harness_build(t, ["cargo", "+nightly", "build", "--offline", "-q", "--target", triple, "-Zbuild-std"], flags)
        return harness_run("C21", [os.path.join(t, triple, "debug", "svh"), "C21"], dict(base, SVH_MODE="tsan"), os.path.join(engine.WORK, "C21-tsan.json"), 800 if not thorough else 3000, 200, "ThreadSanitizer")

    def miri(k):
        def go():
            e = dict(base, SVH_MODE="miri", CARGO_TARGET_DIR=os.path.join(TARGET, "miri"), MIRIFLAGS=f"-Zmiri-disable-isolation -Zmiri-seed={seed * 100 + k}")
            e["VERIF_SEED"] = str(seed + 1000 * k)
            return harness_run("C21", ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--", "C21"], e, os.path.join(engine.WORK, f"C21-miri{k}.json"), 800 if not thorough else 3000, 600, "Miri")
        return go

    t = os.path.join(TARGET, "miri")
    fresh_target(t, HARNESS)
    names = ["", "AddressSanitizer: ", "ThreadSanitizer: "] + [f"Miri {k}: " if thorough else "Miri: " for k in range(6 if thorough else 1)]
    jobs = [plain, asan, tsan] + [miri(k) for k in range(6 if thorough else 1)]
    with ThreadPoolExecutor(10) as ex:
        futures = [ex.submit(j) for j in jobs]
        failed = None
        for n, f in zip(names, futures):
            try:
                res.add(f.result(), n)
            except Inconclusive as e:
                failed = failed or e
    if failed and not res.violations:
        raise failed
    return res


COSTS = ("instructions executed", "calls of the sink", "bytes that reach the sink", "bytes allocated")
# a difference smaller than this says nothing
NOTABLE = (100_000, 400, 4000, 16384)


def cost(seed, thorough):
    """every workload at n, 2n and 4n parts under valgrind, which counts what it executes"""
    t = os.path.join(TARGET, "native")
    harness_build(t, ["cargo", "build", "--offline", "-q"])
    exe = os.path.join(t, "debug", "svh")
    rc, so, se = engine.run([exe, "cost", "list"], HARNESS, {}, timeout=60)
    if rc != 0:
        raise Inconclusive(f"no list of workloads: {se[-500:]}")
    listed = [l.split("\t") for l in so.splitlines()]
    # seeds other than 1 take other sizes
    times = (1 + (seed - 1) % 7 / 8) * (6 if thorough else 1)
    valgrind = ["valgrind", "--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null"]
    enough = []

    def measured(name, w, n):
        if enough:
            return None
        out = []
        for k in (1, 2, 4):
            argv = valgrind + [exe, "cost", "run", name, w, str(k * n)]
            rc, so, se = engine.run(argv, HARNESS, {}, timeout=60)
            refs = re.search(r"I\s+refs:\s+([\d,]+)", se)
            said = re.match(r"calls=(\d+) bytes=(\d+) allocations=(\d+) allocated=(\d+)", so)
            if rc != 0 or not refs or not said:
                enough.append(name)
                return rc, k * n, se[-600:]
            c = [int(x) for x in said.groups()]
            out.append((int(refs[1].replace(",", "")), c[0], c[1], c[3]))
        return out

    res = Result()
    res.rule = "a workload (family and writer) that was run at n, 2n and 4n parts; each run counts its instructions, calls of the sink, bytes and allocations"
    todo = [(name, w, int(int(n) * times)) for name, w, n in listed]
    with ThreadPoolExecutor(8) as ex:
        got = list(ex.map(lambda j: measured(*j), todo))
    worst = [0.0] * len(COSTS)
    for i, ((name, w, n), g) in enumerate(zip(todo, got)):
        if g is None:
            continue
        again = " ".join(valgrind + [exe, "cost", "run", f"'{name}'", w, str(4 * n)])
        if isinstance(g, tuple):
            rc, size, said = g
            if rc == -999:
                res.violations.append((f"{name}, to {w}, with {size} parts does not end within 60 s", said, again))
            elif rc < 0 or rc in (3, 134, 139) or "overflow" in said:
                res.violations.append((f"{name}, to {w}, with {size} parts does not end well ({rc})", said, again))
            else:
                raise Inconclusive(f"{name}, to {w}, with {size} parts ended with {rc}: {said}")
            continue
        res.evaluations += 3
        res.distinct += 1
        case = f"{name}, to {w}, at {n}, {2 * n} and {4 * n} parts"
        a, b, c = g
        res.counters["instructions watched"] = res.counters.get("instructions watched", 0) + a[0] + b[0] + c[0]
        for k, what in enumerate(COSTS):
            d1, d2 = b[k] - a[k], c[k] - b[k]
            if d2 <= NOTABLE[k]:
                continue
            ratio = d2 / max(d1, 1)
            worst[k] = max(worst[k], ratio)
            if ratio > 2.6:
                res.violations.append((f"{case}: {what}: {a[k]}, {b[k]}, {c[k]}: the growth is {ratio:.2f} times as great at twice the parts", str(g), again))
        if len(res.samples) < 8 and i % 20 == 0:
            res.samples.append(f"{case}: {a[0]}, {b[0]}, {c[0]} instructions; {a[1]}, {b[1]}, {c[1]} calls of the sink")
    for what, r in zip(COSTS, worst):
        res.counters[f"steepest growth at twice the parts, per mille: {what}"] = int(r * 1000)
    return res


def programs(prop, seed, thorough):
    import importlib
    mod = importlib.import_module(PROGRAMS[prop])
    cs = mod.cases(seed, thorough)
    p = engine.Program(PROGRAMS[prop], mod.HEAD) if hasattr(mod, "HEAD") else engine.Program(PROGRAMS[prop])
    p.setup()
    n = 16 if len(cs) < 6000 else 32
    p.build(engine.chunked(cs, n))
    p.execute()
    # some of them as they are shipped, and with the macros as the compiler can expand
    # their formats by itself
    if all(c.passed or c.errors for c in cs):
        rng = __import__("random").Random(f"{prop} {seed} others")
        for config in ("shipped", "expand"):
            some = [engine.Case(c.id, c.code, f"{engine.CONFIGS[config]}: {c.what}", **c.meta) for c in rng.sample(cs, max(1, len(cs) // 4)) if c.passed]
            q = engine.Program(PROGRAMS[prop] + config, p.head, config=config)
            q.setup()
            try:
                q.build(engine.chunked(some, 8))
                q.execute()
            except Inconclusive as e:
                # an unstable configuration, which nobody promises
                if config != "expand":
                    raise
                print(f"note: not judged with {engine.CONFIGS[config]}: {str(e)[:300]}")
                some = []
            q.clean()
            cs = cs + some
    res = Result()
    res.rule, res.exhaustive = mod.RULE, list(mod.EXHAUSTIVE)
    again = f"python3 run.py {prop} {seed}"
    keys = set()
    rejected = 0
    for c in cs:
        if c.errors:
            rejected += 1
            if prop != "C09":
                res.violations.append((f"{c.what[:300]} does not compile: {'; '.join(c.errors)[:400]}", c.code, again))
                res.evaluations += 1
            continue
        res.evaluations += 1
        if c.meta.get("nontrivial"):
            keys.add(str(c.meta.get("key")))
        if not c.passed:
            res.violations.append((f"{c.what[:300]}: {(c.fail or 'no verdict')[:600]}", c.code, again))
    if not res.violations and rejected * 2 > len(cs):
        raise Inconclusive(f"{rejected} of {len(cs)} programs do not compile")
    res.distinct = len(keys)
    res.counters = {"comparisons with the reference": sum(c.comparisons for c in cs), "writes, evaluations and formattings recorded": sum(c.events for c in cs), "programs rejected by the macros": rejected, "runs of the compiler": p.builds}
    step = max(1, len(cs) // 8)
    res.samples = [f"{c.what[:200]}" for c in cs[::step] if c.passed][:8]
    p.clean()
    return res


def grammar(seed, thorough):
    import c11
    d = c11.run(seed, thorough, [k for k in known_findings()])
    return from_dict(d, "C11", seed, getattr(c11, "RULE", ""))


def features(seed, thorough):
    import c20
    d = c20.run(seed, thorough, known_findings())
    return from_dict(d, "C20", seed, c20.RULE)


def contexts(seed, thorough):
    import c26
    return from_dict(c26.run(seed, thorough, known_findings()), "C26", seed, c26.RULE)


def from_dict(d, prop, seed, rule):
    res = Result()
    res.evaluations, res.distinct = d["evaluations"], d["distinct_nontrivial"]
    res.rule = rule
    res.counters, res.samples = d["counters"], d["samples"]
    res.violations = [(w, c, f"python3 run.py {prop} {seed}") for w, c in d["violations"]]
    res.exhaustive = d.get("exhaustive", [])
    res.known = d["known"]
    return res


def main():
    prop = sys.argv[1]
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else int(os.environ.get("VERIF_SEED", "1"))
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    os.environ["VERIF_SEED"], os.environ["VERIF_TIER"] = str(seed), "thorough" if thorough else "quick"
    for d in ("evidence", "replays"):
        os.makedirs(os.path.join(VERIF, d), exist_ok=True)
    os.makedirs(engine.WORK, exist_ok=True)
    t0 = time.time()
    try:
        if prop == "C25":
            res = cost(seed, thorough)
        elif prop == "C22":
            res = forwarding(seed, thorough)
        elif prop in NATIVE and prop in PROGRAMS:
            # programs of their own can tell more where the harness does not build
            res, failed = Result(), None
            try:
                res = native(prop, seed, thorough)
            except Inconclusive as e:
                failed = e
            if not res.violations:
                res.add(programs(prop, seed, thorough), "programs: ")
            if failed and not res.violations:
                raise failed
        elif prop in NATIVE:
            res = native(prop, seed, thorough)
        elif prop == "C21":
            res = isolation(seed, thorough)
        elif prop in PROGRAMS:
            res = programs(prop, seed, thorough)
        elif prop == "C11":
            res = grammar(seed, thorough)
        elif prop == "C26":
            res = contexts(seed, thorough)
        elif prop == "C20":
            res = features(seed, thorough)
        else:
            print(f"no such property: {prop}")
            return 2
    except Inconclusive as e:
        print(f"INCONCLUSIVE property={prop}: {e}")
        return 2
    wall = time.time() - t0
    coverage = {"evaluations": res.evaluations, "distinct_nontrivial": res.distinct, "rule": res.rule or "see DESIGN.md", "samples": res.samples or ["none"], "observed": res.counters}
    if res.exhaustive:
        coverage["exhaustive_parts"] = res.exhaustive
    coverage["exhaustive"] = prop == "C20"
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "fault_enumeration" if prop in FAULTS else LEVEL, "coverage": coverage, "wall_s": round(wall, 2), "violations": len(res.violations)}
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=True)
        fh.write("\n")
    listed = [k for k in known_findings() if k["property"] == prop]
    for k, how in res.known:
        print(f"KNOWN-FINDING: property={prop} {k['input']}: {k['what']}")
    gone = [k["input"] for k in listed if k["input"] not in [x["input"] for x, _ in res.known]]
    for g in gone:
        print(f"note: listed as a finding but not seen in this run: {g}")
    print(f"{prop}: {res.evaluations} evaluations, {res.distinct} distinct and non-trivial, {len(res.violations)} violations, {wall:.1f} s")
    if not res.violations:
        return 0
    path = os.path.join("replays", f"{prop}-{seed}.txt")
    with open(os.path.join(VERIF, path), "w") as fh:
        for what, case, again in res.violations[:20]:
            fh.write(f"property: {prop}\nseed: {seed}\nwhat: {what}\nrun again: {again}\ncase:\n{case}\n\n")
    for what, _, _ in res.violations[:3]:
        print("  " + what.replace("\n", " ")[:500])
    print(f"VIOLATION property={prop} replay={path}")
    return 1


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.exit(code)
