"""The checks, one per property."""

import json, os, re, signal, subprocess, sys, time

import check
from check import HARNESS, REPO, SHARDS, TARGET, TRIPLE, VERIF, NoVerdict, Violation, base_env, build, cmd, limits, say

MIRI_ENV = {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-tree-borrows"}
ASAN_ENV = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=66:detect_leaks=0:allocator_may_return_null=0"}
TSAN_ENV = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1"}


class Check:
    def __init__(self, run, rule, needs=(), least=1000, assumptions=()):
        self.run, self.rule, self.needs, self.least = run, rule, needs, least
        self.assumptions = list(assumptions) + COMMON


COMMON = [
    "the compiler, the standard library and the static-automata, str-newtype and serde crates behave as documented",
    "only the executions listed under coverage were observed; nothing is claimed about the rest",
]


def known(pid):
    """Findings recorded in known_findings.txt that are not repaired."""
    out = []
    for l in open(os.path.join(VERIF, "known_findings.txt"), encoding="utf-8"):
        m = re.match(r"known: property=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            out.append(m.group(2))
    return out


# ---------------------------------------------------------------- in-process monitors


def inproc(wall=420, fuzz=True, longs=800):
    def f(run):
        b, plain = build("full", "plain")
        run.monitor(b, "workload", wall=wall if run.thorough else 150, longs=longs)
        # A share of it without debug assertions, as users build the library.
        run.monitor(plain, "release", share=0.25, wall=wall / 4 if run.thorough else 60, longs=longs // 4)
        if run.thorough and fuzz:
            guided(run, 150)

    return f


def guided(run, secs):
    """Coverage-guided search for a case the same oracle rejects (libFuzzer)."""
    e = base_env()
    t = os.path.join(TARGET, "fuzz")
    e["CARGO_TARGET_DIR"] = t
    code, out = cmd(
        ["cargo", "+nightly", "fuzz", "build", "--fuzz-dir", os.path.join(VERIF, "fuzz"), "-s", "address", "--release", "any"],
        cwd=os.path.join(VERIF, "fuzz"), env=e, timeout=600)
    if code != 0:
        raise NoVerdict("fuzz build failed: " + out[-3000:])
    b = os.path.join(t, TRIPLE, "release", "any")
    corpus, art = run.path("corpus"), run.path("artifacts")
    os.makedirs(corpus)
    os.makedirs(art)
    full = os.path.join(TARGET, "full", "release", "monitor")
    cmd([full, "seeds", run.id, "--seed", str(run.seed), "--dict", run.dict, "--out", corpus, "--count", "400"], timeout=120)
    words = run.path("fuzz.dict")
    with open(words, "w") as f:
        for l in open(run.dict):
            if l.startswith("w "):
                x = l[2:].strip()
                f.write('"%s"\n' % "".join("\\x" + x[i:i + 2] for i in range(0, len(x), 2)))
    e = base_env()
    e.update(MONITOR=run.id, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0")
    procs = []
    for i in range(SHARDS):
        a = [b, corpus, "-seed=%d" % (run.seed * 100 + i + 1), "-max_total_time=%d" % secs, "-timeout=60", "-rss_limit_mb=3000",
             "-max_len=%d" % (700 if i % 2 else 150), "-artifact_prefix=%s/%d-" % (art, i), "-print_final_stats=1", "-dict=" + words]
        err = open(run.path("fuzz.%d.err" % i), "wb")
        procs.append((i, a, subprocess.Popen(a, cwd=HARNESS, env=e, stdin=subprocess.DEVNULL, stdout=err, stderr=err, preexec_fn=limits(0))))
        err.close()
    end = time.time() + secs + 200
    for _, _, p in procs:
        try:
            p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            run.notes.append("a guided worker was stopped late")
    ev = cov = 0
    for i, a, p in procs:
        err = open(run.path("fuzz.%d.err" % i), "rb").read().decode("utf-8", "replace")
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", err)
        ev += int(m.group(1)) if m else 0
        for m in re.finditer(r"cov: (\d+)", err):
            cov = max(cov, int(m.group(1)))
    for f in sorted(os.listdir(art)):
        if "slow-unit" in f or "oom" in f:
            run.notes.append("guided search set aside " + f)
            continue
        # The artifact is judged again, outside the fuzzer.
        case = run.path("fuzz.case")
        code, out = cmd([full, "unfuzz", run.id, os.path.join(art, f)], timeout=60)
        if code != 0:
            raise NoVerdict("cannot read fuzz artifact: " + out)
        open(case, "w").write(out)
        code, again = cmd([full, "replay", run.id, case], cwd=HARNESS, timeout=300, mem_gb=8)
        err = open(run.path("fuzz.%s.err" % f.split("-")[0]), "rb").read().decode("utf-8", "replace")
        if code == 1 or code == 87 or code in (-11, -7, -4, -6) or "ERROR: AddressSanitizer" in err:
            report = "".join("# | %s\n" % l for l in err[-4000:].splitlines())
            raise Violation(again[-1500:], "# property %s, found by coverage-guided search\n# replay: ./check.py replay %s THIS-FILE\n%s%s" % (run.id, run.id, out, report))
        run.notes.append("guided search stopped on %s, which does not fail again (exit %s): %s" % (f, code, err[-300:]))
    new = len(os.listdir(corpus))
    say("guided: %d executions, %d corpus entries, %d edges" % (ev, new, cov))
    run.add("guided", ev, new, {"guided executions": ev}, edges_covered=cov)


def miri(run, part, count, max_len=48, wall=400):
    """The same workload, a small piece of it, in the interpreter that detects undefined behaviour."""
    e = base_env()
    e.update(MIRI_ENV)
    a = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--no-default-features", "--features", "std", "--target-dir", os.path.join(TARGET, "miri"), "--bin", "monitor", "--"]
    code, out = cmd(a + ["list"], cwd=HARNESS, env=e, timeout=600)
    if code != 0 or run.id not in out:
        if "Undefined Behavior" in out:
            raise NoVerdict("Miri objects to the harness: " + out[-3000:])
        raise NoVerdict("Miri build failed: " + out[-3000:])
    say("built for Miri")
    run.monitor(a[0], part, count=count, sys_cases=False, max_len=max_len, env=MIRI_ENV, mem_gb=0, prefix=a, wall=wall)


def c11(run):
    full, plain, unopt, asan = build("full", "plain", "unopt", "asan")
    run.monitor(full, "workload", wall=150, longs=800)
    run.monitor(plain, "release", share=0.25, wall=60, longs=160)
    # Unoptimised, on the stack a thread has by default: no loop made of the recursion in the source.
    run.monitor(unopt, "unoptimised, 2 MB of stack", count=300_000 if run.thorough else 24_000, sys_cases=False, wall=60, longs=800, stack_kb=2048)
    run.monitor(asan, "AddressSanitizer", count=700_000 if run.thorough else 40_000, sys_cases=run.thorough, env=ASAN_ENV, mem_gb=0, wall=100, longs=160)
    miri(run, "Miri", 1800 if run.thorough else 240, wall=200)
    if run.thorough:
        guided(run, 60)


def c21(run):
    full, plain, tsan = build("full", "plain", "tsan")
    orders(run, full)
    run.monitor(full, "workload", wall=150 if run.thorough else 100, longs=24)
    run.monitor(plain, "release", share=0.25, wall=60 if run.thorough else 40)
    run.monitor(tsan, "ThreadSanitizer", count=120_000 if run.thorough else 6_000, env=TSAN_ENV, mem_gb=0, wall=150 if run.thorough else 90, max_len=256)
    miri(run, "Miri", 48 if run.thorough else 16, max_len=32, wall=300)


def orders(run, full):
    """Answers to the same cases in processes with other histories: taken in order, from the last
    to the first, and each by a process that has asked nothing before."""
    counts = {"forward": 240_000, "backward": 240_000, "alone": 64_000}
    if run.thorough:
        counts = {k: v * 5 for k, v in counts.items()}
    logs = {}
    events = 0
    for order, count in counts.items():
        procs = []
        for i in range(SHARDS):
            path = run.path("%s.%d" % (order, i))
            a = [full, "digest", "--order", order, "--seed", str(run.seed), "--shard", str(i), "--shards", str(SHARDS), "--count", str(count), "--dict", run.dict,
                 "--max-len", "600", "--out", path, "--case-file", path + ".case"]
            log = open(path + ".log", "wb")
            procs.append((i, path, a, subprocess.Popen(a, cwd=HARNESS, env=base_env(), stdin=subprocess.DEVNULL, stdout=log, stderr=log, preexec_fn=limits(8))))
            log.close()
        for i, path, a, p in procs:
            try:
                code = p.wait(timeout=700)
            except subprocess.TimeoutExpired:
                for _, _, _, q in procs:
                    if q.poll() is None:
                        os.killpg(q.pid, signal.SIGKILL)
                raise NoVerdict("histories (%s) did not end in time" % order)
            out = open(path + ".log", errors="replace").read()
            if code != 0:
                case = run.decode(path + ".case")
                if case and (code == 87 or -code in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGABRT)):
                    f = run.path("died.case")
                    open(f, "w").write(case)
                    again, _ = cmd(a, cwd=HARNESS, timeout=700, mem_gb=8)
                    single, _ = cmd([full, "replay", run.id, f], cwd=HARNESS, timeout=300, mem_gb=8)
                    if again == code and single == 0:
                        raise Violation("asked after other texts, the process ends (%s); asked alone, it does not: %s" % (code, case.splitlines()[-1]),
                                        "# property C21\n# only after the cases before it in: %s\n%s" % (" ".join(a), case))
                raise NoVerdict("histories (%s): exit %s: %s" % (order, code, out[-2000:]))
            events += int(out.split()[0])
            logs[order, i] = open(path, "rb").read()
    compared = 0
    for i in range(SHARDS):
        x = logs["forward", i]
        for order in ("backward", "alone"):
            y = logs[order, i]
            n = min(len(x), len(y))
            compared += n // 24
            if x[:n] == y[:n]:
                continue
            k = next(k for k in range(0, n, 24) if x[k:k + 24] != y[k:k + 24]) // 24
            index = i + k * SHARDS
            _, case = cmd([full, "digest-case", "--seed", str(run.seed), "--max-len", "600", "--dict", run.dict, "--index", str(index)], cwd=HARNESS)
            raise Violation(
                "answers differ between the cases taken in order and %s: %s" % ("each alone in a process" if order == "alone" else "from the last to the first", case.splitlines()[-1] if case else index),
                "# property C21: answers depend on what was asked before\n# compare the answers of monitor digest --seed %d --count %d --order forward and --order %s, case %d\n%s" % (run.seed, counts["alone"], order, index, case))
    say("histories: %d digests compared" % compared)
    run.add("other histories", compared, 0, {"answers compared between histories": compared, "answers recorded": events})


# ---------------------------------------------------------------- C17

FEATURES = {"none": [], "std": ["std"], "serde": ["serde"], "full": ["std", "serde"]}
GROUPS = ["operations always available", "operations of the standard library", "operations of serde"]


def c17(run):
    lib = os.path.join(TARGET, "lib")

    def compile_lib(args, toolchain=(), manifest=os.path.join(REPO, "Cargo.toml")):
        e = base_env()
        return cmd(["cargo"] + list(toolchain) + ["build", "--offline", "--quiet", "--lib", "--manifest-path", manifest, "--target-dir", lib] + args, env=e, timeout=600)

    code, out = compile_lib(["--all-features"])
    if code != 0:
        raise NoVerdict("the library does not build with all features: " + out[-3000:])
    built = 1
    for name, fs in FEATURES.items():
        a = ["--no-default-features"] + (["--features", ",".join(fs)] if fs else [])
        code, out = compile_lib(a)
        if code != 0:
            raise Violation("the library does not build with features {%s}" % ",".join(fs), "# property C17\ncargo build --lib %s in /repo fails:\n%s" % (" ".join(a), out[-6000:]))
        built += 1
    # Without a standard library at all: a target that has none. First as the manifest says, then
    # with the dependencies' standard-library features off, so that they do not hide the library.
    bare = ["--target", "x86_64-unknown-none", "-Zbuild-std=core,alloc"]
    for fs in ([], ["serde"]):
        a = ["--no-default-features", "--features", ",".join(fs)] + bare
        code, out = compile_lib(a + ["--keep-going"], toolchain=["+nightly"])
        if code != 0:
            sites = sorted(set(re.findall(r"could not compile `([\w-]+)`", out)))
            listed = {k.split()[0]: k for k in known("C17")}
            if not sites or "can't find crate for `std`" not in out or any("site=" + s not in listed for s in sites):
                raise Violation("the library does not build for a target without the standard library (features {%s})" % ",".join(fs),
                                "# property C17\ncargo +nightly build --lib %s in /repo fails:\n%s" % (" ".join(a), out[-6000:]))
            run.found += [listed["site=" + s] for s in sites if listed["site=" + s] not in run.found]
        built += 1
    d = run.path("bare")
    os.makedirs(d)
    m = open(os.path.join(REPO, "Cargo.toml")).read()
    m = re.sub(r"(?m)^(str-newtype|serde|thiserror)\s*=\s*\"([^\"]*)\"", r'\1 = { version = "\2", default-features = false }', m)
    m = re.sub(r"(?m)^(str-newtype|serde|thiserror)\s*=\s*\{(?!.*default-features)", r"\1 = { default-features = false,", m)
    m = re.sub(r"(?m)^\[lib\]", '[lib]\npath = "%s/src/lib.rs"' % REPO, m)
    if "[lib]" not in m:
        m += '\n[lib]\npath = "%s/src/lib.rs"\n' % REPO
    open(os.path.join(d, "Cargo.toml"), "w").write(m + "\n[workspace]\n")
    open(os.path.join(d, "Cargo.lock"), "w").write(open(os.path.join(HARNESS, "Cargo.lock")).read())
    for fs in ([], ["serde"]):
        a = ["--no-default-features", "--features", ",".join(fs)] + bare
        code, out = compile_lib(a, toolchain=["+nightly"], manifest=os.path.join(d, "Cargo.toml"))
        if code != 0:
            if "could not compile `langtag`" not in out:
                raise NoVerdict("the dependencies do not build without the standard library: " + out[-3000:])
            raise Violation("the library itself needs the standard library (features {%s})" % ",".join(fs),
                            "# property C17\ncargo +nightly build --lib %s, with default-features = false for the dependencies, fails:\n%s" % (" ".join(a), out[-6000:]))
        built += 1
    say("%d configurations of the library build" % built)
    names = list(FEATURES)
    bins = dict(zip(names, build(*names)))
    count = 4_000_000 if run.thorough else 160_000
    # Two combinations at a time per shard, eight processes in flight.
    jobs = [(n, i) for i in range(SHARDS) for n in names]
    live, done, events = [], {}, 0

    def collect(j):
        nonlocal events
        (n, i), a, p, path, log = j
        try:
            code = p.wait(timeout=700)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            raise NoVerdict("digest workload did not end in time")
        out = open(log).read()
        if code != 0:
            done[n, i] = None
            run.died_codes = getattr(run, "died_codes", {})
            run.died_codes[n, i] = (code, out, path + ".case")
            return
        events += int(out.split()[0])
        done[n, i] = open(path, "rb").read()

    for n, i in jobs:
        if len(live) >= SHARDS:
            collect(live.pop(0))
        path, log = run.path("%s.%d" % (n, i)), run.path("%s.%d.log" % (n, i))
        a = [bins[n], "digest", "--seed", str(run.seed), "--shard", str(i), "--shards", str(SHARDS), "--count", str(count), "--dict", run.dict, "--out", path, "--case-file", path + ".case"]
        with open(log, "wb") as f:
            live.append(((n, i), a, subprocess.Popen(a, cwd=HARNESS, env=base_env(), stdin=subprocess.DEVNULL, stdout=f, stderr=f, preexec_fn=limits(8)), path, log))
    for j in live:
        collect(j)
    died = getattr(run, "died_codes", {})
    if died:
        # Dying in some builds but not in others is a difference; dying in all is not.
        for i in range(SHARDS):
            bad = [n for n in names if done[n, i] is None]
            if bad and len(bad) < len(names) and all(died[n, i][0] in (87, -11, -7, -4, -6) for n in bad):
                case = run.decode(died[bad[0], i][2])
                raise Violation("with features {%s} the workload ends in exit %s, with others it does not: %s" % (",".join(FEATURES[bad[0]]), died[bad[0], i][0], case),
                                "# property C17\n" + case)
        raise NoVerdict("digest workload failed: %s" % list(died.values())[0][1][-2000:])
    compared = 0
    seen = set()
    for i in range(SHARDS):
        ref = done["full", i]
        for n in names:
            got = done[n, i]
            if len(got) != len(ref):
                raise NoVerdict("digest files differ in length")
            for g in range(3):
                if g == 1 and "std" not in FEATURES[n] or g == 2 and "serde" not in FEATURES[n]:
                    continue
                if n != "full":
                    compared += len(ref) // 24
        # Whole files first: group digests of an absent group are 0, so compare by group.
        for n in ("none", "std", "serde"):
            got = done[n, i]
            for k in range(0, len(ref), 24):
                for g in range(3):
                    if g == 1 and n != "std" or g == 2 and n != "serde":
                        continue
                    x, y = got[k + 8 * g:k + 8 * g + 8], ref[k + 8 * g:k + 8 * g + 8]
                    if x != y:
                        index = i + (k // 24) * SHARDS
                        _, case = cmd([bins["full"], "digest-case", "--seed", str(run.seed), "--dict", run.dict, "--index", str(index)], cwd=HARNESS)
                        raise Violation(
                            "answers with features {%s} differ from those with all features (%s): %s" % (",".join(FEATURES[n]), GROUPS[g], case.splitlines()[-1] if case else index),
                            "# property C17, %s, features {%s} against all features\n%s" % (GROUPS[g], ",".join(FEATURES[n]), case))
        seen.update(ref[k:k + 8] for k in range(0, len(ref), 24))
    samples = []
    for k in (0, 1, 2, 10, 100):
        _, case = cmd([bins["full"], "digest-case", "--seed", str(run.seed), "--dict", run.dict, "--index", str(k)], cwd=HARNESS)
        samples.append(case.splitlines()[-1])
    say("%d digests compared, %d answers behind them" % (compared, events))
    run.add("combinations", compared, len(seen), {"configurations built": built, "digests compared": compared, "answers behind the digests": events}, samples)


# ---------------------------------------------------------------- C18

TYPES = ["LangTag", "NormalLangTag", "PrivateUse", "PrivateUseSubtag", "Language", "PrimaryLanguage", "LanguageExtension", "ExtendedLangTag",
         "Script", "Region", "Variant", "Variants", "Extension", "ExtensionSubtag", "Extensions"]


def rust_str(b):
    return '"%s"' % "".join(chr(c) if chr(c).isalnum() and c < 128 or chr(c) == "-" else "\\u{%x}" % c for c in map(ord, b.decode()))


def spelled(b, i):
    """The same literal, written in another way."""
    t = b.decode()
    plain = all(" " <= c <= "~" and c not in '"\\#' for c in t)
    if i % 4 == 0 and plain:
        return 'r"%s"' % t
    if i % 4 == 1 and plain:
        return 'r#"%s"#' % t
    if i % 4 == 2:
        # A line that goes on in the next one, and escapes here and there.
        k = len(t) // 2
        return '"%s\\\n   %s"' % tuple("".join("\\x%02x" % ord(c) if j % 3 == 1 and c < "\x7f" else rust_str(c.encode())[1:-1] for j, c in enumerate(h)) for h in (t[:k], t[k:]))
    return '"%s"' % "".join("\\u{%x}" % ord(c) if j % 2 == i // 4 % 2 or not (c.isalnum() and c < "\x7f") and c != "-" else c for j, c in enumerate(t))


def rust_bytes(b):
    return 'b"%s"' % "".join(chr(c) if chr(c).isalnum() and c < 128 or c == 45 else "\\x%02x" % c for c in b)


def spans(d, out):
    """All places named by a diagnostic, through macro expansions and children."""
    for s in d.get("spans") or []:
        t = s
        while t:
            out.append((t["file_name"], t["line_start"], t["line_end"]))
            t = (t.get("expansion") or {}).get("span")
    for c in d.get("children") or []:
        spans(c, out)
    return out


def crate(run, name, body, bin, deps='langtag = { path = "%s" }' % REPO, edition="2024"):
    """Write a crate that depends on the library; build it; return code, error lines, raw output."""
    d = run.path(name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "%s"\nversion = "0.0.0"\nedition = "%s"\n[workspace]\n[dependencies]\n%s\n[profile.dev]\ndebug = 0\n' % (name, edition, deps))
    lock = os.path.join(HARNESS, "Cargo.lock")
    # The versions of the harness; cargo drops what this crate does not need.
    t = open(lock).read()
    open(os.path.join(d, "Cargo.lock"), "w").write(t)
    main = os.path.join(d, "src", "main.rs" if bin else "lib.rs")
    with open(main, "w") as f:
        f.write(body)
    code, out = cmd(["cargo", "build", "--offline", "--message-format=json", "--target-dir", os.path.join(TARGET, "ct")], cwd=d, timeout=600, merge=False)
    errors = {}
    rendered = []
    foreign = False
    for l in out.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"].get("level") != "error":
            continue
        msg = m["message"]
        if m.get("target", {}).get("name") != name:
            foreign = True
        rendered.append(msg.get("rendered") or msg.get("message", ""))
        for f, a, b in spans(msg, []):
            if f.endswith(("src/main.rs", "src/lib.rs")) and not f.startswith(REPO):
                for k in range(a, b + 1):
                    errors.setdefault(k, msg.get("message", ""))
    return code, errors, rendered, foreign


def c14(run):
    """As in process; a value that no longer serializes at all keeps the monitor from compiling."""
    try:
        inproc()(run)
    except NoVerdict as e:
        if "failed:" not in str(e):
            raise
        L = ["use langtag::*;", "pub fn s<T: serde::Serialize + ?Sized>() {}", "pub fn d<'a, T: serde::Deserialize<'a>>() {}", "pub fn uses<'a>() {"]
        at = {}
        for T in TYPES[:15]:
            for c in ("s::<%s>();" % T, "d::<&'a %s>();" % T, "s::<%sBuf>();" % T, "d::<%sBuf>();" % T):
                L.append(c)
                at[len(L)] = (T + "Buf" if "Buf" in c else T, "serialized" if c[0] == "s" else "deserialized")
        deps = 'langtag = { path = "%s", features = ["std", "serde"] }\nserde = "1"' % REPO
        code, errors, rendered, foreign = crate(run, "serializes", "\n".join(L) + "\n}\n", False, deps)
        hit = sorted(k for k in errors if k in at)
        if code == 0 or not hit or foreign:
            raise
        raise Violation("a %s cannot be %s" % at[hit[0]], "# property C14: with the serde feature, this does not compile:\n%s\n%s" % (L[hit[0] - 1], rendered[0]))


def c18(run):
    (full,) = build("full")
    code, out = cmd([full, "literals", "--seed", str(run.seed), "--dict", run.dict, "--count", str(4000 if run.thorough else 500)], cwd=HARNESS, timeout=120)
    if code != 0:
        raise NoVerdict("cannot generate literals: " + out)
    valid, invalid, typed = [], [], []
    for l in out.splitlines():
        f = l.split(" ")
        p, ok, t = int(f[0]), f[1] == "1", bytes.fromhex(f[2])
        if p == 0:
            (valid if ok else invalid).append(t)
        if p < 15:
            typed.append((p, ok, t))
    if not valid:
        raise NoVerdict("no text parses as a language tag at run time")
    if not invalid:
        raise NoVerdict("every text parses as a language tag at run time")

    # Accepted literals: constants, statics and plain expressions compile and hold the text.
    L = ["#![allow(long_running_const_eval, dead_code)]", "use langtag::*;", "use std::hint::black_box;"]
    at = {}

    def line(s, what=None):
        L.append(s)
        if what:
            at[len(L)] = what

    for i, t in enumerate(valid):
        s = rust_str(t)
        line("const C%d: &LangTag = langtag!(%s);" % (i, s), ("constant", t))
        w = spelled(t, i)
        if "\n" in w:
            # One line of the crate for each place.
            L.append("static S%d: &LangTag = langtag!(%s" % (i, w.split("\n")[0]))
            at[len(L)] = ("static, spelled otherwise,", t)
            line(w.split("\n")[1] + ");", ("static, spelled otherwise,", t))
        else:
            line("static S%d: &LangTag = langtag!(%s);" % (i, w), ("static, spelled otherwise,", t))
        line("#[inline(never)] fn f%d() -> &'static LangTag { let v = langtag!(%s); v }" % (i, s), ("expression", t))
        # Other places: a module that imports nothing, a constant function, an array, a generic function, an argument.
        line("mod m%d { %s }" % (i, [
            "pub const K: &::langtag::LangTag = ::langtag::langtag!(%s);",
            "pub const fn f() -> &'static ::langtag::LangTag { ::langtag::langtag!(%s) } pub const K: &::langtag::LangTag = f();",
            "pub const A: [&::langtag::LangTag; 1] = [::langtag::langtag!(%s)]; pub const K: &::langtag::LangTag = A[0];",
            "pub const fn f<T>() -> &'static ::langtag::LangTag { ::langtag::langtag!(%s) } pub const K: &::langtag::LangTag = f::<u8>();",
            "pub const fn f(t: &'static ::langtag::LangTag) -> &'static ::langtag::LangTag { t } pub const K: &::langtag::LangTag = f(::langtag::langtag!(%s));",
            "macro_rules! tag { ($t:literal) => { ::langtag::langtag!($t) } } pub const K: &::langtag::LangTag = tag!(%s);",
        ][i % 6] % s), ("in another place", t))
    for i, (p, ok, t) in enumerate(typed):
        T, s, b = TYPES[p], rust_str(t), rust_bytes(t)
        what = (TYPES[p] + " at compile time", t)
        line("const V%d: [bool; 4] = [%s::validate_str(%s), %s::validate_bytes(%s), %s::from_str(%s).is_ok(), %s::from_bytes(%s).is_ok()];" % (i, T, s, T, b, T, s, T, b), what)
        line("const T%d: (&str, &[u8], &str) = (match %s::from_str(%s) { Ok(v) => v.as_str(), Err(e) => e.0 }, match %s::from_bytes(%s) { Ok(v) => v.as_bytes(), Err(e) => e.0 }, match %s::from_bytes(%s) { Ok(v) => v.as_str(), Err(_) => \"\" });" % (i, T, s, T, b, T, b), what)
        line("fn t%d() -> Option<String> { let (s, b): (&str, &[u8]) = (black_box(%s), black_box(%s));" % (i, s, b))
        L.append(" let r = [%s::validate_str(s), %s::validate_bytes(b), %s::from_str(s).is_ok(), %s::from_bytes(b).is_ok()];" % (T, T, T, T))
        L.append(" let (x, y, z) = (%s::from_str(s).map(|v| v.as_str()).unwrap_or_else(|e| e.0), %s::from_bytes(b).map(|v| v.as_bytes()).unwrap_or_else(|e| e.0), %s::from_bytes(b).map(|v| v.as_str()).unwrap_or(\"\"));" % (T, T, T))
        L.append(" if V%d != r { return Some(format!(\"verdicts {:?} at compile time, {:?} at run time\", V%d, r)); }" % (i, i))
        L.append(" if T%d != (x, y, z) { return Some(format!(\"texts {:?} at compile time, {:?} at run time\", T%d, (x, y, z))); } None }" % (i, i))
    line("const EV: &Variants = Variants::EMPTY; const EE: &Extensions = Extensions::EMPTY;", ("empty lists", b""))
    L.append("fn main() {")
    L.append(' for (i, (c, s, f, k, t)) in [%s].into_iter().enumerate() {' % ", ".join("(C%d, S%d, f%d as fn() -> &'static LangTag, m%d::K, %s)" % (i, i, i, i, rust_str(t)) for i, t in enumerate(valid)))
    L.append('  let rt = LangTag::from_str(black_box(t)).map(|v| v.as_str().to_string());')
    L.append('  for v in [c, s, f(), k] { if v.as_str() != t || v.as_bytes() != t.as_bytes() || rt.as_deref().ok() != Some(v.as_str()) || LangTag::from_str(t).ok() != Some(v) { println!("M {i} {:?}", v.as_str()); } }')
    L.append('  println!("V {i}"); }')
    L.append(' for (i, f) in [%s].into_iter().enumerate() { if let Some(m) = f() { println!("T {i} {m}"); } else { println!("O {i}"); } }' % ", ".join("t%d as fn() -> Option<String>" % i for i in range(len(typed))))
    L.append(' if EV.as_str() != "" || EE.as_str() != "" || EV.as_bytes() != b"" || EE.as_bytes() != b"" { println!("E"); }')
    L.append("}")
    code, errors, rendered, foreign = crate(run, "accepted", "\n".join(L) + "\n", True)
    if code != 0:
        hit = sorted(k for k in errors if k in at)
        if hit and not foreign:
            what, t = at[hit[0]]
            raise Violation("%s %s does not compile (%s), though it is fine at run time" % (what, rust_str(t), errors[hit[0]]),
                            "# property C18: compile error for\n%s\n%s" % ("\n".join(L[hit[0] - 1:hit[0] + 1]), "\n".join(rendered[:3])))
        raise NoVerdict("crate of accepted literals: " + "\n".join(rendered[:3])[-3000:])
    code, out = cmd([os.path.join(TARGET, "ct", "debug", "accepted")], timeout=120)
    v = o = 0
    for l in out.splitlines():
        if l.startswith("V "):
            v += 1
        elif l.startswith("O "):
            o += 1
        elif l.startswith("M "):
            i = int(l.split()[1])
            raise Violation("langtag!(%s) holds %s" % (rust_str(valid[i]), l.split(" ", 2)[2]), "# property C18\nlangtag!(%s) holds %s\n" % (rust_str(valid[i]), l))
        elif l.startswith("T "):
            i = int(l.split()[1])
            p, _, t = typed[i]
            raise Violation("%s %s: %s" % (TYPES[p], rust_str(t), l.split(" ", 2)[2]), "# property C18\n%s %s: %s\n" % (TYPES[p], rust_str(t), l))
        elif l == "E":
            raise Violation("an empty list constant is not empty", "# property C18\nVariants::EMPTY or Extensions::EMPTY is not empty\n")
    if code != 0 or v != len(valid) or o != len(typed):
        raise NoVerdict("program of accepted literals ended with %s after %d and %d: %s" % (code, v, o, out[-2000:]))
    say("%d accepted literals in 4 places each, %d texts at compile time and run time" % (v, o))

    # A crate without the standard library, of another edition, that calls the library otherwise and
    # uses the names a macro might for its own things.
    L = ["#![no_std]", "#![allow(long_running_const_eval, dead_code)]", "#[macro_use] extern crate tags;",
         "pub mod core {} pub mod std {} pub mod langtag {} pub struct LangTag; pub struct Grammar; pub fn from_str() {} pub fn value() {}"]
    at = {}
    some = valid[::max(1, len(valid) // 40)]
    for i, t in enumerate(some):
        line("pub const C%d: &::tags::LangTag = %slangtag!(%s);" % (i, ("", "tags::", "::tags::")[i % 3], rust_str(t)), t)
    code, errors, rendered, foreign = crate(run, "elsewhere", "\n".join(L) + "\n", False, 'tags = { package = "langtag", path = "%s", default-features = false }' % REPO, "2018")
    hit = sorted(k for k in errors if k in at)
    if code != 0 and hit and not foreign:
        raise Violation("langtag!(%s) does not compile in a crate without the standard library (%s)" % (rust_str(at[hit[0]]), errors[hit[0]]),
                        "# property C18: compile error for\n%s\n%s" % (L[hit[0] - 1], rendered[0]))
    if code != 0:
        raise NoVerdict("crate without the standard library: " + "\n".join(rendered[:3])[-3000:])

    # Refused literals: each place must be a compile error.
    L = ["#![allow(long_running_const_eval, dead_code)]", "use langtag::*;"]
    at = {}
    # A part of the plain words, and of the made-up texts after them.
    k, m = (1200, 1200) if run.thorough else (150, 150)
    invalid = invalid[:k] + invalid[max(k, len(invalid) - m):]
    for i, t in enumerate(invalid):
        s = rust_str(t)
        line("pub const C%d: &LangTag = langtag!(%s);" % (i, s), ("constant", t))
        line("pub fn f%d() -> &'static LangTag { let v = langtag!(%s); v }" % (i, s), ("expression", t))
        line("pub fn g%d(b: bool) -> usize { if b { langtag!(%s).as_str().len() } else { 0 } }" % (i, spelled(t, i * 4 + (0, 1, 3)[i % 3]) if i % 2 else s), ("branch", t))
    for i, s in enumerate(['b"en"', 'c"en"', 'br"x-a"', "'a'", "b'a'", "17", "1.5", "true", "-1", "0x5en"[:4]]):
        line("pub fn n%d() -> &'static LangTag { let v: &LangTag = langtag!(%s); v }" % (i, s), ("an expression, a literal of another kind", s.encode()))
    code, errors, rendered, foreign = crate(run, "refused", "\n".join(L) + "\n", False)
    if foreign:
        raise NoVerdict("crate of refused literals: " + "\n".join(rendered[:3])[-3000:])
    silent = [k for k in at if k not in errors]
    singly = 0
    # The compiler may stop early: what it did not complain about is compiled once more without the rest.
    rounds = 0
    while silent and code != 0 and rounds < 4:
        rounds += 1
        keep = ["#![allow(long_running_const_eval, dead_code)]", "use langtag::*;"]
        where = {}
        for k in silent:
            keep.append(L[k - 1])
            where[len(keep)] = k
        code, errors, rendered, foreign = crate(run, "refused", "\n".join(keep) + "\n", False)
        if foreign:
            raise NoVerdict("crate of refused literals: " + "\n".join(rendered[:3])[-3000:])
        singly += len(silent)
        silent = [k for n, k in where.items() if n not in errors]
    if silent and code == 0:
        what, t = at[silent[0]]
        raise Violation("langtag!(%s) as %s compiles, though the text is refused at run time" % (rust_str(t), what), "# property C18: compiles\n%s\n" % L[silent[0] - 1])
    if silent:
        raise NoVerdict("no verdict on %d refused literals" % len(silent))
    say("%d refused literals in 3 places each" % len(invalid))
    n = 4 * len(valid) + 6 * len(typed) + 3 * len(invalid)
    distinct = len(set(valid)) + len(set(invalid)) + len({(p, t) for p, _, t in typed})
    run.add("compile time", n, distinct,
            {"accepted literals": len(valid), "refused literals": len(invalid), "texts through constant functions": len(typed), "accepted literals in a crate without std": len(some), "refused literals compiled again": singly},
            [rust_str(t) for t in valid[26:32] + invalid[:6]])


# ---------------------------------------------------------------- C19


def c19(run):
    (full,) = build("full")
    sizes = [64, 512, 4096, 32768] + ([262144] if run.thorough else [])
    random = 160 if run.thorough else 28
    before = {}
    curve = []
    total = worst = 0
    worst_at = ""
    table = {}
    for size in sizes:
        procs = []
        for i in range(SHARDS):
            out = run.path("cg.%d.%d" % (size, i))
            a = ["valgrind", "--tool=callgrind", "--callgrind-out-file=" + out, "--dump-line=no", full, "cost", "--size", str(size), "--seed", str(run.seed),
                 "--shard", str(i), "--shards", str(SHARDS), "--random", str(min(random, 28) if size > 100000 else random), "--dict", run.dict, "--out", out + ".lines"]
            log = open(out + ".log", "wb")
            procs.append((out, a, subprocess.Popen(a, cwd=HARNESS, env=base_env(), stdin=subprocess.DEVNULL, stdout=log, stderr=log, preexec_fn=limits(0))))
        now = {}
        end = time.time() + 420
        for out, a, p in procs:
            try:
                code = p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                for _, _, q in procs:
                    if q.poll() is None:
                        os.killpg(q.pid, signal.SIGKILL)
                raise NoVerdict("measurement at %d bytes did not end in time" % size)
            if code != 0:
                raise NoVerdict("measurement failed (%s): %s" % (code, open(out + ".log").read()[-2000:]))
            k = 0
            for l in open(out + ".lines"):
                k += 1
                fam, name, _, op, n = json.loads(l)
                m = re.search(r"^(?:summary|totals): (\d+)", open("%s.%d" % (out, k)).read(), re.M)
                if not m:
                    raise NoVerdict("no instruction count in " + "%s.%d" % (out, k))
                key = (fam, name, op)
                c = now.setdefault(key, [0, n])
                c[0] = max(c[0], int(m.group(1)))
                total += 1
            for f in os.listdir(run.dir):
                if f.startswith(os.path.basename(out)):
                    os.unlink(run.path(f))
        curve.append(now)
        for key, (c, n) in now.items():
            points = [g[key] for g in curve if key in g]
            growth = None
            if len(points) == 2 and c > 2_000_000 and c > 24 * points[0][0]:
                growth = points
            if len(points) >= 3 and points[-3][1] < points[-2][1] < n:
                (x, nx), (y, ny) = points[-3:-1]
                # Instructions per byte added: the same at every size if the work is linear, eight times as many if it is quadratic.
                s1, s2 = (y - x) / (ny - nx), (c - y) / (n - ny)
                if s2 > 3 * max(s1, 0) + 3 and c > 4000:
                    growth = points[-3:]
                if s1 > 1 and s2 / s1 > worst:
                    worst, worst_at = s2 / s1, "%s on %s, %d to %d bytes" % (key[2], key[1], ny, n)
            if growth:
                shown = ", ".join("%d for %d bytes" % tuple(q) for q in growth)
                raise Violation(
                    "%s on %s: instructions executed: %s" % (key[2], key[1], shown),
                    "# property C19\n# operation: %s\n# input family: %s, index %d, seed %d\n# instructions: %s\n# measured with: valgrind --tool=callgrind target/full/release/monitor cost --size %d --seed %d --random %d\n"
                    % (key[2], key[1], key[0], run.seed, shown, size, run.seed, random))
        before = now
        table[size] = len(now)
        say("%d bytes: %d operations measured" % (size, len(now)))
    keys = set().union(*curve)
    samples = ["%s on %s: %d instructions for %d bytes" % (k[2], k[1], *before[k]) for k in list(before)[:: max(1, len(before) // 12)]]
    run.notes.append("largest ratio of instructions per added byte between successive sizes: %.2f (%s)" % (worst, worst_at))
    run.add("instruction counts", total, len(keys), {"measurements": total}, samples, operations_per_size=table)


# ---------------------------------------------------------------- table

GEN = ("Systematic cases, then random ones from VERIF_SEED: grammar-directed values of all 17 productions (short, nested and up to the length limit, subtags "
       "from a realistic list, from literals found in the source under test and at random), recased, mutated, damaged and unrelated text. ")


def R(s):
    return GEN + s


CHECKS = {
    "C01": Check(inproc(), R("Systematic part: a conformance suite from a minimal DFA compiled from the RFC grammar (every state x every byte, odd character and malformed sequence x distinguishing suffixes; two-symbol detours; all strings over a,1,-,x up to length 7 or 9; all component shapes; every length). A case is one input text; all count."), ["accepted", "rejected"]),
    "C02": Check(inproc(), R("The same conformance suite as C01 for each of the 16 component productions. A case is one production and text."), ["accepted", "rejected"]),
    "C03": Check(inproc(), R("All combinations of component shapes. Non-trivial: tags accepted by the library and the model, whose components are all compared."), ["normal tags", "component answers judged"]),
    "C04": Check(inproc(), R("All letter cases of the grandfathered tags' neighbourhood, shapes; the typed view as reported and put together by hand. Non-trivial: accepted tags."), ["normal", "private use", "irregular grandfathered"]),
    "C05": Check(inproc(), R("A case is a list and a script of iterator operations, judged step by step against the plain sequence. Non-trivial: lists of at least one element."), ["iterator operations judged"]),
    "C06": Check(inproc(), R("Extension lists over few singletons with collisions in letter case and subtags that look like singletons; every singleton is looked up in each. Non-trivial: lists with at least two elements or a hit."), ["lookups that hit", "lookups that miss"]),
    "C07": Check(inproc(), R("Pairs and triples of close values (equal up to case, differing in one character, prefixes). Non-trivial: pairs compared by every operator, max, min and clamp of borrowed, owned and mixed operands and hashed by several hashers."), ["equal pairs", "unequal pairs", "triples sorted", "singleton pairs"]),
    "C08": Check(inproc(), R("A value and a text: equal up to case, close, with a lookalike in place of a letter, invalid, not UTF-8. Non-trivial: pairs compared as every text type, in both operand orders."), ["against equal text", "against different text", "against invalid text"]),
    "C09": Check(inproc(), R("Values whose every accessor and iterator is drained; each text handed out is parsed again. Non-trivial: values that hand out more than two."), ["LangTag::language", "Extensions::iter", "Variants::iter"]),
    "C10": Check(inproc(), R("Values whose every answer is located in the input and timed against the allocator's call counter. Non-trivial: values with answers."), ["answers located", "operations watched for allocation"]),
    "C11": Check(c11, R("Arbitrary bytes, text disguised as ill-formed UTF-8, valid and damaged text, into every operation, natively with overflow and debug checks, optimised without them, unoptimised on a small stack, under AddressSanitizer and (a small part) under Miri. Non-trivial: inputs longer than a byte."), ["operations that returned", "accepted inputs", "rejected inputs"]),
    "C12": Check(inproc(), R("Every constructor and conversion of one type on the same input. Non-trivial: all."), ["accepted inputs", "refused inputs", "verdicts compared"]),
    "C13": Check(inproc(), R("Random chains of conversions from a value; the text is compared after each step. Non-trivial: chains of accepted values."), ["chains", "texts compared"]),
    "C14": Check(c14, R("Strings through serde's value deserializers, JSON (borrowed, reader, value, fully escaped), CBOR, bincode and formats that have only strings, readable by humans or not, as values, list elements and map keys, borrowed and owned; non-string data. Non-trivial: all."), ["valid strings", "invalid strings", "serializations judged"]),
    "C15": Check(inproc(), R("Every letter-case variant of each of the 26 tags; every one-byte insertion, deletion, substitution; truncations; random mutations. Non-trivial: all."), ["registered", "not registered"]),
    "C16": Check(inproc(longs=240), R("A text and a recasing of it; the two logs of all answers are compared. Non-trivial: accepted texts whose recasing differs."), ["answers compared"]),
    "C17": Check(c17, R("Digests of all answers to one case, computed by binaries built with each feature combination; also the library alone for each combination and for a target without the standard library. Evaluations: digests compared. Non-trivial and distinct: distinct digests of the always-available operations."), ["digests compared"]),
    "C18": Check(c18, R("Literals, split by whether they parse at run time, compiled as constants, statics, expressions and in branches; texts through every constant function of the 15 types, compile-time against run-time values. Each case is a literal in a place; distinct: literal and type."), ["accepted literals", "refused literals", "texts through constant functions"], least=500),
    "C19": Check(c19, "Families prefix (unit)* suffix, 49 fixed ones (valid with the bulk in each list, invalid, and turning half way into something else) and random ones, at sizes 64, 512, 4096, 32768 (thorough: 262144) bytes; instructions executed by each operation are counted by callgrind and compared between adjacent sizes. Non-trivial: all; distinct: operation and family.", ["measurements"],
                 assumptions=["instruction counts stand for work; more than three times the instructions per added byte when the text grows eightfold is called super-linear (quadratic growth has eight times)"]),
    "C20": Check(inproc(longs=240), R("Histories of map and set operations over few close keys in many letter cases, in step with a model keyed by lower-cased text. Non-trivial: histories over at least two distinct keys."), ["map operations", "histories"]),
    "C21": Check(c21, R("Histories that ask for all answers about three texts again and again, in other orders, from other threads, at other addresses and in reused buffers; digests of the same cases asked forwards, backwards and each in a fresh process; natively, under ThreadSanitizer and under Miri. Non-trivial: texts with more than 8 answers."), ["concurrent histories", "histories", "answers compared between histories"]),
}


def setup():
    """Build everything the quick checks use, from the committed files."""
    try:
        build("full", "none", "std", "serde")
        build("plain", "unopt", "asan", "tsan")
        e = base_env()
        e.update(MIRI_ENV)
        code, out = cmd(["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--no-default-features", "--features", "std", "--target-dir", os.path.join(TARGET, "miri"), "--bin", "monitor", "--", "list"], cwd=HARNESS, env=e, timeout=900)
        if code != 0:
            raise NoVerdict(out[-3000:])
    except NoVerdict as x:
        print(x)
        return 1
    return 0
