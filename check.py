#!/usr/bin/env python3
"""Run the check of one property: ./check.py C01 [quick|thorough]; ./check.py replay C01 FILE;
./check.py setup. Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Exit 2: no verdict (build failure, harness failure, nothing observed). See DESIGN.md."""

import fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
HARNESS = os.path.join(VERIF, "harness")
TRIPLE = "x86_64-unknown-linux-gnu"
SHARDS = 8
T0 = time.time()

sys.path.insert(0, os.path.join(VERIF, "tools"))


class Violation(Exception):
    """The property is broken: why, and the text of a replay file."""

    def __init__(self, why, replay):
        super().__init__(why)
        self.why, self.replay = why, replay


class NoVerdict(Exception):
    pass


def say(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST", "MIRI", "ASAN_", "TSAN_"))}
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    path = e.get("PATH", "/usr/bin:/bin").split(":")
    e["PATH"] = ":".join(["/root/.cargo/bin"] * ("/root/.cargo/bin" not in path) + path)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
    return e


def limits(mem_gb, stack_kb=0):
    def f():
        if stack_kb:
            resource.setrlimit(resource.RLIMIT_STACK, (stack_kb << 10, stack_kb << 10))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        os.setsid()

    return f


def cmd(args, cwd=VERIF, env=None, timeout=600, mem_gb=0, merge=True, stack_kb=0):
    """Run to completion; returns (code, output). A time-out is no verdict."""
    p = subprocess.Popen(
        args,
        cwd=cwd,
        env=env or base_env(),
        stdin=subprocess.DEVNULL,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT if merge else subprocess.DEVNULL,
        preexec_fn=limits(mem_gb, stack_kb),
    )
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise NoVerdict("timed out: " + " ".join(args[:6]))
    return p.returncode, out.decode("utf-8", "replace")


# ---------------------------------------------------------------- builds

BUILDS = {
    # name: (toolchain, flags, cargo arguments, binary)
    "full": (None, "", ["--release"], "release/monitor"),
    "none": (None, "", ["--release", "--no-default-features"], "release/monitor"),
    "std": (None, "", ["--release", "--no-default-features", "--features", "std"], "release/monitor"),
    "serde": (None, "", ["--release", "--no-default-features", "--features", "serde"], "release/monitor"),
    # As users build it: no debug assertions, overflow unchecked. And not optimised at all.
    "plain": (None, "", ["--release"], "release/monitor", {"CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "false", "CARGO_PROFILE_RELEASE_OPT_LEVEL": "3"}),
    "unopt": (None, "", [], "debug/monitor", {"CARGO_PROFILE_DEV_OPT_LEVEL": "0"}),
    "asan": ("+nightly", "-Zsanitizer=address", ["--release", "--target", TRIPLE], TRIPLE + "/release/monitor"),
    "tsan": (
        "+nightly",
        "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer",
        ["--release", "-Zbuild-std", "--target", TRIPLE],
        TRIPLE + "/release/monitor",
    ),
}


def start_build(name):
    tool, flags, args, _, *more = BUILDS[name]
    e = base_env()
    for m in more:
        e.update(m)
    if flags:
        e["RUSTFLAGS"] = flags
    log = tempfile.TemporaryFile()
    p = subprocess.Popen(
        ["cargo"] + ([tool] if tool else []) + ["build", "--offline", "--quiet", "--bin", "monitor", "--target-dir", os.path.join(TARGET, name)] + args,
        cwd=HARNESS,
        env=e,
        stdin=subprocess.DEVNULL,
        stdout=log,
        stderr=subprocess.STDOUT,
        preexec_fn=limits(0),
    )
    return p, log


def finish_build(name, started):
    p, log = started
    try:
        code = p.wait(timeout=700)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        raise NoVerdict("build of %s timed out" % name)
    if code != 0:
        log.seek(0)
        raise NoVerdict("build of %s failed:\n%s" % (name, log.read().decode("utf-8", "replace")[-6000:]))
    return os.path.join(TARGET, name, BUILDS[name][3])


def build(*names):
    """Build configurations at the same time; returns the binaries."""
    started = [(n, start_build(n)) for n in names]
    bins = [finish_build(n, s) for n, s in started]
    say("built", ", ".join(names))
    return bins


# ---------------------------------------------------------------- workload dictionary

STR = re.compile(r'b?"((?:[^"\\]|\\.)*)"|b?\'((?:[^\'\\]|\\.)+)\'', re.S)
SHIFT = re.compile(r"\b(\d{1,4})\s*<<\s*(\d{1,2})\b")
TIMES = re.compile(r"\b(\d[\d_]{0,7})\s*\*\s*(\d[\d_]{0,7})\b")
WIDTH = re.compile(r"\b([ui])(8|16)\b")
NUM = re.compile(r"(?<![\w.])(\d[\d_]*|0x[0-9a-fA-F_]+)(?:usize|u8|u16|u32|u64|i32|isize)?(?![\w.])")


def unescape(s):
    def f(m):
        x = m.group(1)
        if x[0] == "x":
            return chr(int(x[1:], 16))
        if x[0] == "u":
            return chr(int(x[2:-1], 16))
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(x, x)

    try:
        return re.sub(r"\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]+\}|.)", f, s, flags=re.S)
    except (ValueError, OverflowError):
        return s


def write_dict(path):
    """Literals in the source under test, mixed into the workload (never into a verdict)."""
    words, nums = set(), set()
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in sorted(fs):
            if not f.endswith((".rs", ".abnf")):
                continue
            t = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
            if f == "grammar.rs":
                t = re.sub(r"\b\d+u32\b", "", t)
            code = re.sub(r"//[^\n]*", "", t)
            for m in STR.finditer(code):
                w = unescape(m.group(1) if m.group(1) is not None else m.group(2))
                for x in [w] + re.split(r"[^0-9A-Za-z]+", w):
                    if x and len(x) <= 64:
                        words.add(x.encode())
            for m in SHIFT.finditer(code):
                n = int(m.group(1)) << int(m.group(2))
                if 2 < n <= 1 << 25:
                    nums.add(n)
            for m in TIMES.finditer(code):
                n = int(m.group(1).replace("_", "")) * int(m.group(2).replace("_", ""))
                if 2 < n <= 1 << 25:
                    nums.add(n)
            for m in WIDTH.finditer(code):
                # Where a narrow integer overflows.
                for n in (1 << int(m.group(2)), 1 << int(m.group(2)) - 1):
                    if n <= 1 << 25:
                        nums.add(n)
            for m in NUM.finditer(code):
                try:
                    n = int(m.group(1).replace("_", ""), 0)
                except ValueError:
                    continue
                if 2 < n <= 1 << 25:
                    nums.add(n)
                if n < 256:
                    words.add(bytes([n]))
    with open(path, "w") as f:
        for w in sorted(words):
            f.write("w %s\n" % w.hex())
        for n in sorted(nums):
            f.write("n %d\n" % n)


# ---------------------------------------------------------------- running monitors


class Run:
    """One run of a check: scratch directory, seed, tier, what was observed."""

    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        os.makedirs(os.path.join(TARGET, "run"), exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(TARGET, "run"))
        self.dict = os.path.join(self.dir, "dict")
        write_dict(self.dict)
        self.evaluations = 0
        self.distinct = 0
        self.counters = {}
        self.samples = []
        self.parts = {}
        self.notes = []
        self.found = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, name):
        return os.path.join(self.dir, name)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def add(self, part, evaluations, distinct, counters=None, samples=(), **more):
        self.evaluations += evaluations
        self.distinct += distinct
        for k, v in (counters or {}).items():
            self.counters[k] = self.counters.get(k, 0) + v
        for s in samples:
            if len(self.samples) < 24 and s not in self.samples:
                self.samples.append(s)
        self.parts[part] = dict(evaluations=evaluations, distinct=distinct, **more)

    def monitor(self, binary, part, mon=None, count=None, sys_cases=True, wall=150, max_len=None, env=None, mem_gb=8, prefix=None, hang=60, longs=0, stack_kb=0, share=1):
        """Run the sharded workload of a monitor and collect what it saw."""
        mon = mon or self.id
        e = base_env()
        e.update(env or {})
        procs = []
        for i in range(SHARDS):
            b = self.path("%s.%d" % (part, i))
            a = (prefix or [binary]) + ["run", mon, "--shard", str(i), "--shards", str(SHARDS), "--seed", str(self.seed)]
            a += ["--tier", self.tier, "--dict", self.dict, "--out", b + ".json", "--hashes", b + ".h", "--case-file", b + ".case"]
            a += ["--wall", str(int(wall)), "--hang", str(hang), "--longs", str(longs * (8 if self.thorough else 1)), "--sys", "1" if sys_cases else "0"]
            if share != 1:
                a += ["--share", str(int(1 / share))]
            if count is not None:
                a += ["--count", str(count)]
            if max_len:
                a += ["--max-len", str(max_len)]
            err = open(b + ".err", "wb")
            procs.append((b, a, subprocess.Popen(a, cwd=HARNESS, env=e, stdin=subprocess.DEVNULL, stdout=err, stderr=err, preexec_fn=limits(mem_gb, stack_kb))))
            err.close()
        deadline = time.time() + wall * 2 + 240
        late = False
        for _, _, p in procs:
            try:
                p.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                late = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        if late:
            raise NoVerdict("%s: workload did not end in time" % part)
        ev = 0
        counters, samples, trouble, walls, slow, cut = {}, [], [], [], [], False
        for b, a, p in procs:
            out = None
            try:
                out = json.load(open(b + ".json"))
            except (OSError, ValueError):
                pass
            err = open(b + ".err", "rb").read().decode("utf-8", "replace")
            if out:
                ev += out["evaluations"]
                walls.append(out["wall"])
                slow.append(out["slowest"])
                cut = cut or out["out_of_time"]
                for k, v in out["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                samples += out["samples"][-3:]
                v = out.get("violation")
                if v and v["kind"] != "harness":
                    self.broken(binary, mon, a, v["why"], v["case"], v["show"])
                if v:
                    trouble.append("harness failure: %s on %s" % (v["why"], v["show"]))
                    continue
            if p.returncode != 0:
                trouble.append(self.died(binary, mon, a, b, p.returncode, err, stack_kb, e))
        if trouble:
            raise NoVerdict("%s: %s" % (part, "; ".join(trouble)))
        d = self.union(binary, [b + ".h" for b, _, _ in procs], prefix)
        say("%s: %d evaluations, %d distinct, no violation" % (part, ev, d))
        self.add(part, ev, d, counters, samples, wall_s=round(max(walls or [0]), 1), slowest_case_s=round(max(slow or [0]), 3), cut_short=cut)
        for b, _, _ in procs:
            for s in (".h", ".case"):
                try:
                    os.unlink(b + s)
                except OSError:
                    pass

    def union(self, binary, files, prefix=None):
        files = [f for f in files if os.path.exists(f)]
        if not files:
            return 0
        full = os.path.join(TARGET, "full", BUILDS["full"][3])
        code, out = cmd([full, "union"] + files, timeout=120)
        if code != 0:
            raise NoVerdict("cannot count distinct cases: " + out)
        return int(out.strip())

    def broken(self, binary, mon, args, why, case, show):
        text = "# property %s: %s\n# case: %s\n# replay: ./check.py replay %s THIS-FILE\n# found by: %s\n%s" % (
            self.id, why.replace("\n", " "), show.replace("\n", " "), mon, " ".join(args), case)
        raise Violation("%s on %s" % (why, show), text)

    def died(self, binary, mon, args, b, code, err, stack_kb=0, env=None):
        """A workload process ended otherwise than by returning a verdict."""
        if "Undefined Behavior" in err or "ThreadSanitizer: data race" in err or "ERROR: AddressSanitizer" in err:
            m = re.search(r"(error: Undefined Behavior[^\n]*|SUMMARY: \w+Sanitizer[^\n]*)", err)
            case = self.decode(b + ".case")
            at = err.find("Undefined Behavior")
            at = at if at >= 0 else max(err.find("WARNING: ThreadSanitizer"), err.find("ERROR: AddressSanitizer"), 0)
            report = "".join("# | %s\n" % l for l in err[at:at + 5000].splitlines())
            raise Violation(
                "%s (%s)" % (m.group(1) if m else "sanitizer report", case.splitlines()[-1] if case else "case unknown"),
                "# property %s\n# found by: %s\n%s%s" % (self.id, " ".join(args), case, report))
        if code == 87 or (code < 0 and -code in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGABRT, signal.SIGTRAP)):
            what = "does not return (60 s of processor time)" if code == 87 else "ends the process with %s" % signal.Signals(-code).name
            case = self.decode(b + ".case")
            if case:
                # Only what happens again, to this case alone, is a verdict.
                f = self.path("died.case")
                open(f, "w").write(case)
                try:
                    again, _ = cmd([binary, "replay", mon, f], cwd=HARNESS, timeout=300, mem_gb=8, stack_kb=stack_kb)
                except NoVerdict:
                    again = None
                if again == code:
                    raise Violation("%s: %s" % (what, case.splitlines()[-1]), "# property %s: %s\n# replay: ./check.py replay %s THIS-FILE\n%s" % (self.id, what, mon, case))
                # Or what happens again after the same cases before it.
                try:
                    again, _ = cmd(args, cwd=HARNESS, env=env, timeout=600, mem_gb=8, stack_kb=stack_kb)
                except NoVerdict:
                    again = None
                if again == code and self.decode(b + ".case") == case:
                    raise Violation("%s, after other cases: %s" % (what, case.splitlines()[-1]), "# property %s: %s\n# only after the cases before it in: %s\n%s" % (self.id, what, " ".join(args), case))
        return "exit %d of %s: %s" % (code, " ".join(args[:4]), err[-2000:])

    def decode(self, path):
        full = os.path.join(TARGET, "full", BUILDS["full"][3])
        if not os.path.exists(full):
            return ""
        code, out = cmd([full, "decode", path], timeout=60)
        return out if code == 0 else ""


def evidence(run, level, rule, assumptions, violations):
    cov = {
        "evaluations": run.evaluations,
        "distinct_nontrivial": run.distinct,
        "rule": rule,
        "samples": run.samples[:24] or ["(none)"],
        "observed": dict(sorted(run.counters.items())),
        "parts": run.parts,
    }
    if run.notes:
        cov["notes"] = run.notes
    e = {
        "property": run.id,
        "tier": run.tier,
        "seed": run.seed,
        "level": level,
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": round(time.time() - T0, 1),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", run.id + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(e, f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.replace(p + ".tmp", p)


def main():
    import checks

    if len(sys.argv) > 1 and sys.argv[1] == "setup":
        return checks.setup()
    if len(sys.argv) > 3 and sys.argv[1] == "replay":
        (b,) = build("full")
        return subprocess.call([b, "replay", sys.argv[2], os.path.abspath(sys.argv[3])], cwd=HARNESS)
    pid = sys.argv[1] if len(sys.argv) > 1 else ""
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if pid not in checks.CHECKS or tier not in ("quick", "thorough"):
        print("usage: check.py <%s> [quick|thorough]" % "|".join(checks.CHECKS), file=sys.stderr)
        return 2
    run = Run(pid, tier, seed)
    c = checks.CHECKS[pid]
    try:
        c.run(run)
        missing = [k for k in c.needs if not run.counters.get(k)]
        if missing or run.evaluations < c.least or run.distinct < 2:
            raise NoVerdict("too little observed: %d evaluations, %d distinct, nothing under %s" % (run.evaluations, run.distinct, missing))
    except Violation as v:
        evidence(run, "exploration", c.rule, c.assumptions, 1)
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        text = v.replay if v.replay.endswith("\n") else v.replay + "\n"
        p = os.path.join(d, "%s-%s.txt" % (pid, hashlib.sha1(text.encode()).hexdigest()[:10]))
        open(p, "w").write(text)
        say("violated:", v.why[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(p, VERIF)), flush=True)
        return 1
    except NoVerdict as e:
        say("no verdict:", e)
        return 2
    finally:
        run.close()
    for l in run.found:
        print("KNOWN-FINDING: property=%s %s" % (pid, l))
    evidence(run, "exploration", c.rule, c.assumptions, 0)
    say("%s held on %d evaluations (%d distinct)" % (pid, run.evaluations, run.distinct))
    return 0


if __name__ == "__main__":
    # `checks` imports this file by its module name.
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
