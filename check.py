#!/usr/bin/env python3
"""Decides one property of buosseph/rasp by runtime monitoring.

    check.py C07                     VERIF_SEED / VERIF_TIER from the environment
    check.py C07 --tier thorough
    check.py --setup                 builds everything once (also a smoke test)

Builds the monitor crate against /repo's current working tree, runs the
property's workloads in a checked and in a release build (and, for some
properties, in sanitizer builds), writes evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: no verdict (build failure, monitor error, workload did not reach what
it has to reach).
"""
import array
import fcntl
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
MON = os.path.join(HERE, "monitor")
TARGET = os.path.join(MON, "target")
EVID = os.path.join(HERE, "evidence")
TRIPLE = "x86_64-unknown-linux-gnu"
HANG = 150          # s for a single monitored execution (they take milliseconds)
RUN_LIMIT = 420     # s for one run of a binary
THOROUGH = 400      # s of monitored running per property in the thorough tier

# How many times the table's quick counts each quick run makes, chosen for
# roughly ten seconds per build on eight cores.
QUICK = dict(C01=20, C02=20, C03=20, C04=25, C05=40, C06=200, C07=200, C08=150, C09=60, C10=60,
             C11=250, C12=40, C13=400, C14=200, C15=200, C16=150, C17=100, C18=400, C19=20, C20=100,
             C21=15, C22=15, C23=200, C24=10, C25=300, C26=100, C27=100, C28=20,
             C29=40, C30=100, C31=20, C32=100, C33=300, C34=200, C35=100)
# Likewise for one round of the thorough tier (longer histories).
ROUND = dict(C01=1, C02=1, C03=1, C04=1, C05=2, C06=10, C07=10, C08=20, C09=3, C10=3, C11=20, C12=10,
             C13=40, C14=20, C15=10, C16=6, C17=5, C18=50, C19=10, C20=60, C21=8, C22=8, C23=8, C24=2,
             C25=20, C26=10, C27=15, C28=0.3, C29=2, C30=10, C31=1, C32=10, C33=20, C34=10, C35=5)

SAN = {  # property -> sanitizer builds of the same workloads
    "C26": ["asan", "miri"],
    "C27": ["rtsan"],
    "C24": ["tsan"],
}


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTDOCFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(kw)
    return e


def stale(d):
    """Forget earlier builds of the code under test: never trust time stamps."""
    for pat in ("*/.fingerprint/rasp-*", "*/*/.fingerprint/rasp-*"):
        for f in glob.glob(os.path.join(d, pat)):
            if f.startswith(TARGET):
                shutil.rmtree(f, ignore_errors=True)


FEATURES = []   # ["--no-default-features"]: without trait objects


def build(kind):
    """Builds one variant; returns the command prefix that runs it, or None."""
    if kind in ("checked", "release"):
        d = os.path.join(TARGET, kind + "-b")
        cmd = ["cargo", "build", "--profile", kind] + FEATURES
        e = env(CARGO_TARGET_DIR=d)
        exe = [os.path.join(d, kind, "monitor")]
    elif kind == "miri":
        d = os.path.join(TARGET, "miri-b")
        cmd = ["cargo", "+nightly", "miri", "run"] + FEATURES + ["--", "list"]
        e = env(CARGO_TARGET_DIR=d, MIRIFLAGS="-Zmiri-disable-isolation")
        exe = ["cargo", "+nightly", "miri", "run", "-q"] + FEATURES + ["--"]
    else:
        d = os.path.join(TARGET, kind + "-b")
        flags = {"asan": "-Zsanitizer=address", "rtsan": "-Zsanitizer=realtime",
                 "tsan": "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer"}[kind]
        cmd = ["cargo", "+nightly", "build", "--release", "--target", TRIPLE] + FEATURES
        if kind == "rtsan":
            cmd += ["--features", "rtsan"]
        e = env(CARGO_TARGET_DIR=d, RUSTFLAGS=flags)
        exe = [os.path.join(d, TRIPLE, "release", "monitor")]
    os.makedirs(d, exist_ok=True)
    stale(d)
    p = subprocess.run(cmd, cwd=MON, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        return None, p.stdout[-4000:]
    return exe, ""


class Outcome:
    def __init__(self):
        self.runs = []
        self.violations = []   # dicts: what, build, seed, section, index, history, command
        self.problems = []
        self.events = {}
        self.sections = {}
        self.samples = []
        self.evaluations = 0
        self.hashes = set()
        self.rule = ""
        self.notes = []
        self.required_missing = {}


def run(out, pid, kind, exe, seed, scale, thorough, threads=8, extra=(), optional=False, limit=RUN_LIMIT):
    tag = "%s-%s-%d-%d" % (pid, kind, seed, os.getpid())
    oj = os.path.join(TARGET, tag + ".json")
    hj = os.path.join(TARGET, tag + ".hashes")
    cmd = exe + ["run", pid, "--seed", str(seed), "--scale", repr(scale), "--threads", str(threads), "--out", oj, "--hashes", hj]
    if kind != "miri":
        cmd += ["--hang", str(HANG)]
    if thorough:
        cmd += ["--thorough"]
    cmd += list(extra)
    e = env(ASAN_OPTIONS="detect_leaks=1:exitcode=43", TSAN_OPTIONS="exitcode=0:halt_on_error=0:report_thread_leaks=0",
            RTSAN_OPTIONS="halt_on_error=true:exitcode=43", MIRIFLAGS="-Zmiri-disable-isolation",
            CARGO_TARGET_DIR=os.path.join(TARGET, "miri-b"))
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=MON, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=limit)
        rc, err = p.returncode, p.stderr
    except subprocess.TimeoutExpired:
        rc, err = None, ""
    dt = time.time() - t
    j = None
    if os.path.exists(oj):
        try:
            j = json.load(open(oj))
        except ValueError:
            pass
        os.unlink(oj)
    if os.path.exists(hj):
        a = array.array("Q")
        a.frombytes(open(hj, "rb").read())
        out.hashes.update(a)
        os.unlink(hj)
    rec = dict(build=kind, seed=seed, scale=scale, seconds=round(dt, 2), exit=rc)
    show = " ".join(cmd)

    def violation(what, **kw):
        v = dict(what=what, build=kind, seed=seed, command=show)
        v.update(kw)
        out.violations.append(v)

    san = san_report(kind, err)
    rec["sanitizer_reports"] = len(san)
    for s in san:
        violation(s[:6000])
    if j:
        rec["evaluations"] = j["evaluations"]
        rec["events"] = j["events"]
        out.evaluations += j["evaluations"]
        out.rule = j["rule"]
        for k, v in j["events"].items():
            out.events[k] = out.events.get(k, 0) + v
        for k, v in j["sections"].items():
            out.sections[k] = out.sections.get(k, 0) + v
        if len(out.samples) < 16:
            out.samples += ["[%s] %s" % (kind, s) for s in j["samples"][:6]]
        for v in j["violations"]:
            depth = 4 if thorough else 1
            violation(v["what"], section=v["section"], index=v["index"], case=v["case"], history=v["history"],
                      replay="%s replay %s %s %d --seed %d --depth %d" % (" ".join(exe), pid, v["section"], v["index"], seed, depth))
        if j["harness"]:
            out.problems.append("monitor error in the %s build: %s" % (kind, j["harness"][:3]))
        if not j["violations"] and not thorough and scale >= 1:
            for m in j["missing"]:
                out.problems.append("the %s run observed no '%s'" % (kind, m))
    if rc is None:
        if optional:
            out.notes.append("%s run stopped after %d s" % (kind, limit))
        else:
            out.problems.append("the %s run did not finish in %d s" % (kind, limit))
    elif rc < 0 and not san:
        violation("the %s build was killed by signal %d while running the workload: %s" % (kind, -rc, err[-3000:]))
    elif rc not in (0, 1) and not san:
        out.problems.append("the %s run ended with %d: %s" % (kind, rc, err[-1500:]))
    elif rc == 1 and j is None and not san:
        out.problems.append("the %s run ended with 1 and no report: %s" % (kind, err[-1500:]))
    out.runs.append(rec)


def san_report(kind, err):
    """Sanitizer reports that concern the monitored crate."""
    if kind == "asan" and "ERROR: AddressSanitizer" in err:
        return ["AddressSanitizer: " + err[err.index("ERROR: AddressSanitizer"):]]
    if kind == "asan" and "LeakSanitizer: detected memory leaks" in err:
        rep = err[err.index("LeakSanitizer"):]
        return ["LeakSanitizer: " + rep] if "/repo/src" in rep else []
    if kind == "rtsan" and "RealtimeSanitizer" in err:
        return ["RealtimeSanitizer: " + err[err.index("ERROR: RealtimeSanitizer"):] if "ERROR: RealtimeSanitizer" in err else err]
    if kind == "miri" and re.search(r"error: Undefined Behavior|error: memory leaked", err):
        return ["Miri: " + err[err.index("error: "):]]
    if kind == "tsan":
        res = []
        for rep in err.split("=================="):
            if "WARNING: ThreadSanitizer: data race" not in rep:
                continue
            tops = re.findall(r"^\s+#0 .*$", rep, re.M)
            if any("/repo/src/" in t for t in tops[:2]):
                res.append(rep.strip())
        return res[:3]
    return []


def check(pid, tier, seed):
    t0 = time.time()
    out = Outcome()
    thorough = tier == "thorough"
    kinds = ["checked", "release"]
    exes = {}
    for k in kinds:
        exe, log = build(k)
        if exe is None and not FEATURES:
            # generic code over trait objects may be all that no longer compiles
            FEATURES.append("--no-default-features")
            exe, log2 = build(k)
            if exe is not None:
                out.notes.append("built without trait objects: " + log[-1500:])
                if pid == "C34":
                    out.violations.append(dict(what="code that uses the processors as trait objects no longer compiles: " + log[-1500:],
                                               build=k, seed=seed, command="cargo build --profile " + k))
        if exe is None:
            out.problems.append("the %s build failed: %s" % (k, log))
            return out, time.time() - t0
        exes[k] = exe
    sans = {}
    for k in SAN.get(pid, []):
        exe, log = build(k)
        if exe is None:
            # an environment without this sanitizer: the other builds decide
            out.notes.append("no %s build: %s" % (k, log[-300:]))
        else:
            sans[k] = exe

    def sanitizers(base, deep):
        for k, exe in sans.items():
            s = base + {"asan": 11, "miri": 12, "rtsan": 13, "tsan": 14}[k] * 1000003
            if k == "asan":
                run(out, pid, k, exe, s, 20 if not deep else 100, False)
            elif k == "rtsan":
                run(out, pid, k, exe, s, 40 if not deep else 400, False)
            elif k == "tsan":
                run(out, pid, k, exe, s, 0.5 if not deep else 4, False, threads=1)
            elif k == "miri":
                miri(exe, s, deep)

    def miri(exe, s, deep):
        from concurrent.futures import ThreadPoolExecutor
        n = 8 if not deep else 16
        with ThreadPoolExecutor(8) as ex:
            for f in [ex.submit(run, out, pid, "miri", exe, s + i, 0.002, False, 1, (), True, 240) for i in range(n)]:
                f.result()

    if out.violations:
        out.rule = "the monitor is compiled against the crate"
    elif not thorough:
        for i, k in enumerate(kinds):
            run(out, pid, k, exes[k], seed + i * 1000003, QUICK[pid], False)
            if out.violations:
                break
        if not out.violations:
            sanitizers(seed, False)
    else:
        # the quick workload first, then rounds of longer histories
        for i, k in enumerate(kinds):
            run(out, pid, k, exes[k], seed + i * 1000003, QUICK[pid], False)
        if not out.violations:
            sanitizers(seed, True)
        start = time.time()
        r = 0
        while time.time() - start < THOROUGH and not out.violations and not out.problems:
            run(out, pid, kinds[r % 2], exes[kinds[r % 2]], seed + 77 + r * 1000003, ROUND[pid], True)
            r += 1
    return out, time.time() - t0


def main():
    args = sys.argv[1:]
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if args and args[0] == "--setup":
        for k in ("checked", "release", "asan", "tsan", "rtsan", "miri"):
            exe, log = build(k)
            print("%-8s %s" % (k, "built" if exe else "NOT BUILT: " + log[-600:]))
            if exe is None and k in ("checked", "release"):
                return 2
        return 0
    if not args or args[0] not in QUICK:
        print(__doc__)
        return 2
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = abs(int(os.environ.get("VERIF_SEED", "1"))) % (1 << 48)
    except ValueError:
        seed = 1
    out, wall = check(pid, tier, seed)

    for f in glob.glob(os.path.join(EVID, pid + ".violation*.json")):
        os.unlink(f)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2), violations=len(out.violations),
              coverage=dict(evaluations=out.evaluations, distinct_nontrivial=len(out.hashes), rule=out.rule or "no run finished",
                            samples=out.samples, events_observed=out.events, sections=out.sections, runs=out.runs),
              assumptions=["f64 evaluation of the reference formulas is exact enough for the tolerances used",
                           "the domain exclusions listed in DESIGN.md"])
    if out.notes:
        ev["coverage"]["notes"] = out.notes
    if out.problems:
        ev["coverage"]["problems"] = out.problems
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for n, v in enumerate(out.violations[:3]):
        path = os.path.join(EVID, "%s.violation%d.json" % (pid, n))
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
            f.write("\n")
        print("%s (%s build): %s" % (pid, v["build"], v["what"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if out.violations:
        return 1
    if out.problems:
        for p in out.problems:
            print("no verdict: " + p)
        return 2
    print("%s held: %d executions (%d distinct), %s, %.0f s" % (
        pid, out.evaluations, len(out.hashes), ", ".join("%s %d" % kv for kv in sorted(out.events.items())), wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
