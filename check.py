#!/usr/bin/env python3
"""Runs the check of one property: builds the harness against /repo's working tree in every
instrumented mode the property asks for, runs the workloads, reads what the monitors saw and decides.

    check.py C07 [quick|thorough]          exit 0 held / 1 violated / 3 no verdict
    check.py C07 --replay replays/x.json   re-runs the one case a violation was seen in
    check.py setup                         checks that the toolchain is complete

VERIF_SEED seeds every random choice, VERIF_TIER picks the tier (an argument overrides it).
"""
import glob
import json
import os
import signal
import subprocess
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
NIGHTLY = "nightly-2026-08-21-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
FINDINGS = os.path.join(VERIF, "known_findings.txt")

sys.path.insert(0, VERIF)
from plan import PLAN, LEVEL, ASSUMPTIONS, features_of  # noqa: E402


class NoVerdict(Exception):
    pass


# ------------------------------------------------------------------------------- building

def run(cmd, env=None, cwd=None, timeout=None, out=None, err=None):
    """Own process group, so that a timeout ends everything that was started."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                         stdout=out or subprocess.DEVNULL, stderr=err or subprocess.DEVNULL,
                         start_new_session=True)
    try:
        return p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return None


def stub_lib():
    """The repository's crate links jemalloc, which its own harness build never calls (the checking
    allocator is the global one): a stub library replaces a 40 s C build."""
    d = os.path.join(TARGET, "jem")
    os.makedirs(d, exist_ok=True)
    lib = os.path.join(d, "libjemalloc.a")
    if not os.path.exists(lib):
        o = os.path.join(d, "stub.o")
        if run(["gcc", "-c", "-fPIC", "-O1", os.path.join(VERIF, "stub", "jemalloc_stub.c"), "-o", o]) != 0:
            raise NoVerdict("gcc failed on the jemalloc stub")
        if run(["ar", "rcs", lib + ".tmp", o]) != 0:
            raise NoVerdict("ar failed on the jemalloc stub")
        os.rename(lib + ".tmp", lib)
    return lib


MODES = {
    # mode: (toolchain, rustflags, cargo arguments, binary below the target dir)
    "debug": (NIGHTLY, "", [], "debug"),
    "release": (NIGHTLY, "", ["--release"], "release"),
    "coredebug": (NIGHTLY, '--cfg CORE_DEBUG="true"', [], "debug"),
    "asan": ("nightly", "--cfg plain_alloc -Zsanitizer=address", ["--target", TRIPLE], TRIPLE + "/debug"),
    "tsan": ("nightly", "--cfg plain_alloc -Zsanitizer=thread", ["-Zbuild-std", "--target", TRIPLE, "--release"], TRIPLE + "/release"),
    "miri": ("nightly", "--cfg plain_alloc", None, None),
}


def base_env(mode):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST", "MIRI", "ASAN_", "TSAN_"))}
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, mode)
    e["JEMALLOC_OVERRIDE"] = stub_lib()
    e["RUSTFLAGS"] = ("--cfg verif_hooks -Awarnings " + MODES[mode][1]).strip()
    e["RUST_BACKTRACE"] = "0"
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=0"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:report_signal_unsafe=0"
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows"
    return e


def cargo(mode, verb, features):
    tool, _, extra, _ = MODES[mode]
    return ["cargo", "+" + tool] + verb + ["--offline", "--features", ",".join(features)] + (extra or [])


def build(mode, features, logdir, budget):
    if mode == "miri":
        return
    log = os.path.join(logdir, mode + ".build.log")
    with open(log, "wb") as f:
        rc = run(cargo(mode, ["build"], features), env=base_env(mode), cwd=HARNESS, timeout=budget, out=f, err=f)
    if rc != 0:
        with open(log, errors="replace") as f:
            tail = "".join(f.readlines()[-40:])
        raise NoVerdict("%s build of the harness failed (%s)\n%s" % (mode, rc, tail))


# ------------------------------------------------------------------------------- running

CRASH = {signal.SIGSEGV: "SIGSEGV", signal.SIGABRT: "SIGABRT", signal.SIGBUS: "SIGBUS",
         signal.SIGILL: "SIGILL", signal.SIGFPE: "SIGFPE", signal.SIGTRAP: "SIGTRAP"}


def tail_of(path, n=12000):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            size = f.tell()
            f.seek(max(0, size - n))
            return f.read().decode("utf-8", "replace")
    except OSError:
        return ""


def head_of(path, n=12000):
    try:
        with open(path, "rb") as f:
            return f.read(n).decode("utf-8", "replace")
    except OSError:
        return ""


def execute(prop, features, st, seed, logdir, budget, only=None):
    """One process of the harness. Returns (violation or None, result document or None)."""
    mode = st["mode"]
    tag = "%s.%s" % (mode, st["tag"])
    out = os.path.join(logdir, tag + ".json")
    for leftover in glob.glob(out + "*"):
        os.remove(leftover)
    args = ["--prop", prop, "--seed", str(seed), "--scale", str(st["scale"]), "--out", out,
            "--pct", str(st.get("pct", 100)), "--shard", st.get("shard", "0/1")]
    if only:
        args += ["--suite", only[0], "--case", str(only[1])]
    elif st.get("suite"):
        args += ["--suite", st["suite"]]
    env = base_env(mode)
    if mode == "miri":
        if st.get("miriflags"):
            env["MIRIFLAGS"] += " " + st["miriflags"]
        cmd = cargo(mode, ["miri", "run"], features) + ["--"] + args
    else:
        cmd = [os.path.join(TARGET, mode, MODES[mode][3], "verif_harness")] + args
    errp = os.path.join(logdir, tag + ".err")
    with open(errp, "wb") as f:
        rc = run(cmd, env=env, cwd=HARNESS, timeout=budget, err=f)
    doc = None
    try:
        with open(out) as f:
            doc = json.load(f)
    except (OSError, ValueError):
        pass
    where = tail_of(out + ".progress").split()
    suite, case = (where[0], where[1]) if len(where) >= 2 else (None, None)

    def violation(kind, what, s=suite, c=case):
        return {"property": prop, "mode": mode, "seed": seed, "stage": st, "suite": s, "case": c,
                "kind": kind, "what": what}

    err_all = head_of(errp, 60000)
    err_tail = tail_of(errp, 6000)
    if rc is None:
        raise NoVerdict("%s run of %s timed out after %d s (at %s)" % (mode, prop, budget, where))
    if rc == 0 and doc is not None and "violation" not in doc and "broken" not in doc:
        return None, doc
    if rc == 1 and doc is not None and "violation" in doc:
        v = doc["violation"]
        return violation("monitor", v["what"], v["suite"], v["case"]), doc
    if rc == 42:
        return violation("hang", head_of(out + ".hang")), doc
    if mode == "miri":
        for mark in ("Undefined Behavior", "memory leaked", "deadlock", "Data race"):
            if mark in err_all or mark in err_tail:
                return violation("miri: " + mark, pick(err_all, "error:")), doc
        if "abnormal termination" in err_all or "VERIF-ALLOC" in err_all:
            return violation("miri: abort", pick(err_all, "error:")), doc
        raise NoVerdict("miri ended with %s at %s\n%s" % (rc, where, err_tail))
    if mode == "asan" and rc == 77:
        return violation("address sanitizer", pick(err_all, "ERROR: AddressSanitizer")), doc
    if mode == "tsan" and rc == 66:
        return violation("thread sanitizer", pick(err_all, "WARNING: ThreadSanitizer")), doc
    if rc < 0 and -rc in CRASH:
        return violation("crash " + CRASH[-rc], err_tail or "the process died"), doc
    raise NoVerdict("%s run of %s ended with %s at %s: %s\n%s" % (
        mode, prop, rc, where, (doc or {}).get("broken", ""), err_tail))


def pick(text, mark):
    i = text.find(mark)
    return text[max(0, i):i + 3000] if i >= 0 else text[-3000:]


# ------------------------------------------------------------------------------- known findings

def known_findings(prop):
    """Lines `finding: property=<id> match=<text> what=<text>` of the committed file. `match` is the
    exact signature of the failing case; `fixed:` lines suppress nothing."""
    found = []
    try:
        with open(FINDINGS) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property=%s " % prop):
                    m, _, w = line.split(" match=", 1)[1].partition(" what=")
                    found.append((m, w))
    except OSError:
        pass
    return found


# ------------------------------------------------------------------------------- main

def stages_for(prop, tier, seed):
    out = []
    for st in PLAN[prop][tier]:
        for k in range(st.get("procs", 1)):
            s = dict(st)
            if st.get("procs", 1) > 1:
                s["shard"] = "%d/%d" % (k, st["procs"])
            s["tag"] = "%s%s.%d" % (st.get("suite", "all"), st.get("label", ""), k)
            # another stream of cases in every mode, all of them functions of VERIF_SEED
            s["seed"] = seed * 1000003 + {"debug": 0, "release": 1, "asan": 2, "tsan": 3, "miri": 4, "coredebug": 5}[s["mode"]] + 16 * st.get("salt", 0)
            out.append(s)
    return out


def check(prop, tier, seed):
    t0 = time.time()
    stub_lib()
    features = features_of(prop)
    logdir = os.path.join(TARGET, "logs", prop)
    os.makedirs(logdir, exist_ok=True)
    stages = stages_for(prop, tier, seed)
    budget = 780 if tier == "quick" else 6 * 3600
    modes = []
    for s in stages:
        if s["mode"] not in modes:
            modes.append(s["mode"])
    results, violations, broken = [], [], []
    lock = threading.Lock()
    slots = threading.Semaphore(8)
    stop = threading.Event()

    def left():
        return max(5, budget - (time.time() - t0))

    def one(s):
        with slots:
            if stop.is_set():
                return
            try:
                v, doc = execute(prop, features, s, s["seed"], logdir, left())
            except NoVerdict as e:
                with lock:
                    broken.append(str(e))
                stop.set()
                return
            with lock:
                if doc:
                    results.append((s, doc))
                if v:
                    violations.append(v)
                    if not any(m in "%s %s" % (v["kind"], v["what"]) for m, _ in known_findings(prop)):
                        stop.set()

    def guarded(f):
        # a stage that ends for any other reason must not pass for one that held
        def g(*a):
            try:
                f(*a)
            except Exception:
                with lock:
                    broken.append(traceback.format_exc())
                stop.set()
        return g

    @guarded
    def mode_thread(mode):
        try:
            build(mode, features, logdir, left())
        except NoVerdict as e:
            with lock:
                broken.append(str(e))
            stop.set()
            return
        mine = [s for s in stages if s["mode"] == mode]
        ths = []
        first = True
        for s in mine:
            if mode == "miri" and first:
                one(s)      # builds; the others find the build done
                first = False
                continue
            th = threading.Thread(target=guarded(one), args=(s,))
            th.start()
            ths.append(th)
        for th in ths:
            th.join()

    ths = [threading.Thread(target=mode_thread, args=(m,)) for m in modes]
    for th in ths:
        th.start()
    for th in ths:
        th.join()

    known, fresh = [], []
    for v in violations:
        text = "%s %s" % (v["kind"], v["what"])
        hit = [w for m, w in known_findings(prop) if m in text]
        (known if hit else fresh).append((v, hit))
    for _, hit in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]))
    for v, _ in fresh:
        rp = write_replay(prop, v)
        print("violated in %s build, suite %s case %s [%s]\n  %s" % (v["mode"], v["suite"], v["case"], v["kind"], v["what"][:1800].replace("\n", "\n  ")))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    evidence(prop, tier, seed, results, len(fresh), time.time() - t0, logdir)
    if fresh:
        return 1
    if not broken and len(results) != len(stages) and not known:
        broken.append("%d of %d stages gave a result" % (len(results), len(stages)))
    if broken:
        for b in broken:
            print("NO VERDICT: " + b)
        return 3
    return 0


def write_replay(prop, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    rp = os.path.join(d, "%s-%s-%s-%s.json" % (prop, v["mode"], v["suite"], v["case"]))
    with open(rp, "w") as f:
        json.dump(v, f, indent=1)
    return os.path.relpath(rp, VERIF)


def evidence(prop, tier, seed, results, nviol, wall, logdir):
    suites, events, rules, samples, per_mode = {}, {}, {}, [], {}
    evaluations = 0
    prints = {}
    for s, doc in results:
        out = os.path.join(logdir, "%s.%s.json" % (s["mode"], s["tag"]))
        for su in doc["suites"]:
            evaluations += su["cases"]
            m = per_mode.setdefault(s["mode"], {})
            m[su["suite"]] = m.get(su["suite"], 0) + su["cases"]
            rules[su["suite"]] = su["rule"]
            e = events.setdefault(su["suite"], {})
            for k, n in su["events"].items():
                e[k] = max(e.get(k, 0), n) if k.startswith("max ") else e.get(k, 0) + n
            for x in su["samples"][:2]:
                if len(samples) < 12 and x not in samples:
                    samples.append(x)
            fp = out + "." + su["suite"] + ".fps"
            try:
                with open(fp, "rb") as f:
                    data = f.read()
                got = prints.setdefault(su["suite"], set())
                for i in range(0, len(data) - 7, 8):
                    got.add(data[i:i + 8])
            except OSError:
                pass
    distinct = {k: len(v) for k, v in prints.items()}
    doc = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": sum(distinct.values()),
            "rule": " || ".join("%s: %s" % kv for kv in rules.items()) or "no suite finished",
            "samples": samples or ["no case finished"],
            "observed_events": events,
            "distinct_by_suite": distinct,
            "executions_by_build": per_mode,
        },
        "assumptions": ASSUMPTIONS.get(prop, []) + ASSUMPTIONS["*"],
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.rename(tmp, os.path.join(d, prop + ".json"))


def replay(prop, path):
    with open(path) as f:
        v = json.load(f)
    st = dict(v["stage"])
    logdir = os.path.join(TARGET, "logs", prop + "-replay")
    os.makedirs(logdir, exist_ok=True)
    features = features_of(prop)
    build(v["mode"], features, logdir, 1800)
    only = (v["suite"], v["case"]) if v["suite"] else None
    if only and v["kind"] not in ("thread sanitizer",):
        st["shard"] = "0/1"
    got, _ = execute(prop, features, st, v["seed"], logdir, 1800, only)
    if got:
        print("%s\n%s" % (got["kind"], got["what"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("the case held this time")
    return 0


def setup():
    stub_lib()
    for t in (NIGHTLY, "nightly"):
        if run(["cargo", "+" + t, "--version"]) != 0:
            print("toolchain %s is missing" % t)
            return 3
    with open(os.path.join(VERIF, "MANIFEST.json")) as f:
        m = json.load(f)
    for c in m["checks"]:
        if c["property"] not in PLAN:
            print("no plan for " + c["property"])
            return 3
    build("debug", ["log", "util", "cache", "mem", "misc"], TARGET, 900)
    print("setup ok")
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 3
    os.makedirs(TARGET, exist_ok=True)
    try:
        if a[0] == "setup":
            return setup()
        prop = a[0]
        if prop not in PLAN:
            print("unknown property " + prop)
            return 3
        if len(a) == 3 and a[1] == "--replay":
            return replay(prop, a[2])
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            print("unknown tier " + tier)
            return 3
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = sum(map(ord, os.environ["VERIF_SEED"]))
        seed &= 0xffffffff
        return check(prop, tier, seed)
    except NoVerdict as e:
        print("NO VERDICT: %s" % e)
        return 3


if __name__ == "__main__":
    sys.exit(main())
