#!/usr/bin/env python3
"""Build the monitors against /repo's working tree and run the check of one property.

usage: check.py <property> [quick|thorough]
       check.py build            only build
       check.py replay <file>    run the case of a replay file again

exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict
"""
import json
import os
import re
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
TARGET = os.path.join(HARNESS, "target")
TSAN_TRIPLE = "x86_64-unknown-linux-gnu"


def say(*a):
    print(*a, flush=True)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env_with(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "MIRIFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(kw)
    return e


def run(cmd, timeout, env, cwd=HARNESS):
    """-> (exit code or None after a timeout, output)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out.decode("utf-8", "replace")


def build():
    """-> (binary, is the hook available)"""
    for flags, hook in (("--cfg k_monitor", True), ("", False)):
        target = TARGET if hook else TARGET + "-nohook"
        rc, out = run(["cargo", "build", "--release", "--offline"], 600,
                      env_with(RUSTFLAGS=flags, CARGO_TARGET_DIR=target))
        if rc == 0:
            return os.path.join(target, "release", "kmon"), hook
        log(out[-6000:])
        log("build with RUSTFLAGS=%r failed" % flags)
    return None, False


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1").strip())
    except ValueError:
        return 1


def replay_file(prop, name, text):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, "%s-%s.txt" % (prop, name))
    with open(p, "w") as f:
        f.write(text)
    return p


def kmon(binary, prop, tier, cap):
    ev = os.path.join(EVIDENCE, prop + ".json")
    cmd = [binary, prop, "--seed", str(seed()), "--tier", tier, "--verif", VERIF, "--evidence", ev, "--cap", str(cap)]
    p = subprocess.Popen(cmd, cwd=HARNESS, env=env_with(), stdout=subprocess.PIPE)
    try:
        out, _ = p.communicate(timeout=cap + 150)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        say(out.decode("utf-8", "replace"))
        log("the monitor did not end in time: no verdict")
        return 2
    say(out.decode("utf-8", "replace").rstrip("\n"))
    if p.returncode >= 0:
        return p.returncode if p.returncode in (0, 1) else 2
    sig = -p.returncode
    if sig in (signal.SIGKILL, signal.SIGTERM):
        log("the monitor was killed: no verdict")
        return 2
    # the code under test crashed the process: which case was it?
    inflight = os.path.join(REPLAYS, "inflight-%s.txt" % prop)
    seeds = []
    if os.path.exists(inflight):
        with open(inflight) as f:
            seeds = [int(x) for x in f.read().split() if x.isdigit()]
        os.remove(inflight)
    for s in seeds:
        rc, out = run([binary, prop, "--case", str(s), "--tier", tier, "--verif", VERIF], 120, env_with())
        if rc is not None and rc < 0 and -rc not in (signal.SIGKILL, signal.SIGTERM):
            r = replay_file(prop, "%016x" % s,
                            "property=%s\nseed=%d\ntier=%s\nmessage=the process crashed with signal %d\n%s\n"
                            % (prop, s, tier, -rc, out[-4000:]))
            log("case %d crashes with signal %d" % (s, -rc))
            crash_evidence(ev, prop, tier, s)
            say("VIOLATION property=%s replay=%s" % (prop, r))
            return 1
    log("the monitor crashed with signal %d, but none of the cases %s does alone: no verdict" % (sig, seeds))
    return 2


def crash_evidence(ev, prop, tier, s):
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(ev, "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed(), "level": "exploration",
                   "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the case which crashed the process",
                                "samples": [{"case_seed": s}]},
                   "wall_s": 0, "violations": 1}, f)


def build_tsan():
    return run(["cargo", "+nightly", "build", "-Zbuild-std", "--target", TSAN_TRIPLE, "--release", "--offline"], 300,
               env_with(RUSTFLAGS="-Zsanitizer=thread", CARGO_TARGET_DIR=TARGET + "-tsan"))


def tsan(tier):
    """-> (evidence, violation text or None)"""
    t = time.time()
    rc, out = build_tsan()
    if rc != 0:
        log(out[-3000:])
        return {"ran": False, "why": "the build with ThreadSanitizer failed"}, None
    rounds = 6000 if tier == "quick" else 60000
    binary = os.path.join(TARGET + "-tsan", TSAN_TRIPLE, "release", "kmon")
    n, calls = 0, 0
    for part in range(3):
        rc, out = run([binary, "mini", str(seed() * 10 + part), str(rounds // 3), "30"], 60 if tier == "quick" else 200,
                      env_with(TSAN_OPTIONS="halt_on_error=1 exitcode=66 detect_deadlocks=0 report_signal_unsafe=0"))
        if "WARNING: ThreadSanitizer: data race" in out or "MINI-VIOLATION" in out:
            return {"ran": True, "rounds": n}, out
        m = re.search(r"MINI rounds=(\d+) calls=(\d+)", out)
        if rc != 0 or not m:
            log(out[-2000:])
            return {"ran": False, "why": "no verdict, exit code %s" % rc, "rounds": n}, None
        n += int(m.group(1))
        calls += int(m.group(2))
    return {"ran": True, "rounds": n, "calls": calls, "wall_s": round(time.time() - t, 1)}, None


def miri(tier):
    t = time.time()
    many, rounds = (16, 1) if tier == "quick" else (64, 2)
    done = 0
    for part, rate in enumerate(("0.02", "0.2")):
        rc, out = run(["cargo", "+nightly", "miri", "run", "--offline", "--", "mini", str(seed() * 10 + part), str(rounds), "8"],
                      150 if tier == "quick" else 240,
                      env_with(CARGO_TARGET_DIR=TARGET + "-miri", XDG_CACHE_HOME=os.path.join(TARGET + "-miri", "cache"),
                               MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-validation -Zmiri-preemption-rate=%s "
                                         "-Zmiri-many-seeds=%d..%d" % (rate, part * many, (part + 1) * many)))
        done += len(re.findall(r"^MINI rounds=", out, re.M))
        bad = "MINI-VIOLATION" in out or "Data race detected" in out or "program deadlocked" in out
        # undefined behaviour in the crate itself; that of other crates is not its own
        for m in re.finditer(r"error: Undefined Behavior.*?-->\s*(\S+)", out, re.S):
            bad = bad or m.group(1).startswith("/repo/src/")
        if bad:
            return {"ran": True, "executions": done}, out[-12000:]
        if rc != 0:
            log(out[-3000:])
            return {"ran": False, "why": "no verdict, exit code %s" % rc, "executions": done}, None
    return {"ran": True, "executions": done, "rounds_each": rounds, "threads": "2..3", "wall_s": round(time.time() - t, 1)}, None


def check(prop, tier):
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = os.path.join(EVIDENCE, prop + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    binary, hook = build()
    if binary is None:
        log("the monitors cannot be built against /repo: no verdict")
        return 2
    conc = prop == "P18"
    cap = 240 if tier == "quick" else (330 if conc else 600)
    rc = kmon(binary, prop, tier, cap)
    if rc != 0 or not conc:
        return rc
    parts = {"lock_monitor": hook}
    bad = None
    for name, f in (("thread_sanitizer", tsan), ("miri", miri)):
        parts[name], text = f(tier)
        log(name, parts[name])
        if text is not None:
            log(text[-4000:])
            bad = replay_file(prop, name, "property=%s\ntier=%s\nfound by %s\n%s\n" % (prop, tier, name, text))
            break
    with open(ev) as f:
        e = json.load(f)
    e["coverage"].update(parts)
    if bad:
        e["violations"] = 1
    with open(ev, "w") as f:
        json.dump(e, f, indent=2)
    if bad:
        say("VIOLATION property=%s replay=%s" % (prop, bad))
        return 1
    return 0


def main(a):
    if a[:1] == ["build"]:
        binary, hook = build()
        say("built", binary, "hook:", hook)
        return 0 if binary else 1
    if a[:1] == ["replay"] and len(a) == 2:
        binary, _ = build()
        if binary is None:
            return 2
        return subprocess.call([binary, "replay", os.path.abspath(a[1]), "--verif", VERIF], cwd=HARNESS)
    if not a or not re.fullmatch(r"P\d\d", a[0]):
        log(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(a[0], "thorough" if tier == "thorough" else "quick")


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
