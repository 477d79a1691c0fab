#!/usr/bin/env python3
"""Confirms planted bugs: plant.py <dir with edit.py, main.rs, meta.json> ... -> /verif/seeded/<id>

edit.py defines EDITS = [(file, old, new), ...]. The bug is kept if it changes lines of the original
repository, builds, passes the stable tests, and the demonstration fails with it and passes without.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

REPO, VERIF, W = "/repo", "/verif", "/tmp/plantwork"
BASE = "b7bc1bc"
DEMO = '''#!/bin/bash
# Runs main.rs against the crate in the current directory, everything is built in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
k = { path = "$repo", features = ["serde-serialize"] }
serde_json = "1"
urdf-rs = "0.6"
[workspace]
END
cd "$d" || exit 3
unset RUSTFLAGS
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cargo build --offline -q || exit 4
timeout 100 "$d/target/debug/demo"
'''


def sh(cmd, cwd, timeout=240, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def original_lines(path):
    rc, out = sh("git blame -s %s" % path, REPO)
    return [l.split()[0].lstrip("^").startswith(BASE) for l in out.splitlines()]


def main():
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    if not os.path.isdir(W):
        shutil.copytree(REPO, W, symlinks=True)
    sh("git fetch -q /repo && git checkout -qf --detach FETCH_HEAD || true; git checkout -qf .", W)
    rc, head = sh("git rev-parse HEAD", REPO)
    rc, head2 = sh("git rev-parse HEAD", W)
    assert head == head2, (head, head2)
    for d in sys.argv[1:]:
        pid = os.path.basename(d.rstrip("/"))
        sh("git checkout -qf .", W)
        edits = runpy.run_path(os.path.join(d, "edit.py"))["EDITS"]
        ok = True
        orig = 0
        for f, old, new in edits:
            p = os.path.join(W, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(pid, "EDIT MATCHES", s.count(old), repr(old[:80]))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        rc, diff = sh("git diff", W)
        # which lines of the old file are removed?
        cur, ln = None, 0
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
                bl = original_lines(cur)
            elif l.startswith("@@"):
                ln = int(l.split()[1].split(",")[0][1:]) - 1
            elif l.startswith("-") and cur:
                orig += bl[ln]
                ln += 1
            elif l.startswith(" "):
                ln += 1
        if orig == 0:
            print(pid, "CHANGES NO ORIGINAL LINE")
            continue
        rc, out = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > %s/target/vp-test.log 2>&1; "
                     "python3 /opt/vp/results.py /tmp/plant-res.json cargo:%s/target/vp-test.log" % (W, W), W,
                     env={"CARGO_TARGET_DIR": W + "/target", "CARGO_INCREMENTAL": "1", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only",
                          "RUSTUP_TOOLCHAIN": "stable"})
        res = json.load(open("/tmp/plant-res.json"))
        passed = set(res.get("passed", []))
        missing = stable - passed
        if missing:
            print(pid, "TESTS FAIL", sorted(missing)[:5])
            print(sh("grep -E '^error|panicked' -A4 %s/target/vp-test.log | head -20" % W, W)[1])
            continue
        out_dir = "/tmp/plantout/%s" % pid
        shutil.rmtree(out_dir, ignore_errors=True)
        os.makedirs(out_dir)
        open(out_dir + "/patch.diff", "w").write(diff)
        open(out_dir + "/demo.sh", "w").write(DEMO)
        os.chmod(out_dir + "/demo.sh", 0o755)
        shutil.copy(os.path.join(d, "main.rs"), out_dir)
        shutil.copy("/tmp/plants/Cargo.lock", out_dir)
        shutil.copy(os.path.join(d, "meta.json"), out_dir)
        rc_bad, o1 = sh("bash %s/demo.sh" % out_dir, W)
        rc_good, o2 = sh("bash %s/demo.sh" % out_dir, REPO)
        if rc_good != 0 or rc_bad in (0, 3, 4):
            print(pid, "DEMO bad=%d good=%d" % (rc_bad, rc_good), o1[-1500:], o2[-1500:])
            continue
        shutil.rmtree("%s/seeded/%s" % (VERIF, pid), ignore_errors=True)
        shutil.copytree(out_dir, "%s/seeded/%s" % (VERIF, pid))
        print(pid, "kept (demo with patch: %d)" % rc_bad, o1.strip().splitlines()[-1][:150] if o1.strip() else "")
    sh("git checkout -qf .", W)


main()
