#!/usr/bin/env python3
"""mutate.py OUT.json [files...]: small mechanical changes to the sources of /repo, one at a time, in
scratch copies; reports those which no monitor notices (reduced case numbers). A way to find holes:
the survivors are read by hand, most of them do not change any behaviour."""
import json
import os
import re
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/mut"
WORKERS = int(os.environ.get("MUT_WORKERS", "3"))
FILES = ["chain.rs", "node.rs", "iterator.rs", "ik.rs", "funcs.rs", "urdf.rs", "link.rs", "joint/joint.rs",
         "joint/joint_type.rs", "joint/mimic.rs", "joint/range.rs", "joint/velocity.rs"]
OPS = [
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / ", " + "]), (r" / ", [" * "]),
    (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" <= ", [" < "]), (r" >= ", [" > "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+= ", [" -= ", " = "]), (r" -= ", [" += ", " = "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"(?<![\w.])!(?=[\w(])", [""]), (r"\.rev\(\)", [""]), (r"\.is_some\(\)", [".is_none()"]),
    (r"\.is_none\(\)", [".is_some()"]), (r"\.inverse\(\)", [""]), (r"\.transpose\(\)", [""]), (r"\.abs\(\)", [""]),
    (r"\[0\]", ["[1]"]), (r"\[1\]", ["[0]", "[2]"]), (r"\[2\]", ["[1]"]), (r"\[3\]", ["[4]"]), (r"\[4\]", ["[5]"]), (r"\[5\]", ["[4]"]),
    (r"\b0\.0\b", ["1.0", "1e-7"]), (r"\b1\.0\b", ["0.0", "-1.0"]), (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]),
    (r"(?<![\w.])3(?![\w.])", ["2"]), (r"(?<![\w.])6(?![\w.])", ["5"]),
    (r"one\(\)", ["zero()"]), (r"zero\(\)", ["one()"]), (r"_x\b", ["_y"]), (r"_y\b", ["_z"]), (r"_z\b", ["_x"]),
    (r"\.x\b", [".y"]), (r"\.y\b", [".z"]), (r"\.min\b", [".max"]), (r"\.max\b", [".min"]),
    (r"\.translation\b", [".translation.inverse()"]), (r"\.reverse\(\);", [";"]), (r"reverse\(\)", ["len()"]),
    (r"\.take\([^()]*\)", [""]), (r"\.skip\([^()]*\)", [""]), (r"\.position_", [".rotation_"]), (r"\.last\(\)", [".first()"]), (r"\.first\(\)", [".last()"]),
    (r"if let Some", ["if let (false, Some"]), (r"\bif (?!let)([^{]+) \{", [r"if false && (\1) {", r"if true || (\1) {"]),
    (r"Some\((?:\w+)\)(?=;|,|$)", ["None"]), (r"\?;", [".ok();"]), (r"#\[cfg_attr\(feature = \"serde-serialize\".*\)\]", [""]),
    (r"retain\(\|x\| \*x != ", ["retain(|x| *x == "]), (r"\.max\(", [".min("]), (r"\.min\(", [".max("]),
    (r"any\(", ["all("]), (r"all\(", ["any("]), (r"\bcollisions\b", ["visuals"]), (r"\bpush\(", ["insert(0, "]),
    (r"find\(", ["rfind("]), (r"\.iter\(\)", [".iter().rev()", ".iter().skip(1)"]), (r"continue;", ["break;"]), (r"break;", ["continue;", ""]),
    (r"min\.", ["max."]), (r"max\.", ["min."]), (r"Err\(", ["Ok("]),
]


def mutants(rel):
    src = open(WORK + "/base/" + rel).read().split("\n")
    out = []
    skip = 0
    for n, line in enumerate(src):
        s = line.strip()
        if s.startswith("//") or not s or s.startswith("use ") or s.startswith("#![") or "monitor" in s:
            continue
        if s.startswith("#[cfg(test)]") or s.startswith("#[test]"):
            break
        code = line.split(" // ")[0]
        for pat, subs in OPS:
            for m in re.finditer(pat, code):
                for sub in subs:
                    new = code[:m.start()] + m.expand(sub) + code[m.end():]
                    if new != line:
                        out.append((n, new))
        if s.endswith(";") and not s.startswith("let ") and not s.startswith("return") and not s.startswith("pub ") and not s.startswith("type ") and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
            out.append((n, "// deleted"))
        if s.startswith(".") and s.count("(") == s.count(")") and not s.endswith(";"):
            out.append((n, "// deleted"))
    seen = set()
    res = []
    for n, new in out:
        if (n, new) not in seen:
            seen.add((n, new))
            res.append((rel, n, src[n], new))
    return res


PROPS = os.environ.get("MUT_PROPS", "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P19 P20 P21 P22 P23 P24 P25 P27 P28 P26 P18").split()
FIRST = {"chain.rs": ["P02", "P01", "P15", "P06", "P20"], "node.rs": ["P03", "P01", "P17", "P05"], "iterator.rs": ["P03"],
         "ik.rs": ["P08", "P10", "P09", "P11", "P21"], "funcs.rs": ["P07", "P16"], "urdf.rs": ["P12", "P13", "P14"],
         "link.rs": ["P13", "P15"], "joint/joint.rs": ["P01", "P04", "P19"]}


def prepare(k):
    d = "%s/w%d" % (WORK, k)
    if not os.path.isdir(d):
        os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        shutil.rmtree(d + "/repo/target", ignore_errors=True)
    shutil.rmtree(d + "/repo/src", ignore_errors=True)
    subprocess.run(["cp", "-a", WORK + "/base", d + "/repo/src"], check=True)
    shutil.rmtree(d + "/harness", ignore_errors=True)
    os.makedirs(d + "/harness")
    for f in ("Cargo.toml", "Cargo.lock", "src"):
        subprocess.run(["cp", "-a", V + "/harness/" + f, d + "/harness/" + f], check=True)
    p = d + "/harness/Cargo.toml"
    t = open(p).read().replace('path = "/repo"', 'path = "%s/repo"' % d).replace("opt-level = 2", "opt-level = 1").replace("debug = 1", "debug = 0")
    t = t.replace("incremental = false", "incremental = true")
    open(p, "w").write(t)
    return d


def build(d):
    return subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=d + "/harness",
                          env=dict(os.environ, RUSTFLAGS="--cfg k_monitor -Awarnings", CARGO_TARGET_DIR=d + "/target"),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def judge(d, rel, cases):
    order = FIRST.get(rel, []) + [p for p in PROPS if p not in FIRST.get(rel, [])]
    order = [p for p in order if p in PROPS]
    for p in order:
        c = cases // 40 if p in ("P18", "P26") else cases // 3 if p in ("P12", "P13", "P14") else cases
        try:
            r = subprocess.run([d + "/target/release/kmon", p, "--seed", "7", "--verif", d, "--evidence", d + "/e.json", "--cases", str(c)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        except subprocess.TimeoutExpired:
            return p + " timeout"
        if r.returncode == 1:
            return p
        if r.returncode != 0:
            return p + " rc=%d" % r.returncode
    return None


def main():
    out = sys.argv[1]
    if not os.path.isdir(WORK + "/base"):
        shutil.copytree("/repo/src", WORK + "/base")
    files = sys.argv[2:] or FILES
    ms = [m for f in files for m in mutants(f)]
    random.Random(5).shuffle(ms)
    lim = int(os.environ.get("MUT_MAX", "100000"))
    ms = ms[:lim]
    print(len(ms), "mutants", flush=True)
    q = queue.Queue()
    for k in range(WORKERS):
        d = prepare(k)
        b = build(d)
        assert b.returncode == 0, b.stdout.decode()[-2000:]
        shutil.copy(V + "/known_findings.txt", d)
        q.put(d)
    res = []

    def one(m):
        rel, n, old, new = m
        d = q.get()
        f = "%s/repo/src/%s" % (d, rel)
        try:
            orig = open(WORK + "/base/" + rel).read()
            lines = orig.split("\n")
            lines[n] = new
            open(f, "w").write("\n".join(lines))
            if build(d).returncode != 0:
                r = "nobuild"
            else:
                r = judge(d, rel, 12000) or judge(d, rel, 100000) or "SURVIVED"
            open(f, "w").write(orig)
        finally:
            q.put(d)
        res.append({"file": rel, "line": n + 1, "old": old.strip(), "new": new.strip(), "by": r})
        if r not in ("nobuild",) and (r == "SURVIVED" or "rc" in r or "timeout" in r):
            print("%s %s:%d  %s  ==>  %s" % (r, rel, n + 1, old.strip(), new.strip()), flush=True)
        json.dump(res, open(out, "w"), indent=0)

    with ThreadPoolExecutor(WORKERS) as ex:
        list(ex.map(one, ms))
    by = {}
    for r in res:
        by[r["by"]] = by.get(r["by"], 0) + 1
    print(by)


main()
