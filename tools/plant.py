#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy of /repo and writes seeded/<id>/.

  plant.py add SPEC.py   SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (main.rs)
                         and optionally SCRIPT (a demo.sh of its own), FEATURES
  plant.py check ID [PROPERTY...]   runs the checks against the planted bug in a scratch copy
"""
import json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/plant"
DEMO_SH = r'''#!/bin/bash
# run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
export HOME=/root CARGO_HOME=/root/.cargo CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
deser = { path = "$repo/deser", features = ["derive"] }
deser-json = { path = "$repo/deser-json"%s }
deser-path = { path = "$repo/deser-path" }
deser-debug = { path = "$repo/deser-debug" }
EOF
cd "$d" && timeout 250 cargo run --offline -q
'''


def sh(cmd, cwd=None, env=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def scratch():
    os.makedirs(SCR, exist_ok=True)
    r = SCR + "/repo"
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if not os.path.isdir(r):
        sh("cp -a /repo %s" % r)
    sh("git -C %s fetch -q /repo HEAD; git -C %s checkout -q -f %s; git -C %s checkout -q -- ." % (r, r, head, r))
    return r


def tests(r):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    p = sh("cargo test --workspace --no-fail-fast --offline -q && cargo test -p deser-json --tests --features speedups --no-fail-fast --offline -q && cd benchmark && RUSTC_BOOTSTRAP=1 cargo test --benches --no-fail-fast --offline -q deser_json", cwd=r, env=env)
    return p.returncode, p.stdout


def add(path):
    ns = {}
    exec(open(path).read(), ns)
    r = scratch()
    out = os.path.join(VERIF, "seeded", ns["ID"])
    tmp = SCR + "/" + ns["ID"]
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    if "SCRIPT" in ns:
        open(tmp + "/demo.sh", "w").write(ns["SCRIPT"])
    else:
        open(tmp + "/demo.sh", "w").write(DEMO_SH % (', features = ["speedups"]' if ns.get("SPEEDUPS") else ""))
    if "DEMO" in ns:
        open(tmp + "/main.rs", "w").write(ns["DEMO"].lstrip())
        shutil.copy(VERIF + "/tools/demo.lock", tmp + "/lock")
    for n, c in ns.get("FILES", {}).items():
        open(tmp + "/" + n, "w").write(c)
    os.chmod(tmp + "/demo.sh", 0o755)
    p = sh("bash %s/demo.sh" % tmp, cwd=r)
    if p.returncode != 0:
        print(ns["ID"], "DEMO FAILS ON THE UNCHANGED TREE", p.stdout[-3000:])
        return 1
    try:
        for f, old, new in ns["EDITS"]:
            fp = os.path.join(r, f)
            s = open(fp).read()
            if s.count(old) != 1:
                print(ns["ID"], "edit matches %d times: %r" % (s.count(old), old))
                return 1
            open(fp, "w").write(s.replace(old, new))
        diff = sh("git -C %s diff" % r).stdout
        base = sh("git -C %s blame -s --porcelain HEAD -- %s | grep -c ." % (r, ns["EDITS"][0][0])).stdout
        open(tmp + "/patch.diff", "w").write(diff)
        # the changed lines must be the original repository's
        bad = own_lines(r, diff)
        if bad:
            print(ns["ID"], "touches only lines of our own commits", bad)
            return 1
        rc, o = tests(r)
        if rc != 0:
            print(ns["ID"], "TESTS FAIL", o[-3000:])
            return 1
        p = sh("bash %s/demo.sh" % tmp, cwd=r)
        if p.returncode == 0:
            print(ns["ID"], "DEMO PASSES WITH THE CHANGE", p.stdout[-2000:])
            return 1
        print(ns["ID"], "ok, demo with the change:", p.returncode, p.stdout[:200])
    finally:
        sh("git -C %s checkout -- ." % r)
    json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(tmp + "/meta.json", "w"), indent=1)
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(tmp, out)
    shutil.rmtree(tmp)
    return 0


BASE = "f5abdaa"


def own_lines(r, diff):
    """removed lines (or, for pure additions, neighbours) that none of the original's files contain"""
    cur = None
    orig = {}
    own = []
    n_orig = 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
            orig[cur] = set(x.strip() for x in sh("git -C %s show %s:%s" % (r, BASE, cur)).stdout.splitlines())
        elif l.startswith("-") and not l.startswith("---"):
            if l[1:].strip() in orig[cur]:
                n_orig += 1
            else:
                own.append(l)
    return own


def check(i, props):
    r = scratch()
    d = os.path.join(VERIF, "seeded", i)
    props = props or [json.load(open(d + "/meta.json"))["property"]]
    p = sh("git -C %s apply %s/patch.diff" % (r, d))
    if p.returncode:
        print(i, "does not apply", p.stdout)
        return 1
    rv = 0
    try:
        for q in props:
            env = dict(os.environ, SA_REPO=r, SA_WORK=SCR + "/work")
            p = sh("python3 check.py %s quick" % q, cwd=VERIF, env=env)
            v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
            print("%s %s exit %d %s" % (i, q, p.returncode, "CAUGHT" if p.returncode == 1 and v else "MISSED"))
            if "-v" in sys.argv or p.returncode not in (0, 1):
                print(p.stdout[-3000:])
    finally:
        sh("git -C %s checkout -- ." % r)
    return rv


if __name__ == "__main__":
    if sys.argv[1] == "add":
        for f in sys.argv[2:]:
            add(f)
    else:
        a = [x for x in sys.argv[2:] if x != "-v"]
        if a[0] == "all":
            for x in sorted(os.listdir(VERIF + "/seeded")):
                check(x, [])
        else:
            check(a[0], a[1:])
