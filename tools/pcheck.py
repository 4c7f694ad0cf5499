#!/usr/bin/env python3
"""pcheck.py ID:PROP... | ID...: runs the checks against planted bugs (or patches under a path), several at once"""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/pcheck"


def sh(cmd, env=None):
    return subprocess.run(cmd, shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def one(a):
    i, _, pr = a.partition(":")
    if os.path.exists(i):
        patch, props = i, [pr]
    else:
        d = os.path.join(VERIF, "seeded", i)
        patch = d + "/patch.diff"
        props = [pr] if pr else [json.load(open(d + "/meta.json"))["property"]]
    w = os.path.join(SCR, os.path.basename(i) + "-" + props[0])
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    p = sh("git clone -q /repo %s/repo && git -C %s/repo apply %s" % (w, w, patch))
    if p.returncode:
        return a, "does not apply: " + p.stdout, 0, ""
    sh("cp -a /repo/Cargo.lock %s/repo/ 2>/dev/null" % w)
    t = time.time()
    p = sh("timeout 900 python3 %s/check.py %s" % (VERIF, props[0]), dict(os.environ, SA_REPO=w + "/repo", SA_WORK=w + "/work", SA_EVID=w))
    shutil.rmtree(w, ignore_errors=True)
    return a, p.returncode, time.time() - t, p.stdout


if __name__ == "__main__":
    n = 6
    args = sys.argv[1:]
    v = "-v" in args
    args = [x for x in args if x != "-v"]
    if args == ["all"]:
        args = sorted(os.listdir(os.path.join(VERIF, "seeded")))
    with ThreadPoolExecutor(n) as ex:
        for a, rc, t, out in ex.map(one, args):
            lines = out.strip().splitlines()
            print(a, "CAUGHT" if rc == 1 else "rc=%s" % rc, "%.0fs" % t, flush=True)
            for l in lines[-12:] if v or rc not in (0, 1) else [x[:220] for x in lines if not x.startswith(" ")][:3]:
                print("    ", l)
