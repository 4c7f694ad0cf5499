"""Compiles small programs against /repo's current tree and reports which of them the compiler rejects."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess

import build

TOOLCHAIN = "stable"
CRATES = ("deser", "deser_json", "deser_path", "deser_debug")


class Lib:
    """the crates of the repository, checked once"""

    def __init__(self):
        with build.Lock():
            self.build()

    def build(self):
        src = os.path.join(build.VERIF, "witness")
        if build.REPO != "/repo":
            dst = os.path.join(build.WORK, "witness")
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(src, dst, ignore=shutil.ignore_patterns("target"))
            p = os.path.join(dst, "Cargo.toml")
            s = open(p).read().replace('"/repo/', '"%s/' % build.REPO)
            open(p, "w").write(s)
            src = dst
        env = build._env()
        env["CARGO_TARGET_DIR"] = os.path.join(build.WORK, "target-w")
        env["RUSTFLAGS"] = "--cap-lints=allow"
        p = subprocess.run(
            ["cargo", "+" + TOOLCHAIN, "check", "--offline", "-q", "--message-format=json"],
            cwd=src,
            env=env,
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            text=True,
        )
        self.externs = {}
        self.dirs = set()
        msgs = []
        for line in p.stdout.splitlines():
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    self.dirs.add(os.path.dirname(f))
                    n = m["target"]["name"].replace("-", "_")
                    if n in CRATES and f.endswith(".rmeta"):
                        self.externs[n] = f
            elif m.get("reason") == "compiler-message":
                msgs.append(m["message"].get("rendered") or "")
        if p.returncode != 0 or len(self.externs) != len(CRATES):
            raise build.BuildError("the crates do not build:\n" + p.stderr + "\n".join(msgs))
        self.env = env

    def rustc(self, src, name, edition="2021"):
        """the errors of compiling src: (code, message, lines, rendered)"""
        d = os.path.join(build.WORK, "witness-tmp-%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, name + ".rs")
        with open(f, "w") as fh:
            fh.write(src)
        cmd = ["rustc", "+" + TOOLCHAIN, "--crate-type=lib", "--crate-name=" + name, "--edition=" + edition, "--emit=metadata"]
        cmd += ["--cap-lints=warn", "-Awarnings", "--error-format=json", "-o", os.path.join(d, name + ".rmeta"), f]
        for x in sorted(self.dirs):
            cmd += ["-L", "dependency=" + x]
        for k, v in sorted(self.externs.items()):
            cmd += ["--extern", "%s=%s" % (k, v)]
        p = subprocess.run(cmd, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        errs = []
        for line in p.stderr.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                errs.append((None, line, set(), line))
                continue
            if m.get("level") != "error":
                continue
            lines = set()
            for sp in m["spans"]:
                while sp is not None:
                    if sp["file_name"] == f and sp["is_primary"]:
                        lines.update(range(sp["line_start"], sp["line_end"] + 1))
                    e = sp.get("expansion")
                    if e is not None and not sp["is_primary"]:
                        break
                    sp = dict(e["span"], is_primary=True) if e else None
            errs.append(((m.get("code") or {}).get("code"), m["message"], lines, m.get("rendered") or ""))
        if p.returncode == 0:
            errs = []
        elif not errs:
            errs = [(None, "rustc failed", set(), p.stderr)]
        for x in (f, os.path.join(d, name + ".rmeta")):
            if os.path.exists(x):
                os.remove(x)
        return errs


def one(lib, w, n):
    head, body = w
    return [e for e in lib.rustc(head + "mod w {\n" + body + "\n}\n", "w%d" % n) if "aborting due to" not in e[1]]


def singles(lib, ws):
    """ws: (crate attributes and items, module text); the errors of each, compiled alone"""
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        return list(ex.map(lambda a: one(lib, a[1], a[0]), enumerate(ws)))


def together(lib, ws, name):
    """errors per witness, all compiled in one crate (an error of an early phase hides those of later ones)"""
    src, ranges, ln = [], [], 1
    for i, (head, body) in enumerate(ws):
        assert not head
        text = "mod w%d {\n%s\n}" % (i, body)
        n = text.count("\n") + 1
        ranges.append((ln, ln + n - 1))
        ln += n
        src.append(text)
    errs = lib.rustc("\n".join(src) + "\n", name)
    res = [[] for _ in ws]
    at = {}
    for i, (a, b) in enumerate(ranges):
        for x in range(a, b + 1):
            at[x] = i
    for e in errs:
        for i in {at[x] for x in e[2] if x in at}:
            res[i].append(e)
    return res, errs


def rejected(lib, ws, name="batch"):
    """for witnesses which must not compile: the errors of each; empty if it compiles"""
    res = []
    n = 256
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for r, _ in ex.map(lambda a: together(lib, ws[a : a + n], "%s%d" % (name, a)), range(0, len(ws), n)):
            res += r
    todo = [i for i, r in enumerate(res) if not r]
    for i, r in zip(todo, singles(lib, [ws[i] for i in todo])):
        res[i] = r
    return res


def accepted(lib, ws, name="batch"):
    """for witnesses which must compile: the errors of each; empty if it compiles"""
    plain = [i for i, w in enumerate(ws) if not w[0]]
    res = [[] for _ in ws]
    todo = [i for i, w in enumerate(ws) if w[0]]
    if plain:
        _, errs = together(lib, [ws[i] for i in plain], name)
        if errs:
            todo = list(range(len(ws)))
    for i, r in zip(todo, singles(lib, [ws[i] for i in todo])):
        res[i] = r
    return res


def clean():
    shutil.rmtree(os.path.join(build.WORK, "witness-tmp-%d" % os.getpid()), ignore_errors=True)
