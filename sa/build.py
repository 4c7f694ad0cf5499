"""Builds the analyzer and dumps the compiler's view of /repo's current tree."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
WORK = os.environ.get("SA_WORK", os.path.join(VERIF, "work"))
TOOLCHAIN = "nightly"
CRATES = ["deser", "deser_json", "deser_path", "deser_debug", "fixture"]
KINDS = {  # fixture crate, dumped crates, features, target directory
    "": ("fixture", CRATES, [], "target"),
    "speedups": ("fixture", CRATES, ["--features", "speedups"], "target-sp"),
    "derive": ("fixture-derive", ["deser", "fixture"], [], "target-de"),
}


class BuildError(Exception):
    pass


def _env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS")) and k not in ("CARGO_HOME",):
            del env[k]
    env["CARGO_NET_OFFLINE"] = "true"
    return env


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.check_output(
            ["rustc", "+" + TOOLCHAIN, "--print", "sysroot"], text=True, env=_env()
        ).strip()
    return _sysroot


def build_analyzer():
    p = subprocess.run(
        ["cargo", "+" + TOOLCHAIN, "build", "--offline", "--release", "-q"],
        cwd=os.path.join(VERIF, "analyzer"),
        env=_env(),
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
    )
    if p.returncode != 0:
        raise BuildError("analyzer does not build:\n" + p.stdout)
    return os.path.join(VERIF, "analyzer", "target", "release", "sa-driver")


def files_under(root, exts=(".rs", ".toml")):
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "work", "evidence"))
        for f in sorted(files):
            if f.endswith(exts):
                yield os.path.join(d, f)


def tree_hash(extra=()):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, x) for x in ("deser", "deser-json", "deser-path", "deser-debug", "deser-derive")]
    roots += [os.path.join(VERIF, "analyzer", "src"), os.path.join(VERIF, "fixture"), os.path.join(VERIF, "fixture-derive")]
    for r in roots:
        for f in files_under(r):
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    h.update(repr(extra).encode())
    with open(os.path.join(VERIF, "sa", "nodescend.txt"), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:24]


def fixture_copy(work, name="fixture"):
    """The fixture crate, with its paths pointing to the analysed repository."""
    if REPO == "/repo":
        return os.path.join(VERIF, name)
    for n in ("fixture", "fixture-derive"):  # one includes files of the other
        src = os.path.join(VERIF, n)
        dst = os.path.join(work, n)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(src, dst, ignore=shutil.ignore_patterns("target"))
        p = os.path.join(dst, "Cargo.toml")
        s = open(p).read().replace('"/repo/', '"%s/' % REPO)
        open(p, "w").write(s)
    return os.path.join(work, name)


class Lock:
    """one build at a time"""

    def __enter__(self):
        os.makedirs(WORK, exist_ok=True)
        self.f = open(os.path.join(WORK, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def dump(kind=""):
    """Returns the directory with the dumped crates (cached by content)."""
    with Lock():
        return _dump(kind)


def _dump(kind):
    fixture, crates, features, tdir = KINDS[kind]
    drv = build_analyzer()
    key = tree_hash((kind,))
    out = os.path.join(WORK, "dump-" + key)
    if os.path.exists(os.path.join(out, "done")):
        return out
    os.makedirs(WORK, exist_ok=True)
    for old in os.listdir(WORK):
        if old.startswith("dump-") and len(os.listdir(WORK)) > 24:
            shutil.rmtree(os.path.join(WORK, old), ignore_errors=True)
    tmp = out + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    target = os.path.join(WORK, tdir)
    # the wrapper must run again for these crates
    for fp in (os.path.join(target, "debug", ".fingerprint"), os.path.join(target, "debug", "build")):
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith(("deser", "fixture")):
                    shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    env = _env()
    env.update(
        CARGO_TARGET_DIR=target,
        CARGO_INCREMENTAL="0",
        RUSTC_WRAPPER=drv,
        SA_CRATES=",".join(crates),
        SA_BODY_CRATES="deser,deser_json,deser_path,deser_debug",
        SA_OUT=tmp,
        SA_NODESCEND=os.path.join(VERIF, "sa", "nodescend.txt"),
        RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=off --cap-lints=allow",
        LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"),
    )
    cmd = ["cargo", "+" + TOOLCHAIN, "check", "--offline", "-q"] + features
    p = subprocess.run(
        cmd, cwd=fixture_copy(WORK, fixture), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True
    )
    if p.returncode != 0:
        shutil.rmtree(tmp, ignore_errors=True)
        raise BuildError(p.stdout)
    for c in crates:
        if not os.path.exists(os.path.join(tmp, c + ".json")):
            raise BuildError("no dump of crate %s\n%s" % (c, p.stdout))
    open(os.path.join(tmp, "done"), "w").close()
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


if __name__ == "__main__":
    print(dump(*sys.argv[1:]))
