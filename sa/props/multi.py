"""C03 and C16: collect what the other explorations decide about memory and errors."""
import importlib
import multiprocessing as mp
import os
import sys

from .common import *


def job(args):
    mod, fn, kw = args
    sys.setrecursionlimit(20000)
    rep = Report("x")
    err = None
    info = {}
    try:
        info = getattr(importlib.import_module("props." + mod), fn)(rep, **kw) or {}
    except Unknown as e:
        err = str(e)
    return dict(rep.viol), dict(rep.count), {str(k): v for k, v in rep.notes.items()}, list(rep.samples), err


def run_all(rep, prop, jobs, other=()):
    ctx = mp.get_context("fork")
    with ctx.Pool(min(len(jobs), 6)) as pool:
        res = pool.map(job, jobs, chunksize=1)
    for (mod, fn, kw), (viol, count, notes, samples, err) in zip(jobs, res):
        src = Report("x")
        src.viol = viol
        pick(rep, prop, src, other)
        for k, v in count.items():
            rep.inc(k, v)
        for s in samples[:3]:
            rep.sample("%s.%s: %s" % (mod, fn, s))
        rep.notes.update({"%s.%s: %s" % (mod, fn, k): v for k, v in notes.items()})
        if err:
            rep.notes["%s.%s: %s" % (mod, fn, err)] = 1
            rep.inc("undecided paths")
    rep.inc("explorations", len(jobs))


def ser(rep, unwind, levels):
    from . import drivers

    X = drivers.explore_ser(prog(), rep, unwind=unwind, levels=levels)
    drivers.note(rep, X)


def de(rep, unwind, levels):
    from . import drivers

    X = drivers.explore_de(prog(), rep, unwind=unwind, levels=levels)
    drivers.note(rep, X)


def sims(rep, tier, which):
    for mod, pid in which:
        r = Report(pid)
        getattr(importlib.import_module("props." + mod), "check_" + pid)(r, tier)
        rep.viol.update(r.viol)
        for k, v in r.count.items():
            rep.inc(k, v)
        rep.notes.update(r.notes)


def reader(rep, speedups=False):
    from . import jsonde

    C, E = jsonde.explore(rep, speedups)
    rep.inc("undecided paths", sum(E.unknown.values()))
    rep.notes.update(E.unknown)
    rep.inc("functions", len(E.funcs))


SIMS = [("values", "C10"), ("wrap", "C11"), ("colls", "C12"), ("values", "C13"), ("values", "C14")]
DSIMS = [("derives", "C18"), ("derives", "C21"), ("derives", "C22"), ("derives", "C23")]


def check_C16(rep, tier):
    from . import drivers

    lv = 3 if tier == "thorough" else drivers.LEVELS
    jobs = [
        ("multi", "ser", dict(unwind=False, levels=lv)),
        ("multi", "de", dict(unwind=False, levels=lv)),
        ("multi", "reader", {}),
        ("multi", "sims", dict(tier=tier, which=SIMS)),
        ("multi", "sims", dict(tier=tier, which=DSIMS)),
    ]
    run_all(rep, "C16", jobs)
    return dict(
        explanation="Error flow over the MIR: both drivers (every operation in every abstract state), the JSON reader, every wrapper, collection and primitive hook are interpreted with user code that may return an error at every call; on every path on which it did, the operation must return an error (the drivers: the same one).",
        coverage=dict(rule="user or driver call returned Err on the path => the operation returns Err; a result that is never looked at counts as an error"),
        assumptions=drivers.ASSUME,
    )
