#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks (check.py) and the reasons below."""
import json
import os

import check

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = {
    "C01": ("typestate abstract interpretation of MIR (driver protocol automaton)", "Fixpoint over abstract driver states; sound for the modelled std operations; user callbacks unconstrained; stack depth unbounded through a summarised bottom."),
    "C02": ("typestate abstract interpretation of MIR (driver protocol automaton)", "Fixpoint over abstract driver states; sound for the modelled std operations; sinks unconstrained; stack depth unbounded through a summarised bottom."),
    "C04": ("abstract interpretation of MIR (JSON reader on symbolic input)", "Fixpoint over reader states; every byte string is covered; std modelled. Non-termination is reported for loops which change nothing."),
    "C05": ("abstract interpretation of MIR in lockstep with a recogniser of RFC 8259", "Fixpoint over pairs of reader and recogniser states; every byte string is covered; std modelled."),
    "C06": ("abstract interpretation of MIR in lockstep with a recogniser of RFC 8259", "Fixpoint over pairs of reader and recogniser states; delivered values are compared as symbolic terms; floats are compared by sign and range only; std modelled."),
    "C09": ("symbolic dataflow over MIR (value terms and interval sets)", "Sound over the whole value range of every integer type; floats are tracked as terms; std modelled."),
    "C10": ("effect analysis over MIR (forwarded hook calls on opaque values)", "All paths of every wrapper hook around an unconstrained user type; std modelled."),
    "C13": ("symbolic dataflow over MIR (slot contents per atom kind and outcome)", "All paths of every atom() of the built-in sinks with a symbolic payload; std modelled."),
    "C14": ("induction over emitter states in MIR (iteration order and completeness)", "Base, step and end of every built-in emitter for symbolic lengths; std collections modelled as sequences."),
    "C16": ("error-flow analysis over MIR (drivers, reader, wrappers, sinks)", "All paths on which user code fails, from every abstract driver and reader state; std modelled."),
    "C18": ("abstract interpretation of MIR of a derived type family against a name table", "All paths of the emitters, key matchers and enum sinks generated for every attribute kind and style (sa/dspec.py); other types by genericity of the generator."),
    "C19": ("compile-fail witnesses, each with a compiling twin, checked by rustc", "All attribute forms at all positions, all duplicate, contradictory and misplaced combinations enumerated; the rule is decided by the compiler's acceptance of the program."),
    "C20": ("compile-pass witnesses checked by rustc (type-level)", "Enumerated shapes, bounds, names and scopes; decided by the type checker, generic witnesses hold for every instantiation."),
    "C21": ("abstract interpretation of MIR of a derived type family (all subsets of filled slots)", "finish() of every derived struct for every subset of present fields and every outcome of the defaults; other types by genericity of the generator."),
    "C22": ("abstract interpretation of MIR of a derived type family (emission conditions)", "All paths of every emitter, all answers of skip functions and is_optional; other types by genericity of the generator."),
    "C23": ("abstract interpretation of MIR of a derived type family (flattened emitters and key offers)", "All paths of emitters and sinks of flattened structs with unconstrained inner types; other types by genericity of the generator."),
    "C25": ("abstract interpretation of MIR (request sequences) and effect query over MIR", "All request sequences up to length 3 (thorough: 4) over two types with driver steps in between; every write of the library through a reference is typed; std modelled."),
    "C11": ("effect analysis over MIR (lockstep of wrapper and wrapped sink)", "Every event script up to the protocol's depth per wrapper over an unconstrained inner sink, all paths; std modelled."),
    "C12": ("abstract interpretation of MIR (inductive collection states)", "Base, step and end of every collection sink over unconstrained element sinks and symbolic lengths; std collections modelled as sequences."),
}
NA = {
    "C26": "Correct rounding of decimal-to-binary conversion is a fact about the numeric results of floating point multiplications and divisions over runtime values; no dataflow, typestate or type-level argument bounds the accumulated rounding error, and proving it needs a numeric decision procedure or an execution.",
    "C27": "The composition of writer, reader and both drivers on arbitrary values is an equality between two unbounded runtime computations; its static ingredients (escaping undone by the reader, wrappers transparent, numbers unchanged, elements in order) are decided under C05-C14 and C18-C23, the remaining end-to-end equality (including float formatting) is not a static fact.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for i in ids:
    if i in check.CHECKS:
        t, n = TECH[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, technique=t, level="other", level_note=n))
na = [dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in check.CHECKS]
doc = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na, notes="No hooks: the checks read the MIR of the unmodified tree.")
json.dump(doc, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
