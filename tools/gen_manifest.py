#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC, EX = "model_checking", "exploration"
NOTE = "Complete within the bounds listed per phase in the evidence file (small-scope exhaustive plus one-dimension sweeps); "
T = {
    "C01": (MC, "explicit-state enumeration of rule sets x token lists x positions; every match query on the real code compared with a reference model",
            NOTE + "trusts the 20-line reference matcher in mc/ref.py."),
    "C02": (MC, "explicit-state enumeration of rule sets x token lists x positions; match-all answers compared with a reference model",
            NOTE + "trusts the reference matcher in mc/ref.py."),
    "C03": (MC, "explicit-state exploration of all model runs (position, output) per configuration and input; the real output must be a model trace",
            NOTE + "trusts the reference model in mc/ref.py; ties between equally specific rules are left open."),
    "C04": (MC, "exhaustive enumeration of ordered on-match rule lists, class assignments and inputs; real outputs must be model traces",
            NOTE + "trusts the reference model; productions are distinct so that outputs identify the rule used."),
    "C05": (MC, "exhaustive enumeration of token sets and inputs; the real tokenizer is compared step by step with a model without regular expressions",
            NOTE + "trusts the reference tokenizer in mc/ref.py."),
    "C06": (MC, "exhaustive enumeration of whitespace settings and inputs against a run-based model of consolidation",
            NOTE + "default whitespace token assumed to be in the whitespace class."),
    "C07": (MC, "exhaustive enumeration of inputs with gaps and of histories of setting changes; outcomes, exceptions and warnings compared with a model",
            NOTE + "warnings are counted, their wording is not checked."),
    "C08": (MC, "exhaustive enumeration of call histories; match details after every call must describe a model run of that call",
            NOTE + "no claim after calls whose input cannot be tokenized."),
    "C09": (MC, "stateless exploration of all sequences of public operations up to a depth; answers compared with an untouched transliterator",
            NOTE + "depth 2 over 25 operations and 3 over 12 (thorough: 3 over 25), long repetitive histories up to thousands of calls."),
    "C10": (MC, "stateless exploration of the real code under a controlled scheduler: every interleaving of two or three threads at source-line granularity up to a preemption bound",
            NOTE + "switches happen between source lines of the package only (not within a line, nor inside the standard library)."),
    "C11": (MC, "exhaustive enumeration of configurations and of chains of dump/load steps on the real code; every loaded copy compared with the original and with the reference model",
            NOTE + "trusts the reference model in mc/ref.py; text levels 0-2."),
    "C12": (MC, "exhaustive enumeration of construction and loading routes x options against a two-flag model of error and ambiguity handling",
            NOTE + "ambiguity verdicts only on rule sets where it is undisputed."),
    "C13": (MC, "exhaustive enumeration of version labels in a grid, compared with a three-integer order model",
            NOTE + "labels are MAJOR.MINOR.PATCH as in the library's own versions."),
    "C14": (MC, "exhaustive enumeration of rule sets, each judged by evaluating all rules on all token windows, compared with the constructor's verdict",
            NOTE + "rule sets between the two clauses of the property are left open."),
    "C15": (MC, "exhaustive enumeration of rules written in easy-reading notation, printed from a model and read back through every construction route",
            NOTE + "bracket and whitespace tokens are not used inside context parts, whose notation cannot express them."),
    "C16": (MC, "complete enumeration of all named Unicode characters, through the YAML reader",
            "Complete over all named characters of the interpreter; positions and combinations bounded as listed in the evidence file."),
    "C17": (MC, "exhaustive enumeration of single and double faults at every location of valid settings, with the verdict predicted by the fault model",
            NOTE + "values that the schema documents as convertible are not counted as wrongly typed."),
    "C18": (MC, "exhaustive enumeration of rule shapes and of all declaration orders, compared with a stable sort and with each other",
            NOTE + "trusts mc/ref.py for the number of required tokens."),
    "C19": (MC, "exhaustive enumeration of productions, prune arguments and chains of prunings against a set-of-rules model",
            NOTE + "behaviour compared on all inputs up to a bounded length."),
    "C20": (MC, "exhaustive enumeration of rule sets; every node, edge and children list of the real graph, fresh and reloaded, is visited and checked against the rules",
            NOTE + "trusts the structural reading of rules in mc/ref.py."),
    "C21": (MC, "stateless exploration of all sequences of valid and invalid edits up to a depth on the real class, compared with a list-and-dictionary model",
            NOTE + "node indexes up to the number of nodes of the sequence, plus invalid ones of several types."),
    "C22": (MC, "stateless exploration of all histories of visiting, clearing and other operations on the real visit-logging transliterator, against lower and upper bounds from a model of visits",
            NOTE + "between the bounds the verdict is open, but must depend only on the visits since the last clear."),
    "C23": (MC, "exhaustive enumeration of token sequences through every form of every bundled transliterator, and of test tables against a table model",
            NOTE + "all sequences of up to three tokens for the larger bundled transliterator, longer ones for the small ones."),
    "C24": (MC, "exhaustive enumeration of command lines over sources, options and argument lists; standard output and exit status compared with the library called directly",
            NOTE + "run in-process through click's runner, a few in processes of their own."),
    "C25": (MC, "exhaustive enumeration of configurations; every generated test table is searched for an instance of every rule and its outputs are checked as runs of the reference model",
            NOTE + "one known finding (U+0085 in generated YAML)."),
    "C26": (MC, "exhaustive enumeration of all orders of tokens and classes and of dump/reload routes; all compressed texts must be one",
            NOTE + "this interpreter keeps insertion order in sets, so that permuting declarations enumerates the orders."),
    "C27": (MC, "exhaustive enumeration of single in-place modifications of every container of the settings or dumps, with a full comparison of the transliterator's state after each",
            NOTE + "values inside metadata are left out."),
    "C28": (MC, "exhaustive enumeration of folder layouts and sequences of loads, each in a process of its own, against a model of the registry",
            NOTE + "package names are distinct across folders."),
    "C29": (MC, "exhaustive enumeration of sequences of make-json commands from every initial state of the files on a scratch copy of the package; every file compared after every command",
            NOTE + "five scratch transliterators besides the bundled ones."),
    "C30": (MC, "exhaustive enumeration of rule sets, the pairs named in the logged warnings compared with those found by evaluating all rules on all token windows",
            NOTE + "pairs between the two clauses of the property may or may not be named."),
    "C31": (MC, "exhaustive enumeration of settings x construction routes; every reported attribute compared with its value computed from the settings",
            NOTE + "trusts the definitions in mc/checks/c31.py."),
    "C32": (MC, "exhaustive enumeration of faults in dumps (every part, singly and in pairs) and of truncations of their text, loaded by the implementation against the predicted verdict",
            NOTE + "trusts the list of faults in mc/checks/c32.py."),
    "C33": (MC, "exhaustive enumeration of process encodings and environments x file contents, every route that reads or writes files compared with the result computed from the text",
            NOTE + "a preferred encoding is simulated within one process; environments are real processes."),
    "C34": (MC, "exhaustive enumeration of incomplete configurations x inputs; the logged warnings compared one by one with the problems the model meets",
            NOTE + "wording of warnings is free."),
    "C35": (MC, "stateless exploration of the implementation: every schedule of two real threads with one preemption under a controlled scheduler",
            "Every schedule within the bound is executed on the real code. Bounds: two threads, one preemption, before the first executions of each source line of the package."),
    "C36": (MC, "exhaustive enumeration of rules, settings and graphs made by sequences of edits; every object dumped and loaded by the implementation in every form and compared",
            NOTE + "trusts the equality in mc/checks/c36.py."),
    "C37": (MC, "exhaustive enumeration of metadata by fields, valid values and faults; every one loaded by the implementation and the verdict and the fields named compared",
            NOTE + "trusts the lists of valid and invalid values in mc/checks/c37.py."),
    "C38": (MC, "exhaustive enumeration of operation sequences around a copy, for every way of copying; original and copy compared with transliterators never copied",
            NOTE + "a shallow copy shares parts with the original by design."),
    "C39": (MC, "fault injection at every point: an exception raised before every source line and at every function return a call reaches, executed on the real code, followed by all probes",
            NOTE + "points are source lines and returns of the package, at the first executions of each."),
}
checks = []
na = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    i = json.loads(line)["id"]
    if i in T:
        level, tech, note = T[i]
        checks.append({
            "property": i,
            "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": tech,
            "level": level,
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {
    "version": 1,
    "setup_cmd": "./check --setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "Checks import the code from /repo's working tree with the interpreter the repository is tested with; no hooks are needed. ./check ID --replay FILE re-runs a reported case.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
