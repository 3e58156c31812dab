#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import kinds

NOTE = {
    "C01": "Threads assign, read and check named dimensions under a seeded scheduler that may switch at every line or bytecode of asta; each verdict must be explained by a value the name had during the check (interval semantics against a reference model).",
    "C02": "As C01 for named shapes, including the empty shape and every way to compose them.",
    "C03": "Concurrent, nested, recursive, rejected and aborted calls sharing symbol names; each verdict is compared with an independent solver that sees that call alone.",
    "C04": "Every call with a mismatch the model can prove must raise TypeError and, for arguments, not start the body. String annotations are a known finding.",
    "C05": "Bodies count executions, record the thread and objects, raise chosen exceptions; the caller must see the identical object or exception. Coroutines are a known finding.",
    "C06": "KeyboardInterrupt, SystemExit, MemoryError and RecursionError raised at a seeded bytecode inside asta, and failing output streams; afterwards everything is compared with a model that never saw the aborted operation.",
    "C07": "Histories of process starts, configuration files, environment values and decorations, with imports interrupted and switches flipped between decorations and from other threads.",
    "C08": "Process starts over generated directory trees with torn, vanishing, swapped and unreadable files and interrupted imports; option values compared with a reference reader.",
    "C09": "As C04/C05 with error raising off: no exception, the body once, at least one report exactly when the model says mismatch.",
    "C10": "Output is recorded per write and thread, with seeded switches between writes, nesting and aborted calls.",
    "C11": "Calls race with the first assignment of the names they use; accepted only if an assignment had begun.",
    "C12": "Rejected assignments of every kind race with valid ones, reads and checks.",
    "C13": "Process starts with each optional library absent, failing to load or present. torch is not installed: a stand-in module plays its part.",
    "C14": "isinstance under concurrent, failing and aborted activity, compared with the reference rules. One incomplete match with several '...' is a known finding.",
    "C15": "Annotations are created, derived, compared, hashed and printed in several threads, and checked before and after.",
    "C20": "Classes with generated bodies are decorated in histories and while other threads call their methods; every verdict, report and attribute is compared with the model of single methods.",
    "C16": "Eight processes with different hash seeds run the same programs in different orders; their verdict lists must be equal.",
}
NA = [
    ("C21", "Decided by the subscript expression alone at one point of one thread; no schedule, fault or history is involved."),
    ("C22", "The conformance of builtin and typing constructs is a function of the two inputs only; no nondeterminism for a simulator to control."),
    ("C23", "The text of a repr is a function of one value; nothing to schedule or to fault. That printing changes no verdict is part of C15."),
]


def main():
    data = {
        "version": 1,
        "setup_cmd": "python3 -m compileall -q sim check.py tools",
        "checks": [], "not_applicable": [{"property": p, "reason": r} for p, r in NA],
        "notes": "No hooks in /repo: the simulator uses sys.monitoring, sys.modules, sys.stdout, os.environ and the working directory as seams. "
                 "Replay a violation with: python3 check.py <id> --replay <file>.",
    }
    for prop in sorted(kinds.KINDS):
        data["checks"].append({
            "property": prop,
            "quick_cmd": "python3 check.py %s --tier quick" % prop,
            "thorough_cmd": "python3 check.py %s --tier thorough" % prop,
            "technique": "deterministic simulation with fault injection: seeded schedules and faults over the real code, checked against a reference model",
            "level": "exploration",
            "level_note": NOTE[prop],
        })
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")


main()
