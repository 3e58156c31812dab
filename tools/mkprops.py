#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the fields stay uniform)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(obs), "hook_needed": None}})

p("C01", "Named dimensions are late-bound and never lose an assignment",
  "Every checked call judges a named dimension by the value most recently assigned to it at the moment the argument or result is examined, however often, from whichever thread, and to whichever integer it was reassigned before. An assignment that has returned is never lost, undone or delayed; one that overlaps the check is seen either as made or as not yet made. Reading a named dimension gives that same current value, or a symbolic placeholder if it was never assigned.",
  ["schedules", "histories"],
  "All interleavings of threads that read, assign and check against named dimensions, and all assignment histories (back to an earlier value, to 0, inside a function body, while annotations that use the name exist or are being created).",
  "Tests assign one dimension once, in one thread, before any call; no test reassigns, assigns from a second thread, or assigns between the argument and the result check.",
  ["asta/dims.py", "asta/substitution.py", "asta/origins.py"],
  [("proxy object installed in place of the module; attribute reads and writes go to a symbol map", "asta/dims.py"),
   ("substitute() replaces symbols by current values at check time; refresh() rebuilds the annotation for every check", "asta/substitution.py, asta/origins.py")],
  [("symbol map", "name -> int, or None once the name was read but never assigned", "asta/dims.py")],
  ["result of a decorated call", "value of dims.<NAME>"])

p("C02", "Named shapes are late-bound wherever they stand in an annotation",
  "A named shape used alone, beside other sizes, unpacked, or concatenated on either side with tuples and other named shapes stands, in every checked call, for the tuple most recently assigned to it when the argument or result is examined. An assignment that has returned is never lost, whatever other threads read, assign or check at the same time. Reading a named shape gives its current tuple, or a placeholder if it was never assigned.",
  ["schedules", "histories"],
  "All interleavings of threads that read, assign and check against named shapes, all assignment histories including the empty shape, and all ways of composing named shapes in an annotation.",
  "Tests assign three shapes once before any call; they never reassign one, share it between threads, or put a tuple on the left of a named shape, as the README does.",
  ["asta/shapes.py", "asta/placeholder.py", "asta/substitution.py", "asta/origins.py"],
  [("placeholder map behind attribute access", "asta/shapes.py"), ("composite placeholders and unpacking", "asta/placeholder.py"),
   ("recursive substitution and flattening at check time", "asta/substitution.py, asta/origins.py")],
  [("placeholder map", "name -> placeholder or tuple", "asta/shapes.py")],
  ["result of a decorated call", "value of shapes.<NAME>"])

p("C03", "Symbols are solved jointly within a call and never shared between calls",
  "Within one checked call, all sizes written with symbols in the arguments, nested containers and the result must have a common solution, and if they have one the call is accepted. Nothing a symbol matched in one call, whether concurrent, enclosing, nested, recursive, earlier, rejected or aborted, affects the verdict of any other call or isinstance check. Assigning a named dimension never binds a symbol of the same name.",
  ["schedules", "histories"],
  "All interleavings of calls that use the same symbols in several threads, all nestings and recursions of checked calls, and all histories of accepted, rejected and aborted calls before.",
  "Tests call functions with symbols one at a time, at top level, once each, so no equation of one call could meet another call.",
  ["asta/decorators.py", "asta/origins.py", "asta/utils.py", "asta/symbols.py"],
  [("a fresh equation set per call threaded through every check", "asta/decorators.py, asta/origins.py"), ("solver for the collected system", "asta/utils.py")],
  [("equation set", "equations gathered so far in one call", "asta/decorators.py")],
  ["result of a decorated call", "isinstance()"])

p("C04", "A mismatching argument or result never gets through a checked call",
  "With checking and error raising on, a call given an argument that does not match its annotation raises TypeError and the function body never starts. A result that does not match the return annotation raises TypeError and never reaches the caller. This holds for positional, keyword and default arguments and inside nested containers, in any thread, nesting depth and call history.",
  ["schedules", "histories", "inputs"],
  "All schedules and call histories over functions with asta types at any position and nesting; each rejected call sits between, inside or beside other calls.",
  "Tests reject a dozen fixed calls, each alone; none checks that the body did not run, and none follows or overlaps another call.",
  ["asta/decorators.py", "asta/origins.py", "asta/utils.py", "asta/_array.py", "asta/_tftensor.py"],
  [("arguments checked before the call and result after it", "asta/decorators.py"), ("recursive annotation checker", "asta/origins.py")],
  [], ["exception from a decorated call", "whether the body ran"])

p("C05", "A conforming call behaves exactly like the undecorated function",
  "A checked call whose arguments and result match their annotations runs the function body exactly once, in the calling thread, with the very objects passed in, and returns the very object the body returned. An exception raised by the body reaches the caller unchanged, and the body is never re-run. Checking neither consumes nor alters the arguments or the result, and never refuses a conforming call, whatever else is running.",
  ["schedules", "histories", "fault_sequences"],
  "All schedules and histories of calls, including bodies that raise any kind of exception, call further checked functions, or recurse.",
  "Tests look only at whether a call raises; none counts executions, compares identities, or lets a body raise.",
  ["asta/decorators.py", "asta/origins.py"],
  [("wrapper calls the function once between the checks and returns its result", "asta/decorators.py"), ("parameter binding that skips self/cls and fills defaults", "asta/decorators.py")],
  [], ["return value or exception of a decorated call", "execution count of the body"])

p("C06", "An aborted check leaves no trace",
  "If a check, an assignment or a call is cut short at any point by an interrupt, an allocation failure, a failing output stream or an exception from the body, the abort reaches the caller and is never turned into a verdict. Afterwards every later check, call, assignment and report, in any thread, behaves as if the aborted operation had never been made, except that an aborted assignment may have taken effect completely. Work in progress in other threads is unaffected.",
  ["crash_points", "schedules", "fault_sequences"],
  "Every point inside the library at which an asynchronous exception can land, every write to the output stream that can fail, in any history and with other threads in the middle of checks.",
  "No test interrupts anything or makes output fail; abort points number in the hundreds per call.",
  ["asta/decorators.py", "asta/origins.py", "asta/dims.py", "asta/shapes.py", "asta/config.py", "asta/display.py"],
  [("per-call state lives in locals; shared state changes by single assignments", "asta/decorators.py, asta/dims.py, asta/shapes.py")],
  [("shared configuration object", "options, read by every check", "asta/config.py")],
  ["outcome of later operations"])

p("C07", "Whether a function is checked is fixed by the switches at decoration time",
  "A function or class is checked if and only if, when it is decorated, the configuration says on and the ASTA_TYPECHECK environment variable is unset or \"1\"; otherwise the decorator hands back the very same object. Every later decoration is decided afresh from the switches as they then are, and changing the switches never alters functions decorated earlier. The start-up warning appears exactly when checking is on and pass messages are off.",
  ["histories", "configurations", "schedules"],
  "All histories of setting and unsetting the environment variable (before import, between decorations, from other threads), restarts, and both values of the configuration switches.",
  "Tests set the variable to 1 once at import and never turn checking off.",
  ["asta/decorators.py", "asta/warning.py", "asta/config.py"],
  [("combination of the configuration option with the environment variable on decoration and on import", "asta/decorators.py, asta/warning.py")],
  [("on", "configured switch", "asta/config.py")],
  ["identity of the decorator's result", "verdicts of later calls", "stdout at import"])

p("C08", "Configuration is the first file found over the defaults, all or nothing",
  "At import every option takes the value the first existing configuration file in search order (astarc, .astarc, pyproject.toml, setup.cfg, parents, ASTARC, home) gives it, and the shipped default otherwise; files later in the order contribute nothing. If that file cannot be read or parsed the import fails, and a later import works from what is then on disk; it never proceeds with settings the file does not state. Once loaded, options do not change until the process restarts, whatever happens to the files.",
  ["configurations", "fault_sequences", "crash_points"],
  "All combinations of configuration files and option subsets, and all faults while they are read: failing opens and reads, files that vanish after being found, and files torn at any byte by an interrupted writer; any number of restarts and retries.",
  "Tests run only with the repository's own complete .astarc, read once without faults.",
  ["asta/config.py", "asta/_internal.py", "asta/defaults/astarc"],
  [("search order generator, parser and default overlay", "asta/config.py"), ("single cached configuration object set only after a complete load", "asta/config.py, asta/_internal.py")],
  [("cached options", "the process-wide configuration", "asta/_internal.py")],
  ["behaviour of decorated functions after import", "exceptions from import"])

p("C09", "With error raising off, mismatches are reported and nothing else changes",
  "With error raising off, a mismatch never makes a checked call raise: the body still runs exactly once with the given objects and its result is returned. Every call with a mismatching argument or result prints at least one failure report before the call returns, and a call in which everything matches prints none. This holds for every kind of annotation and every kind of wrong value, in any thread and after any history.",
  ["schedules", "histories", "inputs"],
  "All schedules and histories of matching and mismatching calls under the report-only configuration, with wrong values of any kind at any nesting.",
  "Every test runs with error raising on.",
  ["asta/display.py", "asta/origins.py", "asta/decorators.py"],
  [("single error handler that prints or raises", "asta/display.py"), ("checkers continue after a reported error", "asta/origins.py")],
  [], ["stdout", "return value of a decorated call"])

p("C10", "Reports name the right function and argument and appear when configured",
  "With pass messages on, every checked call prints one header naming its function and one pass line for each asta-annotated value it accepts; with pass messages off, a passing call prints nothing. With pass messages off, each failure is reported directly after a header naming the function whose check failed, and a failure message about a single value names the argument it was passed as. This holds when checked calls run concurrently, nest, recurse, raise or are aborted.",
  ["schedules", "histories"],
  "All interleavings of failing and passing calls in several threads, and all nestings and histories of calls, in all four combinations of the two output options.",
  "No test looks at the output.",
  ["asta/display.py", "asta/decorators.py", "asta/origins.py"],
  [("header built from the function under check and handed to the handlers with the options", "asta/display.py, asta/decorators.py")],
  [("function under check", "whose header a failure prints", "asta/decorators.py")],
  ["stdout", "exception message"])

p("C11", "A check never passes on a placeholder that was never assigned",
  "A checked call whose annotation uses a named dimension or shape that has not been assigned fails, with an error that names it, instead of accepting or ignoring the value; with error raising off it reports the same. From the moment the name is assigned, by any thread, calls are judged by its value. Failed calls, reads and rejected assignments before that never count as an assignment.",
  ["schedules", "histories"],
  "All interleavings of first reads, first assignments, rejected assignments and checks of names in several threads, for names used alone, in expressions and in compositions.",
  "Tests assign every name before its first checked call.",
  ["asta/substitution.py", "asta/origins.py", "asta/dims.py", "asta/shapes.py"],
  [("uninitialised names detected while substituting", "asta/substitution.py")],
  [("unassigned marker", "None in the dimension map, placeholder in the shape map", "asta/dims.py, asta/shapes.py")],
  ["exception or report of a decorated call"])

p("C12", "A rejected assignment changes nothing",
  "Assigning anything but an integer to a named dimension, or anything but a tuple of integers to a named shape, raises TypeError. Afterwards reads and checks of that name, and of every other name, give exactly what they would have given without the attempt, whether the name had a value, had only been read, or was new. This holds while other threads assign, read and check the same name.",
  ["schedules", "histories", "inputs"],
  "All histories mixing valid and invalid assignments to the same and other names, in any threads and interleavings.",
  "One test makes one invalid dimension assignment and does not look at the name again; invalid shape assignments are not tested.",
  ["asta/dims.py", "asta/shapes.py"],
  [("type validation before the map is written", "asta/dims.py, asta/shapes.py")],
  [], ["value of dims.<NAME> and shapes.<NAME>", "verdicts of later calls"])

p("C13", "A missing tensor library disables only its own annotations",
  "Whichever of the optional tensor libraries cannot be imported when the process starts, asta itself imports and annotations for numpy and for the libraries present are enforced exactly as always. Annotations of a missing library can be imported, and any attempt to subscript them or check against them raises ImportError naming the library. After a restart with the library available it is enforced normally.",
  ["configurations", "fault_sequences"],
  "All sequences of process starts in which each optional library is present, absent, or fails to import, with checks and calls after each start.",
  "The test environment has one fixed combination (TensorFlow present, torch absent).",
  ["asta/switchboard.py", "asta/unusable.py", "asta/constants.py", "asta/origins.py", "asta/display.py"],
  [("guarded imports with stand-in modules", "asta/constants.py"), ("switchboard choosing real or unusable classes", "asta/switchboard.py, asta/unusable.py")],
  [], ["import asta", "subscription and isinstance", "decorated calls"])

p("C14", "isinstance verdicts depend only on the annotation and the value",
  "Checking a value against an annotation gives, in every thread and at every time, the answer of the documented rules: exact dtype (or dtype kind), exact sizes, -1 for one positive size, ... for any run of positive sizes including none, () for scalars, and expressions that have a common solution. No earlier, concurrent, failed or aborted check, call or assignment changes that answer. A decorated parameter with the same annotation accepts exactly the same values.",
  ["schedules", "histories", "inputs"],
  "All schedules and histories of checks over generated annotations and values of all available array libraries, with and without the decorator.",
  "Tests check each annotation once in one thread; patterns with several ellipses are only tried on shapes with distinct sizes, and no test compares isinstance with the decorator.",
  ["asta/utils.py", "asta/_array.py", "asta/_tftensor.py", "asta/_tensor.py", "asta/origins.py"],
  [("pattern matcher and equation solver", "asta/utils.py"), ("metaclass instance checks", "asta/_array.py, asta/_tftensor.py, asta/_tensor.py")],
  [], ["isinstance()", "result of a decorated call"])

p("C15", "Annotations are immutable values",
  "Creating, hashing, comparing, printing, further subscripting or nesting an annotation in a typing container, in any order and from any thread, never changes what that or any other annotation accepts. Subscripting an annotation that already has a dtype with a shape keeps the dtype. Annotations with the same dtype and shape compare equal and have equal hashes whenever and from whatever they were made, and annotations that differ in either compare unequal.",
  ["schedules", "histories"],
  "All histories and interleavings of creation, derivation, hashing, comparison and use of annotations.",
  "Tests compare a few freshly made annotations; none hashes one, derives one from another, or uses one after deriving from it.",
  ["asta/classes.py", "asta/_array.py", "asta/parser.py", "asta/_tftensor.py", "asta/_tensor.py"],
  [("each subscription builds a new class", "asta/classes.py"), ("equality and cached hash on the metaclass", "asta/classes.py, asta/_array.py")],
  [("cached hash", "hash stored on the annotation class", "asta/classes.py")],
  ["==, hash(), isinstance(), decorated calls"])

p("C16", "Verdicts are the same in every process",
  "The same sequence of annotations, assignments, checks and calls gives the same verdicts in every process, whatever the interpreter's hash randomisation and whatever was checked before. This includes systems of non-linear and under-determined size equations.",
  ["configurations", "histories"],
  "All hash seeds and all programs of checks, including equation systems outside the fragment a simple model can solve.",
  "Tests run with one fixed hash seed; the equation system is kept in hash-ordered sets.",
  ["asta/utils.py", "asta/substitution.py", "asta/origins.py"],
  [("solver called on hash-ordered sets of equations and symbols", "asta/utils.py")],
  [], ["isinstance()", "results of decorated calls"])

p("C20", "Decorating a class equals decorating each of its methods",
  "Decorating a class with checking on checks exactly the annotated instance, class and static methods it defines, each as if decorated on its own, and returns the same class. Everything else - other attributes, attributes taken from elsewhere, its bases, metaclass and subclasses - stays the same object. This holds for any class body, for instances and subclasses made before or after, and in any history and schedule; a conforming call made by another thread while the class is being decorated is never refused.",
  ["programs", "schedules", "histories"],
  "All class definitions with methods of every kind, any other attributes and any way to reach a method, decorated at any point of a history while other threads call.",
  "No test decorates a class.", ["asta/decorators.py"],
  [("loop over the class dictionary re-wrapping functions, classmethods and staticmethods", "asta/decorators.py")],
  [("class dictionary", "attributes replaced one by one while the class is in use", "asta/decorators.py")],
  ["identity of class attributes", "results of calls of methods"])

# Not applicable ones.
p("C21", "Malformed annotations are rejected when they are written",
  "Subscripting with two consecutive ellipses, several scalar markers, an unsupported size or a dtype of another library raises TypeError at once, and every well-formed subscript is accepted.",
  ["inputs"], "All subscripts.", "Tests try a few.", ["asta/parser.py", "asta/classes.py"],
  [("subscript parser", "asta/parser.py")])
p("C22", "Standard type annotations are enforced on request",
  "With checking of non-asta types on, values annotated with builtin and typing constructs are accepted exactly when they conform; with it off they are ignored.",
  ["inputs", "configurations"], "All standard annotations and values.", "No test turns the option on.", ["asta/origins.py"],
  [("checker tables by origin type", "asta/origins.py")])
p("C23", "Printed annotations describe the annotation",
  "The printed form of an annotation or a checked value states its class, dtype and shape correctly.",
  ["inputs"], "All annotations and arrays.", "No test looks at the text.", ["asta/classes.py", "asta/display.py"],
  [("repr of annotation classes", "asta/classes.py")])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
