"""Which violations belong to which property, and how much to run."""

STOPS = {"hang", "deadlock", "import", "crash"}
VERDICT = {
    "missed-arg", "missed-ret", "missed-unassigned", "refused", "crash", "wrong-exc", "body-count", "build", "read",
    "write-refused", "bad-accepted", "bad-exc", "unassigned-name", "soft-raise", "soft-missing", "soft-spurious",
    "isinst", "isinst-exc", "agree",
} | STOPS

KINDS = {
    "C01": VERDICT,
    "C02": VERDICT,
    "C03": VERDICT,
    "C04": {"missed-arg", "missed-ret", "missed-unassigned", "wrong-exc", "body-count", "build"} | STOPS,
    "C05": {"refused", "crash", "body-count", "identity", "thread", "exc-changed", "mutated", "build", "context"} | STOPS,
    "C06": VERDICT | {"abort-lost", "identity", "exc-changed", "mutated", "header", "silent", "passline", "context"},
    "C07": {"switch", "switch-call", "deco-object", "banner"} | STOPS,
    "C08": {"config-swallowed", "config-refused", "config-wrong", "abort-lost"} | STOPS,
    "C09": {"soft-raise", "soft-missing", "soft-spurious", "identity", "body-count", "thread", "mutated", "build", "context", "exc-changed"} | STOPS,
    "C10": {"header", "passline", "silent", "argname"} | STOPS,
    "C11": VERDICT,
    "C12": VERDICT,
    "C13": VERDICT | {"probe"},
    "C14": VERDICT,
    "C15": VERDICT | {"ann-eq", "ann-hash", "repr"},
    "C20": VERDICT | {"class-attr", "identity", "header", "silent", "passline", "argname", "mutated", "thread", "context", "exc-changed"},
    "C16": {"verdict", "verdict-hashseed"} | STOPS,
}

# Simulated runs per tier.
RUNS = {
    "C01": (10560, 110000), "C02": (10560, 110000), "C03": (6720, 60000), "C04": (7680, 70000), "C05": (7680, 70000),
    "C06": (8640, 80000), "C07": (13440, 120000), "C08": (17280, 150000), "C09": (8640, 80000), "C10": (7680, 70000),
    "C11": (10560, 110000), "C12": (10560, 110000), "C13": (4320, 40000), "C14": (9600, 90000), "C15": (13440, 120000),
    "C16": (440, 5000), "C20": (7680, 70000),
}
CAP = (100, 660)  # seconds of search at most
