"""Helper to write a planted change: edits a scratch copy and stores the difference."""
import json, os, shutil, subprocess, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''#!/bin/bash
# Run with cwd /repo after the build.
. /opt/vp/env.sh
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
cp "$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"/demo.py "$W"/demo.py
'''


def bug(ident, prop, edits, needs, breaks, demo, runs=None):
    dest = os.path.join(HERE, "seeded", ident)
    os.makedirs(dest, exist_ok=True)
    work = tempfile.mkdtemp(prefix="mkbug_")
    try:
        copy = os.path.join(work, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        for name, old, new in edits:
            path = os.path.join(copy, name)
            text = open(path).read()
            assert text.count(old) == 1, (ident, name, text.count(old), old)
            open(path, "w").write(text.replace(old, new))
        diff = subprocess.run(["git", "-C", copy, "diff", "--", "asta"], capture_output=True, text=True).stdout
        assert diff
        open(os.path.join(dest, "patch.diff"), "w").write(diff)
    finally:
        shutil.rmtree(work)
    open(os.path.join(dest, "demo.py"), "w").write(demo.lstrip("\n"))
    here = PRE.replace('cp "$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"', 'cp "$HERE"').replace(
        '. /opt/vp/env.sh', 'HERE=$(cd "$(dirname "$0")" && pwd)\n. /opt/vp/env.sh')
    open(os.path.join(dest, "demo.sh"), "w").write(here + (runs or 'cd "$W" && PYTHONPATH=/repo timeout 200 "$PY" "$W"/demo.py\n'))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(dest, "meta.json"), "w"), indent=1)
