"""plant.py <bug.py>...: builds /verif/seeded/<id>/ from a description, after confirming it in a scratch copy.
plant.py --run <id>... : runs the property's check against a scratch copy with the planted bug."""
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    e.pop("PYTHONPATH", None)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def scratch(name):
    d = "/tmp/plant-%s" % name
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    return d


def tests(d):
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x"], d)
    return r.returncode == 0, (r.stdout + r.stderr)[-600:]


def touches_original(d):
    """Does the diff of the worktree change or remove a line of the base
    commit (or insert between two such lines)?"""
    fn = None
    for x in sh(["git", "diff", "-U0"], d).stdout.splitlines():
        if x.startswith("--- a/"):
            fn = x[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", x)
        if m:
            start, n = int(m.group(1)), int(m.group(2) or 1)
            lines = range(start, start + n) if n else (start, start + 1)
            r = sh(["git", "blame", "-s", "HEAD", "-L", "%d,%d" % (lines[0], lines[-1]), "--", fn], d).stdout
            base = [y.startswith("^") for y in r.splitlines()]
            if (any(base) if n else all(base)):
                return True
    return False


def plant(path):
    ns = {}
    with open(path) as f:
        exec(f.read(), ns)
    name = os.path.basename(path)[:-3]
    d = scratch(name)
    try:
        for fn, old, new in ns["EDITS"]:
            p = os.path.join(d, fn)
            s = open(p).read()
            if s.count(old) != 1:
                print(name, "edit matches %d times: %r" % (s.count(old), old[:60]))
                return False
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], d).stdout
        if not touches_original(d):
            print(name, "changes only lines of fix commits")
            return False
        ok, log = tests(d)
        if not ok:
            print(name, "existing tests fail:", log)
            return False
        out = os.path.join(SEEDED, name)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write("import os\nimport sys\n\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n"
                                                      + ns["DEMO"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/sh\nexec %s "$(dirname "$0")/demo.py"\n' % PY)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        a = sh(["sh", os.path.join(out, "demo.sh")], "/repo")
        b = sh(["sh", os.path.join(out, "demo.sh")], d)
        if a.returncode != 0 or b.returncode == 0:
            print(name, "demo: clean %d, planted %d" % (a.returncode, b.returncode), a.stderr[-500:], b.stdout[-300:])
            shutil.rmtree(out)
            return False
        print(name, "planted (%s)" % ns["PROP"], (b.stderr.strip().splitlines() or [""])[-1][:150])
        return True
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(name, props=()):
    out = os.path.join(SEEDED, name)
    meta = json.load(open(os.path.join(out, "meta.json")))
    d = scratch("run-" + name)
    try:
        r = sh(["git", "apply", os.path.join(out, "patch.diff")], d)
        if r.returncode:
            print(name, "does not apply", r.stderr)
            return
        for p in props or (meta["property"],):
            r = sh([PY, os.path.join(HERE, "check.py"), p], HERE, {"VERIF_REPO": d, "VERIF_TIER": "quick", "VERIF_SEED": "1"})
            last = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            why = [x for x in r.stdout.splitlines() if x.startswith("failing input on")]
            obl = [x for x in r.stdout.splitlines() if x.startswith("failed obligation")]
            wall = [x for x in r.stdout.splitlines() if "obligations discharged" in x]
            print(name, p, "rc=%d" % r.returncode, "CAUGHT" if last and "no-failing" not in last[0] else "caught-no-input" if last else
                  "MISSED", "|", (why or ["-"])[0][30:190], "|", (obl or ["-"])[0][19:150], "|", (wall or [r.stderr[-300:]])[0][-90:], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--run":
        for n in sys.argv[2:]:
            n, _, ps = n.partition(":")
            run(n, ps.split(",") if ps else ())
    else:
        for p in sys.argv[1:]:
            plant(p)
