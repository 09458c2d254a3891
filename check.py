#!/usr/bin/env python3
"""check.py <property>: decides one property for the code in /repo.

Exit 0: every obligation discharged and no failing input found; exit 1 with a VIOLATION line otherwise.
check.py --replay <file>: runs the failing input of a replay file against /repo again.
"""
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"
if os.environ.get("VERIF_REEXEC") != "1":
    os.environ.update(VERIF_REEXEC="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    exe = VT if os.path.exists(VT) else sys.executable
    os.execv(exe, [exe, os.path.join(HERE, "check.py")] + sys.argv[1:])

sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

TRUSTED = [
    "the verification-condition generator pyvc (symbolic execution of the parsed source) and its models of the Python "
    "built-ins used by the package: str, bytes, bytearray, dict, list, set, int, sorted, format, binascii.a2b_hex; "
    "the path summaries of the field functions and the axiom instances they use are compared with CPython on random "
    "inputs in every run (coverage.verifier_against_cpython; a sample, not a proof)",
    "codec model: str.encode/bytes.decode of a named codec are deterministic partial functions; single-byte codecs for "
    "length prefixes, one-to-one codecs where a round trip is claimed",
    "z3 4.x (cvc5 where z3 gives no answer)",
    "spec/field_spec.py: what the properties require of one field",
    "CPython runs the parsed source as the language reference says",
]


def child(q, prop, task, deadline, cross):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    import threading
    threading.stack_size(512 << 20)
    out = {}

    def body():
        from vc.tasks import run_task
        out["r"] = run_task(prop, task, deadline, cross)

    t = threading.Thread(target=body)
    t.start()
    t.join()
    q.put((task, out.get("r")))
    q.close()
    q.join_thread()
    os._exit(0)


def run_proof(prop, tasks, budget, procs, cross, progress=None):
    """results of all tasks, in processes of their own."""
    ctx = mp.get_context("fork")
    pending, running, results = list(tasks), [], []
    end = time.time() + budget
    while pending or running:
        while pending and len(running) < procs:
            t = pending.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=child, args=(q, prop, t, end, cross))
            p.start()
            running.append((t, p, q))
        for item in list(running):
            t, p, q = item
            r = None
            try:
                r = q.get(timeout=0.02)[1]
            except Exception:
                if p.is_alive() and time.time() < end + 15:
                    continue
                try:
                    r = q.get(timeout=0.5)[1]
                except Exception:
                    r = None
                if p.is_alive():
                    p.kill()
            running.remove(item)
            p.join(5)
            if p.is_alive():
                p.kill()
            if r is None:
                r = {"task": list(t), "total": 1, "discharged": 0, "syntactic": 0, "groups": {}, "failed": [], "nfailed": 1,
                     "error": "the verifier gave no answer within its limits", "functions": [], "stats": {}, "cross": {},
                     "wall": 0}
            results.append(r)
    return results


def hints_of(results):
    """integers in the verifier's counterexamples, for the search."""
    out = set()
    for r in results:
        for f in r["failed"]:
            for m in re.findall(r"=(-?\d+)\b", f):
                if 0 <= int(m) < 10 ** 6:
                    out.add(int(m))
    return sorted(out)[:40]


def say(*a):
    print(*a, flush=True)


def known(prop):
    """{failing input text} recorded as known findings."""
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt"), encoding="utf-8") as f:
            for line in f:
                m = re.match(r"finding: property=(\w+) case=(.*) :: (.*)$", line.strip())
                if m and m.group(1) == prop:
                    out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def replay(path):
    from search import run
    with open(path, encoding="utf-8") as f:
        d = json.load(f)
    if not d.get("case"):
        say("no failing input in %s: the failed obligations are" % path)
        for o in d.get("obligations", []):
            say("  " + o)
        return 1
    why = run.evaluate(d["property"], run.undump(d["case"]))
    if why:
        say("FAILS property=%s: %s" % (d["property"], why))
        say("input: %s" % d["case"])
        return 1
    say("passes property=%s" % d["property"])
    return 0


def start_selftest(seed, thorough):
    """the path summaries of the field functions against CPython, see vc/selftest.py (reported, never an alarm)."""
    return subprocess.Popen(["nice", sys.executable, os.path.join(HERE, "vc", "selftest.py")] + (
        ["20000", str(seed), "900"] if thorough else ["600", str(seed), "25"]),
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=HERE)


def end_selftest(p):
    if p is None:
        return {"note": "not used: no obligation of this property depends on the summaries of the field functions"}
    try:
        out, err = p.communicate(timeout=60)
        r = json.loads(out)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"note": "no result in time"}
    except ValueError:
        return {"note": "could not run: %s" % err[-300:]}
    if r["disagreements"]:
        say("warning: the verifier disagrees with CPython: %s" % r["disagreements"][0][:500])
    return r


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    thorough = tier == "thorough"
    from vc.tasks import tasks_of
    tasks = tasks_of(prop, tier)
    selfcheck = start_selftest(seed, thorough) if prop not in ("C15", "C18", "C19", "C20") else None
    results = []
    if tasks:
        import pyvc.engine  # noqa: F401  (imported once, before forking)
        import vc.field, vc.message, vc.message_enc  # noqa: F401,E401
        results = run_proof(prop, tasks, 3000 if thorough else 420, 8, thorough)
    total = sum(r["total"] for r in results)
    disch = sum(r["discharged"] for r in results)
    bad = [r for r in results if r["error"] or r["nfailed"]]
    from search import run
    # bounded search on the real code: short when everything is proved, long when not
    budget = 900 if thorough else 110 if bad else 12
    if prop == "C20":
        budget = max(budget, 60)
    err = None
    try:
        sr = run.search(prop, seed, budget, 8, hints=hints_of(bad))
    except Exception as e:
        import traceback
        err = traceback.format_exc()
        sr = {"cases": 0, "nontrivial": 0, "samples": [], "found": None, "by_kind": {}, "errors": [err], "lost_workers": 0}
    violations = 0
    lines = []
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "%s-%s-%d.json" % (prop, tier, seed))
    if os.path.exists(path):
        os.remove(path)
    obligations = []
    for r in bad:
        head = " ".join(map(str, r["task"]))
        if r["error"]:
            obligations.append("%s: %s" % (head, r["error"]))
        obligations += ["%s: %s" % (head, f) for f in r["failed"]]
    found = sr["found"]
    if found:
        d = {"property": prop, "case": found[0], "why": found[1], "obligations": obligations,
             "run": "python3 check.py --replay %s" % path}
        violations = 1
        with open(path, "w") as f:
            json.dump(d, f, indent=1)
        say("failing input on the real code: %s" % found[1])
        say("  input: %s" % (found[0] if len(found[0]) < 3000 else found[0][:3000] + "..."))
        for o in obligations[:5]:
            say("failed obligation: %s" % o[:1500])
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    elif bad or sr["errors"] and sr["cases"] == 0:
        if err or sr["errors"]:
            obligations.append("search failed: %s" % (sr["errors"] or [err])[0][-800:])
        violations = max(1, sum(r["nfailed"] for r in bad))
        d = {"property": prop, "case": None, "why": "obligations not discharged; no failing input found in %d cases" % sr["cases"],
             "obligations": obligations}
        with open(path, "w") as f:
            json.dump(d, f, indent=1)
        for o in obligations[:8]:
            say("failed obligation: %s" % o[:2500])
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    functions = sorted({f for r in results for f in r["functions"]})
    groups = {}
    for r in results:
        for k, v in r["groups"].items():
            g = groups.setdefault(k, [0, 0])
            g[0] += v[0]
            g[1] += v[1]
    cross = {}
    for r in results:
        for k, v in r["cross"].items():
            cross[k] = cross.get(k, 0) + v
    from vc import assumptions
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": total, "discharged": disch,
            "discharged_syntactically": sum(r["syntactic"] for r in results),
            "checker_cmd": "python3 check.py %s" % prop, "trusted_base": TRUSTED,
            "functions_under_contract": functions,
            "tasks": [{"task": " ".join(map(str, r["task"])), "obligations": r["total"], "discharged": r["discharged"],
                       "wall_s": r["wall"], "solver_s": round(r["stats"].get("time", 0), 2),
                       "solver_queries": r["stats"].get("queries", 0), "cvc5_queries": r["stats"].get("cvc5", 0)}
                      for r in results],
            "by_contract": {k: {"obligations": v[0], "discharged": v[1]} for k, v in sorted(groups.items())},
            "solver_s": round(sum(r["stats"].get("time", 0) for r in results), 2),
            "cvc5_cross_check": cross,
            "bounded_search": {"label": "bounded: not part of the proof", "evaluations": sr["cases"],
                               "distinct_nontrivial": sr["nontrivial"], "by_kind": sr["by_kind"],
                               "rule": "random and coverage-guided cases run on the real code; distinct by input text",
                               "samples": [s[:600] for s in sr["samples"]]},
            "verifier_against_cpython": end_selftest(selfcheck),
            "failed_obligations": obligations[:20],
        },
        "assumptions": assumptions.of(prop),
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    say("%s: %d of %d obligations discharged over %d functions; %d inputs run; %.0f s" % (
        prop, disch, total, len(functions), sr["cases"], time.time() - t0))
    for ln in lines:
        say(ln)
    return 1 if violations else 0


if __name__ == "__main__":
    sys.stdout.reconfigure(errors="backslashreplace")
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:  # the check itself failed: undecided, reported as such
        import traceback
        traceback.print_exc()
        p = sys.argv[1] if len(sys.argv) > 1 else "?"
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-error.json" % p)
        with open(path, "w") as f:
            json.dump({"property": p, "case": None, "obligations": ["the check failed: " + traceback.format_exc()]}, f)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (p, path), flush=True)
        rc = 1
    sys.exit(rc)
