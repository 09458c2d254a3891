"""Search for a failing input on the real code; replay of one."""
import ast
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import sys
import time
import traceback

from . import gen, load, props
from .gen import Obj

NS = {"Obj": Obj, "bytearray": bytearray, "memoryview": memoryview, "set": set, "range": range, "frozenset": frozenset,
      "__builtins__": {}}


def dump(case):
    """a case as Python text."""
    return text(case)


def text(v):
    if isinstance(v, dict):
        return "{" + ", ".join("%s: %s" % (text(k), text(x)) for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ", ".join(map(text, v)) + "]"
    if isinstance(v, tuple):
        return "(" + "".join(text(x) + ", " for x in v) + ")"
    if isinstance(v, memoryview):
        return "memoryview(%r)" % bytes(v)
    return repr(v)


def undump(t):
    return eval(t, dict(NS))


def alarm(sec):
    signal.setitimer(signal.ITIMER_REAL, sec)


def _on_alarm(*a):
    raise props.Hang()


def evaluate(prop, case, limit=10.0):
    """None or what is wrong."""
    old = signal.signal(signal.SIGALRM, _on_alarm)
    alarm(limit)
    try:
        return props.check(prop, case)
    except props.Hang:
        return "the call does not end within %g s" % limit if prop in ("C11", "C12", "C18") else None
    finally:
        alarm(0)
        signal.signal(signal.SIGALRM, old)


class Coverage:
    """which lines and branches of the package cases reach."""

    TOOL = 3

    def __init__(self):
        self.new = 0
        self.on = False
        m = getattr(sys, "monitoring", None)
        if m is None:
            return
        lib = load.main()
        files = {x.__spec__.origin for x in lib.mods.values()}
        try:
            m.use_tool_id(self.TOOL, "verif")
        except ValueError:
            return
        self.m, self.on = m, True
        self.seen = set()

        def hit(code, *a):
            if code.co_filename not in files:
                return m.DISABLE
            k = (code.co_filename, code.co_firstlineno) + a
            if k not in self.seen:
                self.seen.add(k)
                self.new += 1
            return m.DISABLE if len(a) == 1 else None

        ev = m.events.LINE | m.events.BRANCH
        m.register_callback(self.TOOL, m.events.LINE, hit)
        m.register_callback(self.TOOL, m.events.BRANCH, hit)
        m.set_events(self.TOOL, ev)

    def take(self):
        n, self.new = self.new, 0
        return n


def vary(rng, g, case):
    """a case near a given one."""
    c = props.cp(case)
    k = c["kind"]
    r = rng
    if "spec" in c and isinstance(c["spec"], dict) and c["spec"] and r.random() < 0.35 and k in ("decode", "encode"):
        key = r.choice(list(c["spec"]))
        o, v = g.spec_edit(c["spec"], key)
        if g.uni or o not in ("left_pad", "right_pad"):
            c["spec"][key][o] = v
        return c
    if k == "decode":
        s = bytearray(c["s"])
        x = r.random()
        if s and x < 0.5:
            i = r.randrange(len(s))
            s[i] = r.choice((r.randrange(256), s[i] ^ (1 << r.randrange(8)), (s[i] + 1) & 255, (s[i] - 1) & 255, 0x30, 0x20))
        elif x < 0.7:
            s = s[:r.randrange(len(s) + 1)]
        elif x < 0.85:
            i = r.randrange(len(s) + 1)
            s[i:i] = bytes([r.randrange(256)])
        elif s:
            i = r.randrange(len(s))
            del s[i]
        c["s"] = bytes(s)
    elif k == "encode" and c["doc"]:
        key = r.choice(list(c["doc"]))
        v = c["doc"][key]
        if isinstance(v, str) and r.random() < 0.8:
            i = r.randrange(len(v) + 1)
            x = r.random()
            if x < 0.4:
                v = v[:i] + r.choice("0123456789ABCDEFaf Gz") + v[i + 1:]
            elif x < 0.6:
                v = v[:i] + v[i + 1:]
            elif x < 0.8:
                v = v[:i] + r.choice("0F1A ") + v[i:]
            else:
                v = v * 2
            c["doc"][key] = v
        elif isinstance(key, str) and key in c["spec"] and key not in ("t", "p", "1"):
            c["doc"][key] = g.value(c["spec"][key])
        else:
            c["doc"].pop(key)
    elif k == "pp":
        x = r.random()
        if x < 0.4:
            c["line_width"] += r.choice((-2, -1, 1, 2))
        elif x < 0.6:
            c["desc_width"] += r.choice((-1, 1))
        elif c["doc"]:
            key = r.choice(list(c["doc"]))
            v = c["doc"][key]
            if isinstance(v, (str, bytes)):
                c["doc"][key] = v + v[:1] if r.random() < 0.5 else v[:-1]
    return c


def worker(prop, seed, budget, maxcases, hints, q, stop):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    rng = random.Random(seed)
    out = {"cases": 0, "found": None, "by_kind": {}, "nontrivial": 0, "samples": [], "error": None}
    try:
        lib = load.main()
        cov = Coverage()
        g = gen.Gen(rng, gen.mined(), hints)
        g.uni = prop not in ("C01", "C02")
        corpus = []
        seen = set()
        end = time.time() + budget
        kinds = props.KINDS[prop]
        it = None
        if "shipped" in kinds:
            from . import shipped
            it = iter([c for i, c in enumerate(shipped.cases(lib))])
        while time.time() < end and out["cases"] < maxcases and not stop.is_set():
            if it is not None:
                case = next(it, None)
                if case is None:
                    break
                kind = "shipped"
            elif corpus and rng.random() < 0.3:
                case = vary(rng, g, corpus[-1 - int(min(len(corpus) - 1, rng.expovariate(0.15)))])
                kind = case["kind"]
                if prop in ("C01", "C02") and not wf_pads(case):
                    continue
            else:
                kind = rng.choice(kinds)
                case = g.case(kind)
            cov.take()
            why = evaluate(prop, case)
            out["cases"] += 1
            out["by_kind"][kind] = out["by_kind"].get(kind, 0) + 1
            if cov.take() and kind not in ("shipped", "history", "interleave", "exc", "wrong"):
                corpus.append(case)
            t = dump(case)
            h = hash(t)
            if h not in seen and len(t) > 40:
                seen.add(h)
                out["nontrivial"] += 1
                if len(out["samples"]) < 2 and len(t) < 900:
                    out["samples"].append(t)
            if why:
                case, why = shrink(prop, case, why, 15)
                out["found"] = (dump(case), why)
                stop.set()
                break
    except MemoryError:
        out["error"] = "out of memory"
    except BaseException:
        out["error"] = traceback.format_exc()
    q.put(out)


def wf_pads(case):
    sp = case.get("spec") or {}
    return not any(fs.get("left_pad", "") and fs.get("right_pad", "") for fs in sp.values())


def shrink(prop, case, why, budget):
    """a smaller failing case."""
    end = time.time() + budget
    if case["kind"] == "shipped":
        return case, why

    def smaller(c):
        k = c["kind"]
        if k in ("decode", "encode", "pp"):
            sp = c["spec"]
            doc = c.get("doc")
            if doc:
                for key in list(doc):
                    yield dict(c, doc={x: v for x, v in doc.items() if x is not key})
                for key, v in doc.items():
                    if isinstance(v, (str, bytes)) and len(v) > 1:
                        for w in (v[:len(v) // 2], v[:-1], v[1:]):
                            yield dict(c, doc={**doc, key: w})
            if len(sp) > 4:
                ks = [x for x in sp if x not in ("h", "t", "p", "1") and not (doc and x in doc)]
                if len(ks) > 8:
                    yield dict(c, spec={x: v for x, v in sp.items() if x not in ks[:len(ks) // 2]})
                    yield dict(c, spec={x: v for x, v in sp.items() if x not in ks[len(ks) // 2:]})
                else:
                    for key in ks:
                        yield dict(c, spec={x: v for x, v in sp.items() if x != key})
            if k == "decode":
                s = c["s"]
                for i in (len(s) // 2, len(s) - 1):
                    if 0 < i < len(s):
                        yield dict(c, s=s[:i])
        elif k == "history":
            for i in range(len(c["steps"])):
                yield dict(c, steps=c["steps"][:i] + c["steps"][i + 1:])

    progress = True
    while progress and time.time() < end:
        progress = False
        for c in smaller(case):
            if time.time() > end:
                break
            try:
                w = evaluate(prop, c)
            except BaseException:
                continue
            if w:
                case, why, progress = c, w, True
                break
    return case, why


def search(prop, seed, budget, procs=8, maxcases=10 ** 9, hints=()):
    """runs workers; merged outcome."""
    ctx = mp.get_context("fork")
    q, stop = ctx.Queue(), ctx.Event()
    if prop == "C20":
        procs = 1
    ws = [ctx.Process(target=worker, args=(prop, seed * 1000 + i, budget, maxcases, list(hints), q, stop), daemon=True)
          for i in range(procs)]
    for w in ws:
        w.start()
    outs = []
    end = time.time() + budget + 60
    while len(outs) < len(ws) and time.time() < end:
        try:
            outs.append(q.get(timeout=1))
        except Exception:
            if not any(w.is_alive() for w in ws) and q.empty():
                break
    for w in ws:
        w.join(2)
        if w.is_alive():
            w.kill()
    r = {"cases": 0, "nontrivial": 0, "samples": [], "found": None, "by_kind": {}, "errors": []}
    for o in outs:
        r["cases"] += o["cases"]
        r["nontrivial"] += o["nontrivial"]
        r["samples"] += o["samples"][:1]
        for k, v in o["by_kind"].items():
            r["by_kind"][k] = r["by_kind"].get(k, 0) + v
        if o["error"]:
            r["errors"].append(o["error"])
        if o["found"] and (r["found"] is None or len(o["found"][0]) < len(r["found"][0])):
            r["found"] = o["found"]
    r["samples"] = r["samples"][:4]
    r["lost_workers"] = len(ws) - len(outs)
    return r


if __name__ == "__main__":
    p, sec = sys.argv[1], float(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    t = time.time()
    r = search(p, seed, sec)
    print(p, r["cases"], r["nontrivial"], r["by_kind"], "found:", r["found"], r["errors"][:1], "%.1fs" % (time.time() - t))
