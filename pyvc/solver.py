"""Query layer: satisfiability of ground formulas with the facts of their terms."""
import os
import subprocess
import tempfile
import time

import z3

from . import terms as T

STATS = {"queries": 0, "time": 0.0, "unknown": 0, "cached": 0, "cvc5": 0, "cvc5_time": 0.0}
_cache = {}
TIMEOUT_MS = 10000
GROUPS = ()  # fact groups enabled besides ""
CROSS = False  # also discharge with cvc5 (thorough tier)
CROSS_LOG = {"agree": 0, "disagree": 0, "unknown": 0}


def _solver(formulas, groups):
    fs = [T.tb(f) for f in formulas]
    s = z3.Solver()
    for f in fs:
        s.add(f)
    for f in T.facts_for(fs, groups):
        s.add(f)
    return s


def check(formulas, timeout_ms=None, groups=None, want_model=False):
    """'sat' | 'unsat' | 'unknown' (model attached as second item)."""
    groups = GROUPS if groups is None else groups
    fs = []
    for f in formulas:
        if f is True:
            continue
        if f is False:
            return ("unsat", None)
        fs.append(f)
    key = (frozenset(f.get_id() for f in fs), groups)
    if not want_model and key in _cache:
        STATS["cached"] += 1
        return (_cache[key], None)
    t0 = time.time()
    s = _solver(fs, groups)
    s.set("timeout", timeout_ms or TIMEOUT_MS)
    r = str(s.check())
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    m = None
    if r == "sat" and want_model:
        m = s.model()
    if r == "unknown":
        STATS["unknown"] += 1
        r2 = cvc5_check(s, 20)
        if r2 == "unsat":
            r = r2
    if r != "unknown":
        T._keep.extend(fs)
        _cache[key] = r
    return (r, m)


def cvc5_check(s, timeout):
    t0 = time.time()
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % (timeout * 1000), f.name], capture_output=True, text=True,
                           timeout=timeout + 10)
        out = p.stdout.strip().splitlines()
        r = out[0] if out and out[0] in ("sat", "unsat", "unknown") else "unknown"
    except (subprocess.TimeoutExpired, OSError):
        r = "unknown"
    finally:
        os.unlink(f.name)
    STATS["cvc5"] += 1
    STATS["cvc5_time"] += time.time() - t0
    return r


def feasible(pc, timeout_ms=2000):
    return check(pc, timeout_ms)[0] != "unsat"


def syntactic(pc, goal):
    """True/False if goal (or its negation) is literally among the conjuncts, else None."""
    if goal is True or goal is False:
        return goal
    ids = set()
    for c in pc:
        ids.add(c.get_id())
        if z3.is_and(c):
            ids.update(k.get_id() for k in c.children())
    if goal.get_id() in ids:
        return True
    n = T.mk_not(goal)
    if n is False or (n is not True and n.get_id() in ids):
        return False
    if z3.is_and(goal) and all(k.get_id() in ids for k in goal.children()):
        return True
    if z3.is_or(goal) and any(k.get_id() in ids for k in goal.children()):
        return True
    return None


def prove(pc, goal, timeout_ms=None, groups=None):
    """pc |= goal ?"""
    if goal is True:
        return True
    r = syntactic(pc, goal)
    if r is True:
        return True
    return check(list(pc) + [T.mk_not(goal)], timeout_ms, groups)[0] == "unsat"


_syms = {}


def symbols(t):
    """ids of the uninterpreted constants and functions of a term (memoised per term)."""
    i = t.get_id()
    r = _syms.get(i)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        xi = x.get_id()
        if xi in _syms:
            stack.pop()
            continue
        kids = x.children()
        todo = [k for k in kids if k.get_id() not in _syms]
        if todo:
            stack.extend(todo)
            continue
        acc = set()
        for k in kids:
            acc |= _syms[k.get_id()]
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(x.decl().get_id())
        _syms[xi] = frozenset(acc)
        T._keep.append(x)
        stack.pop()
    return _syms[i]


class Index:
    """a path condition indexed by symbol: finds the few conjuncts that can matter for a goal."""

    def __init__(self, pc, limit=6):
        self.pc = pc
        self.limit = limit
        self.by = {}
        self.ids = set()
        for c in pc:
            if isinstance(c, bool):
                continue
            self.ids.add(c.get_id())
            if z3.is_and(c):
                self.ids.update(k.get_id() for k in c.children())
            for x in symbols(c):
                self.by.setdefault(x, []).append(c)

    def relevant(self, goal):
        out, seen = [], set()
        for x in symbols(T.tb(goal)):
            cs = self.by.get(x, ())
            if len(cs) <= self.limit:
                for c in cs:
                    if c.get_id() not in seen:
                        seen.add(c.get_id())
                        out.append(c)
        return out

    def quick(self, goal, groups=None):
        """proved from the relevant conjuncts alone (cached)."""
        if goal is True:
            return True
        if goal is False:
            return False
        if goal.get_id() in self.ids:
            return True
        if z3.is_and(goal):
            rest = [k for k in goal.children() if k.get_id() not in self.ids]
            if not rest:
                return True
            if len(rest) < goal.num_args():
                return all(self.quick(k, groups) for k in rest)
        known = _proved_by.setdefault(goal.get_id(), [])
        if any(k <= self.ids for k in known):
            STATS["cached"] += 1
            return True
        sub = self.relevant(goal)
        if check(sub + [T.mk_not(goal)], 2000, groups)[0] == "unsat":
            T._keep.append(goal)
            known.append(frozenset(c.get_id() for c in sub))
            return True
        return False


_proved_by = {}  # goal -> sets of conjuncts that imply it
_abs = {}


def abstract(t):
    """t with every bit test replaced by a free boolean (one per test): valid then implies valid."""
    i = t.get_id()
    r = _abs.get(i)
    if r is None:
        if T.is_app(t, T.sbit_f):
            r = z3.Bool("bit!%d" % i)
        elif t.num_args() == 0:
            r = t
        else:
            kids = t.children()
            new = [abstract(k) for k in kids]
            r = t if all(a.eq(b) for a, b in zip(kids, new)) else z3.substitute(t, *[
                (a, b) for a, b in zip(kids, new) if not a.eq(b)])
        _abs[i] = r
        T._keep.append(t)
    return r


_index = [None, None]


def index(pc):
    if _index[0] is not pc:
        _index[0], _index[1] = pc, Index(pc)
    return _index[1]


def relevant(pc, goal):
    return index(pc).relevant(goal)


def refute_model(pc, goal, groups=None, timeout_ms=None):
    """(verdict, model) where verdict in proved / refuted / unknown."""
    if goal is True:
        return ("proved", None)
    if syntactic(pc, goal) is True:
        return ("proved", None)
    if len(pc) > 24 and goal is not False:
        sub = relevant(pc, goal)
        if len(sub) < len(pc) and check(sub + [T.mk_not(goal)], 2000, groups)[0] == "unsat":
            if CROSS:
                _cross(sub, goal, groups)
            return ("proved", None)
    r, m = check(list(pc) + [T.mk_not(goal)], timeout_ms, groups, want_model=True)
    v = {"unsat": "proved", "sat": "refuted", "unknown": "unknown"}[r]
    if v == "proved" and CROSS:
        _cross(pc, goal, groups)
    return (v, m)


def _cross(pc, goal, groups):
    s = _solver([f for f in list(pc) + [T.mk_not(goal)] if f is not True], GROUPS if groups is None else groups)
    c = cvc5_check(s, 30)
    CROSS_LOG[{"unsat": "agree", "sat": "disagree", "unknown": "unknown"}[c]] += 1
