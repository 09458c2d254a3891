"""Obligations: collected, discharged, reported."""
import time

import z3

from pyvc import solver
from pyvc import terms as T
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import Infeasible, Unsupported


class Failed:
    def __init__(self, name, why, detail=""):
        self.name, self.why, self.detail = name, why, detail

    def text(self):
        return "obligation %s: %s%s" % (self.name, self.why, "\n" + self.detail if self.detail else "")


class Checker:
    """one property's obligations."""

    def __init__(self, prop, deadline=None):
        self.prop = prop
        self.failed = []
        self.total = 0
        self.discharged = 0
        self.syntactic = 0
        self.by_group = {}
        self.functions = set()
        self.assumptions = []
        self.deadline = deadline
        self.notes = {}

    def group(self, name):
        return name.split(":")[0].split("/")[0]

    def oblige(self, name, pc, goal, detail=""):
        """goal (bool or term, or list of them) follows from the path condition."""
        if isinstance(goal, (list, tuple)):
            goal = T.mk_and(list(goal))
        self.total += 1
        g = self.by_group.setdefault(self.group(name), [0, 0])
        g[0] += 1
        if goal is True:
            self.syntactic += 1
            self.discharged += 1
            g[1] += 1
            return True
        if self.deadline is not None and time.time() > self.deadline:
            self.failed.append(Failed(name, "undecided (time budget exhausted)"))
            return False
        tm = solver.TIMEOUT_MS
        if goal is False:
            r, m = solver.check(list(pc), tm, want_model=True)
            v = {"unsat": "proved", "sat": "refuted"}.get(r, "unknown")
        else:
            v, m = solver.refute_model(list(pc), goal, timeout_ms=tm)
        if v == "proved":
            self.discharged += 1
            g[1] += 1
            return True
        d = ""
        if len(self.failed) < 12:
            d = detail() if callable(detail) else detail
            d += self.explain(pc, goal, m)
        self.failed.append(Failed(name, "not valid" if v == "refuted" else "not decided by the solvers", d))
        return False

    def oblige_each(self, pc, goals, detail=""):
        """[(name, goal)] discharged one by one from the few conjuncts each needs."""
        ix = solver.Index(pc)
        ok = True
        for n, g in goals:
            if isinstance(g, (list, tuple)):
                g = T.mk_and(list(g))
            if g is not True and g is not False and ix.quick(g):
                if solver.CROSS:
                    solver._cross(ix.relevant(g), g, None)
                self.count(n)
                continue
            ok = self.oblige(n, pc, g, detail) and ok
        return ok

    def oblige_local(self, name, hyps, goal, detail=""):
        """an obligation in which the bits of bitmaps do not matter."""
        if goal is not True and goal is not False:
            fs = [solver.abstract(T.tb(h)) for h in hyps if h is not True] + [solver.abstract(T.tb(T.mk_not(goal)))]
            if solver.check(fs, 3000)[0] == "unsat":
                self.count(name)
                return True
        return self.oblige(name, hyps, goal, detail)

    def oblige_from(self, name, choices, pc, goal, detail=""):
        """goal follows from one of the given small sets of hypotheses (or else from pc)."""
        if goal is not True and goal is not False and any(solver.prove(h, goal, 2000) for h in choices):
            self.count(name)
            return True
        return self.oblige(name, pc, goal, detail)

    def count(self, name):
        self.total += 1
        self.discharged += 1
        g = self.by_group.setdefault(self.group(name), [0, 0])
        g[0] += 1
        g[1] += 1

    def oblige_all(self, pc, goals, detail=""):
        """several obligations on one path: [(name, goal)]; one query when they all hold."""
        rest = []
        for n, g in goals:
            if isinstance(g, (list, tuple)):
                g = T.mk_and(list(g))
            if g is True:
                self.oblige(n, pc, True)
            else:
                rest.append((n, g))
        if not rest:
            return True
        if len(rest) > 1 and not any(g is False for _, g in rest):
            if self.deadline is None or time.time() < self.deadline:
                v, _ = solver.refute_model(list(pc), T.mk_and([g for _, g in rest]), timeout_ms=solver.TIMEOUT_MS)
                if v == "proved":
                    for n, g in rest:
                        self.total += 1
                        self.discharged += 1
                        x = self.by_group.setdefault(self.group(n), [0, 0])
                        x[0] += 1
                        x[1] += 1
                    return True
        ok = True
        for n, g in rest:
            ok = self.oblige(n, pc, g, detail) and ok
        return ok

    def fail(self, name, why, detail=""):
        self.total += 1
        self.by_group.setdefault(self.group(name), [0, 0])[0] += 1
        self.failed.append(Failed(name, why, detail))

    def explain(self, pc, goal, m):
        out = ["  goal: %s" % short(goal)]
        for p in list(pc)[-14:]:
            out.append("  path: %s" % short(p))
        if m is not None:
            vals = []
            for d in m.decls():
                if d.arity() == 0 and d.range() in (z3.IntSort(), z3.BoolSort()):
                    vals.append("%s=%s" % (d.name(), m[d]))
            out.append("  model: " + ", ".join(sorted(vals)[:40]))
        return "\n".join(out)


def short(t, n=300):
    s = " ".join((t.sexpr() if isinstance(t, z3.ExprRef) and len(solver.symbols(t)) > 30 else str(t)).split())
    return s if len(s) <= n else s[:n] + "..."


def seq_eq(a, b):
    """equality condition of two str/bytes values (kinds must agree)."""
    if not is_seq(a) or not is_seq(b):
        return False
    if kind_of(a) != kind_of(b):
        return False
    if same(a, b):
        return True
    return T.mk_eq(sterm(a), sterm(b))


def int_eq(a, b):
    if not is_intish(a) or not is_intish(b):
        return False
    return T.mk_eq(T.simp(iterm(a)), T.simp(iterm(b)))


def val_eq(st, a, b):
    """deep equality condition of two values in the same state (None if not comparable)."""
    if isinstance(a, VUnion) or isinstance(b, VUnion):
        xs = a.alts if isinstance(a, VUnion) else [(True, a)]
        ys = b.alts if isinstance(b, VUnion) else [(True, b)]
        return T.mk_and([T.mk_implies(T.mk_and(g, h), val_eq(st, x, y)) for g, x in xs for h, y in ys])
    if same(a, b):
        return True
    if is_seq(a) and is_seq(b):
        return seq_eq(a, b)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return T.beq(bterm(a), bterm(b))
    if is_intish(a) and is_intish(b):
        return int_eq(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return T.mk_and([val_eq(st, x, y) for x, y in zip(a, b)])
    if isinstance(a, Ref) and isinstance(b, Ref):
        return obj_eq(st, st.get(a), st, st.get(b))
    return False


def obj_eq(sa, a, sb, b):
    """equality condition of two heap objects (possibly in different states)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, ODict):
        if a.others or b.others:
            if len(a.others) != len(b.others):
                return False
            if not all(x.key is y.key or same(x.key, y.key) for x, y in zip(a.others, b.others)):
                return False
        gs = []
        for k in list(a.entries) + [k for k in b.entries if k not in a.entries]:
            ga, va = a.entries.get(k, (False, None))
            gb, vb = b.entries.get(k, (False, None))
            gs.append(T.beq(ga, gb))
            if ga is not False and gb is not False:
                gs.append(T.mk_implies(T.mk_and(ga, gb), val_eq2(sa, va, sb, vb)))
        for x, y in zip(a.others, b.others):
            gs.append(T.beq(x.guard, y.guard))
            gs.append(T.mk_implies(x.guard, val_eq2(sa, x.value, sb, y.value)))
        return T.mk_and(gs)
    if isinstance(a, OBytearray):
        return seq_eq(ba_seq(a), ba_seq(b))
    if isinstance(a, OList):
        if len(a.items) != len(b.items):
            return False
        return T.mk_and([T.mk_and(T.beq(x[0], y[0]), val_eq2(sa, x[1], sb, y[1])) for x, y in zip(a.items, b.items)])
    if isinstance(a, OInst):
        if a.cls is not b.cls or set(a.attrs) != set(b.attrs):
            return False
        return T.mk_and([val_eq2(sa, a.attrs[k], sb, b.attrs[k]) for k in a.attrs])
    return False


def val_eq2(sa, a, sb, b):
    """deep equality of values living in two states."""
    if isinstance(a, VUnion) or isinstance(b, VUnion):
        xs = a.alts if isinstance(a, VUnion) else [(True, a)]
        ys = b.alts if isinstance(b, VUnion) else [(True, b)]
        return T.mk_and([T.mk_implies(T.mk_and(g, h), val_eq2(sa, x, sb, y)) for g, x in xs for h, y in ys])
    if isinstance(a, Ref) and isinstance(b, Ref):
        return obj_eq(sa, sa.get(a), sb, sb.get(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return T.mk_and([val_eq2(sa, x, sb, y) for x, y in zip(a, b)])
    if isinstance(a, Ref) or isinstance(b, Ref):
        return False
    return val_eq(sa, a, b)


def dict_entries(st, ref):
    """{key: (guard, value)} of a dict in state st; None when it is no plain dict."""
    o = st.get(ref) if isinstance(ref, Ref) else None
    return o if isinstance(o, ODict) else None
