"""C17: decode gives equal results for bytes and bytearray with equal content.

The function is executed for both kinds of input with the same content; the paths of the second run cover every input,
and each is shown to be an input of one path of the first run with an equal outcome. The results of the field decoder
are the same symbols in both runs of the message decoder, as the field-level comparison proves they may be.
"""
import time

import z3

from pyvc import solver
from pyvc import terms as T
from pyvc.values import *  # noqa: F401,F403

from .core import val_eq2
from .world import describe, raised


def containers(prop, ck, what, part=0, parts=1):
    if what == "field":
        from .field import DecodeField
        runs = [DecodeField(k, deadline=ck.deadline) for k in ("bytes", "bytearray")]
        docs = lambda r, o: [r.dd, r.de]  # noqa: E731
    else:
        from .message import DecodeMessage
        runs = [DecodeMessage(k, deadline=ck.deadline) for k in ("bytes", "bytearray")]
        docs = lambda r, o: []  # noqa: E731
    a, b = runs
    ck.functions |= a.w.e.trace_funcs
    tag = "containers:%s" % what
    end = time.time() + 400
    ck.count("%s:part%d" % (tag, part))
    index = {}
    for o in a.outs:
        index.setdefault(ids(o), []).append(o)
    for j, q in enumerate(b.outs):
        if j % parts != part or ck.failed:  # one failed obligation settles it
            continue
        n = "%s:path%d" % (tag, j)
        o = counterpart(index, a.outs, j, q)
        if o is not None:
            equal(ck, n, a, o, b, q, docs)
        else:
            pairs(ck, n, a, list(enumerate(a.outs)), b, q, docs, end)


def counterpart(index, outs, j, q):
    """The outcome of the other run whose path condition the one of `q` implies (the paths of `q` cover all inputs)."""
    mine = ids(q)
    same = index.get(mine, [])
    if len(same) == 1:
        return same[0]
    first = [outs[j]] if j < len(outs) else []
    for o in first + sorted(outs, key=lambda o: len(mine ^ ids(o)))[:3]:
        if o.kind != q.kind:
            continue
        rest = [T.tb(c) for c in o.st.pc if c is not True and (c is False or c.get_id() not in mine)]
        if solver.prove(list(q.st.pc), T.mk_and(rest), timeout_ms=30000):
            return o
    return None


def ids(o):
    return frozenset(c if isinstance(c, bool) else c.get_id() for c in o.st.pc if c is not True)


def pairs(ck, n, a, outs, b, q, docs, end):
    """q against every outcome it may share an input with: models of what is not yet compared name the next one."""
    mine, left, done = ids(q), dict(outs), []
    near = [i for i, o in sorted(outs, key=lambda x: len(mine ^ ids(x[1])))]
    while left and not ck.failed:
        if time.time() > end:
            ck.fail(n, "undecided: the paths of the two runs do not correspond")
            return
        r, m = solver.check(list(q.st.pc) + done, want_model=True)
        if r == "unsat":
            break
        near = [i for i in near if i in left]
        hit = [i for i in near if m is not None and holds(m, left[i])] or near[:3]
        for i in hit:
            o = left.pop(i)
            both = [c for c in o.st.pc if c is not True] + [c for c in q.st.pc if c is not True]
            if solver.feasible(both, 10000):
                equal(ck, "%s:%d" % (n, i), a, o, b, q, docs, both)
            done.append(z3.Not(z3.And([T.tb(c) for c in o.st.pc if c is not True])))
    ck.count(n + ":compared")


def holds(m, o):
    return all(c is True or c is not False and z3.is_true(m.eval(c, model_completion=True)) for c in o.st.pc)


def label(c):
    return getattr(c, "name", None) or getattr(getattr(c, "py", None), "__name__", None) or str(c)


def equal(ck, n, a, o, b, q, docs, pc=None):
    pc = list(q.st.pc) if pc is None else pc
    if o.kind != q.kind:
        ck.oblige(n + ":same-outcome", pc, False, lambda: describe(o) + " / " + describe(q))
        return
    goals = []
    if o.kind == "raise":
        (c, x), (d, y) = raised(o), raised(q)
        ck.oblige(n + ":same-class", pc, label(c) == label(d))
        for k in sorted(set(x.attrs) | set(y.attrs)):
            if k == "s":
                continue
            if k not in x.attrs or k not in y.attrs:
                ck.oblige("%s:attribute:%s" % (n, k), pc, False)
                continue
            goals.append(("%s:attribute:%s" % (n, k), val_eq2(o.st, x.attrs[k], q.st, y.attrs[k])))
        goals.append((n + ":text", val_eq2(o.st, tuple(x.args or ()), q.st, tuple(y.args or ()))))
    else:
        goals.append((n + ":same-result", val_eq2(o.st, o.val, q.st, q.val)))
        for k, (r, s) in enumerate(zip(docs(a, o), docs(b, q))):
            goals.append(("%s:same-document:%d" % (n, k), val_eq2(o.st, r, q.st, s)))
    ck.oblige_each(pc, goals, lambda: describe(o) + " / " + describe(q))
