"""Loops that fold a value of any length into lines: ghost state, invariants, induction.

The ghost of such a loop is (i, s, Q): the first i units of the value were looked at, the first s of
them are in the lines Q already complete (s = 0: no line yet).  What a line is, is said by Fold below.
For every variable the loop changes, an invariant is looked for among templates over the ghost; every
one used is proved to hold on entry and to be kept by the body (Houdini).  Nothing is unrolled but the
first iteration.
"""
import itertools

import z3

from pyvc import solver
from pyvc import terms as T
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import Infeasible, Out, UNBOUND, Unsupported, psame

z = z3.IntVal
_n = itertools.count()


class Ghost:
    def __init__(self, mode, i, s, Q):
        self.mode, self.i, self.s, self.Q = mode, i, s, Q
        self.base = None  # what the stream held before the loop


class Fold:
    """the value obj (term of kind) is folded into lines of `avail` columns, separated by sep.

    not strict: lines of any length, separated by any indentation."""

    def __init__(self, kind, obj, avail, sep, strict=True):
        self.kind, self.obj, self.avail, self.sep, self.strict = kind, obj, avail, sep, strict
        self.n = T.Len(obj)
        self.W = T.mk_ite(avail - 2 > 1, avail - 2, z(1))  # characters of a full line of text

    def lit(self, i, j):
        """the literal of obj[i:j]."""
        return T.t_repr(self.part(i, j), self.kind == "bytes")

    def part(self, i, j):
        return T.t_sub(self.obj, T.simp(i), T.simp(j - i))

    def fits(self, i, j):
        if self.kind == "bytes":
            return T.Len(self.lit(i, j)) <= self.avail
        return j - i <= self.avail - 2

    def is_line(self, i, j):
        """obj[i:j] makes one complete line."""
        if not self.strict:
            return z3.And(i >= 0, i < j, j <= self.n)
        return z3.And(i >= 0, i < j, j <= self.n, z3.Or(self.fits(i, j), j == i + 1),
                      z3.Or(j == self.n, z3.Not(self.fits(i, T.simp(j + 1)))))

    def add(self, g, j):
        """complete lines after the line obj[g.s:j]."""
        if g.Q is None:
            return mkseq("str", self.lit(g.s, j))
        return mkseq("str", *[pterm(p) for x in (g.Q, self.sep) for p in pieces_of(x)] + [self.lit(g.s, j)])

    def clip(self, i, w):
        """a fact of slices: obj[i:i+w] is obj[i:n] when it reaches the end."""
        return z3.Implies(z3.And(i >= 0, i + w >= self.n), T.t_sub(self.obj, T.simp(i), T.simp(w)) == self.part(i, self.n))


class Lines:
    """the loop handler of an engine; fold is set by the caller."""

    def __init__(self, e, fold, stream):
        self.e, self.fold, self.stream = e, fold, stream
        self.proved = []  # names of the obligations discharged inside
        self.loops = 0
        self.active = False
        e.loop_handler = self.handle
        e.unroll = 20

    # ------------------------------------------------------------ entry point

    def handle(self, e, st, it, body, node, fr):
        why = []
        if self.active:
            return None
        self.active = True
        try:
            for profile in ("line", "unit"):
                try:
                    r = Loop(self, profile, st, it, body, node, fr).solve()
                    self.loops += 1
                    return r
                except Unsupported as x:
                    why.append("%s: %s" % (profile, x))
        finally:
            self.active = False
        self.why = why
        if it is None:
            return None  # perhaps it is bounded
        raise Unsupported("no invariant found for a loop (%s)" % "; ".join(why))

    def prove(self, pc, goal):
        if goal is True:
            return True
        if goal is False:
            return False
        return solver.prove(pc, goal, 5000)


class Loop:
    def __init__(self, lines, profile, st, it, body, node, fr):
        self.x, self.e, self.f = lines, lines.e, lines.fold
        self.count = 0
        self.carriers = ()
        self.profile, self.st, self.it, self.body, self.node, self.fr = profile, st, it, body, node, fr
        self.id = next(_n)
        self.base = st.get(lines.stream).text
        if st.get(lines.stream).ghost is not None:
            raise Unsupported("second loop over the value")
        self.prove = lines.prove
        if it is not None:
            if not isinstance(it, VRange):
                raise Unsupported("iteration over the value itself")
            a, b, c = (T.simp(iterm(e)) for e in (it.start, it.stop, it.step))
            if not (z3.is_int_value(a) and a.as_long() == 0):
                raise Unsupported("range does not start at 0")
            if not self.prove(st.pc, T.mk_eq(b, self.f.n)):
                raise Unsupported("range does not end at the length of the value")
            want = self.f.W if profile == "line" else z(1)
            if profile == "line" and not self.f.strict:
                if not self.prove(st.pc, c >= 1):
                    raise Unsupported("range does not advance")
                want = self.f.W = c
            if not self.prove(st.pc, T.mk_eq(c, want)):
                raise Unsupported("range does not advance by one %s" % profile)
            self.step_t = c
        if not self.prove(st.pc, self.f.n >= 1):
            raise Unsupported("loop over a value that may be empty")

    # ------------------------------------------------------------ ghost

    def initial(self):
        return Ghost("start", z(0), z(0), None)

    def head(self, mode):
        """an arbitrary ghost of a mode and what is known of it."""
        i, s = z3.Int("i!%d%s" % (self.id, mode)), z3.Int("s!%d%s" % (self.id, mode))
        n = self.f.n
        if self.profile == "line":
            if mode == "A":
                raise Unsupported("no line after the first step")
            Q = S_("Q!%d%s" % (self.id, mode))
            return Ghost(mode, s, s, Q), [s > 0, s <= n, self.f.clip(s, self.f.W)]
        if mode == "A":
            g = Ghost(mode, i, z(0), None)
            return g, [i >= 1, i <= n] + ([z3.Or(self.f.fits(z(0), i), i == 1)] if self.f.strict else [])
        g = Ghost(mode, i, s, S_("Q!%d%s" % (self.id, mode)))
        return g, [s > 0, s < i, i <= n] + ([z3.Or(self.f.fits(s, i), i == s + 1)] if self.f.strict else [])

    def texts(self, s, mod):
        """the texts collected so far, wherever they are."""
        out = []
        for loc in sorted(mod, key=str):
            v = self.value(s, loc)
            if isinstance(v, OStream):
                out.append(v.text)
            elif isinstance(v, (OList, OLines)):
                out.append(len(v.items) + (1000 if isinstance(v, OLines) else 0))
            elif loc[0] == "v" and is_seq(v) and kind_of(v) == "str" and loc in self.carriers:
                out.append(v)
        return tuple(out)

    def separator(self, q, g, mod):
        """the indentation between two lines, as found in the text."""
        for loc in mod:
            v = self.value(q, loc)
            if isinstance(v, OStream):
                have, pre = list(v.text.pieces), list(pieces_of(self.base_of(loc))) + list(pieces_of(g.Q))
                k = len(pre)
                if len(have) > k + 1 and all(psame(a, b) for a, b in zip(have, pre)):
                    mid = have[k:-1]
                    if not any(isinstance(p, GP) for p in mid) and T.is_lit(mid[0]) and T.sval(mid[0])[:1] == "\n" and \
                            not T.sval(mid[0])[1:].strip(" ") and all(
                                (T.is_lit(p) and not T.sval(p).strip(" ")) or (T.is_app(p, T.ljust_f) and p.arg(0).eq(T.sv("")))
                                for p in mid[1:]):
                        return mkseq("str", *mid)
        return None

    def advance(self, g, pc, head=None, q=None, mod=()):
        """[(condition, ghost after the step)]."""
        f = self.f
        if self.profile == "line":
            if not f.strict and g.Q is not None:
                f.sep = self.separator(q, g, mod) or f.sep
            out = []
            for cond, j in ((T.simp(g.s + f.W) >= f.n, f.n), (T.simp(g.s + f.W) < f.n, T.simp(g.s + f.W))):
                q = list(pc) + [cond]
                if not solver.feasible(q):
                    continue
                if not self.prove(q, f.is_line(g.s, j)):
                    raise Unsupported("step does not complete a line")
                self.count += 1
                out.append((cond, Ghost("B", j, j, f.add(g, j))))
            return out
        i2 = T.simp(g.i + 1)
        if g.mode == "start":
            return [(True, Ghost("A", i2, z(0), None))]
        if not f.strict:
            if self.texts(head, mod) == self.texts(q, mod) or len(self.texts(head, mod)) == len(self.texts(q, mod)) and all(
                    same(a, b) for a, b in zip(self.texts(head, mod), self.texts(q, mod))):
                return [(True, Ghost(g.mode, i2, g.s, g.Q))]
            if not self.prove(pc, f.is_line(g.s, g.i)):
                raise Unsupported("step does not complete a line")
            if g.Q is not None:
                f.sep = self.separator(q, g, mod) or f.sep
            return [(True, Ghost("B", i2, g.i, f.add(g, g.i)))]
        fit = f.fits(g.s, i2)
        out = []
        for cond in (fit, T.mk_not(fit)):
            q = list(pc) + [T.tb(cond)]
            if not solver.feasible(q):
                continue
            if cond is fit:
                out.append((cond, Ghost(g.mode, i2, g.s, g.Q)))
            else:
                if not self.prove(q, f.is_line(g.s, g.i)):
                    raise Unsupported("step does not complete a line")
                self.count += 1
                out.append((cond, Ghost("B", i2, g.i, f.add(g, g.i))))
        return out

    # ------------------------------------------------------------ templates

    def templates(self, loc, v, g):
        """[(name, value)] a changed variable may have in ghost g."""
        f, n = self.f, self.f.n
        out = []
        if isinstance(v, OStream):
            base = self.base_of(loc)
            qs = [("", "")] if g.Q is None else [("Q", g.Q), ("Q+sep", mkseq("str", *[pterm(p) for x in (g.Q, f.sep) for p in pieces_of(x)])), ("", "")]
            return [("text" + a, OStream(mkseq("str", *[pterm(p) for x in (base, q) for p in pieces_of(x)]))) for a, q in qs]
        if isinstance(v, (OList, OLines)):
            return [("lines", OList([]) if g.Q is None else OLines(g.Q, f.sep))]
        if is_intish(v) and not isinstance(v, (bool, SBool)):
            for a, t in (("i", g.i), ("s", g.s), ("i-s", g.i - g.s), ("n-s", n - g.s), ("n-i", n - g.i),
                         ("i-1", g.i - 1)):
                out.append((a, mkint(T.simp(t))))
            out += [("reach", None), ("ge1", None)]
        elif is_seq(v):
            if kind_of(v) == f.kind:
                for a, (i, j) in (("s:i", (g.s, g.i)), ("s:n", (g.s, n)), ("i:n", (g.i, n)), ("0:s", (z(0), g.s)),
                                  ("0:i", (z(0), g.i))):
                    out.append((a, mkseq(f.kind, f.part(i, j))))
            if kind_of(v) == "str":
                if g.Q is None:
                    out.append(("Q", ""))
                    out.append(("base+Q", self.base))
                else:
                    out.append(("Q", g.Q))
                    out.append(("Q+sep", mkseq("str", *[pterm(p) for x in (g.Q, f.sep) for p in pieces_of(x)])))
                    out.append(("sep+Q", mkseq("str", *[pterm(p) for x in (f.sep, g.Q) for p in pieces_of(x)])))
                out.append(("repr s:i", mkseq("str", f.lit(g.s, g.i))))
        return out

    def base_of(self, loc):
        return self.st.heap[loc[1]].text

    def matches(self, pc, v, name, t, const, g):
        if name == "opaque":
            return True
        if name == "const":
            t = const
        if name == "reach":  # the next line starts there, or the end is reached
            return is_intish(v) and not isinstance(v, (bool, SBool)) and self.prove(
                pc, z3.If(g.s < self.f.n, iterm(v) == g.s, iterm(v) >= self.f.n))
        if name == "ge1":
            return is_intish(v) and not isinstance(v, (bool, SBool)) and self.prove(pc, iterm(v) >= 1)
        if isinstance(t, OStream):
            return isinstance(v, OStream) and self.eq(pc, v.text, t.text)
        if isinstance(v, (OList, OLines)):
            if isinstance(t, OList):
                return isinstance(v, OList) and not v.items
            a = joined(v, self.f.sep)
            return a is not None and self.eq(pc, a, t.head)
        return self.eq(pc, v, t)

    def eq(self, pc, a, b):
        if same(a, b):
            return True
        if is_seq(a) and is_seq(b) and kind_of(a) == kind_of(b):
            return self.prove(pc, T.mk_eq(sterm(a), sterm(b)))
        if isinstance(a, (bool, SBool)) or isinstance(b, (bool, SBool)):
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                return self.prove(pc, T.beq(bterm(a), bterm(b)))
            return False
        if is_intish(a) and is_intish(b):
            return self.prove(pc, T.mk_eq(T.simp(iterm(a)), T.simp(iterm(b))))
        return False

    # ------------------------------------------------------------ states

    def changed(self, s):
        out = set()
        for fid, names in self.st.frames.items():
            for k, v in s.frames[fid].items():
                if k not in names or not same(names[k], v):
                    out.add(("v", fid, k))
        for r, o in self.st.heap.items():
            if s.heap[r] is not o and not (isinstance(o, OStream) and isinstance(s.heap[r], OStream) and same(o.text, s.heap[r].text)) \
                    and not (not isinstance(o, OStream) and osame(o, s.heap[r])):
                out.add(("h", r))
        return out

    def value(self, s, loc):
        return s.heap[loc[1]] if loc[0] == "h" else s.frames[loc[1]].get(loc[2], UNBOUND)

    def build(self, mode, cand, consts):
        g, known = self.head(mode)
        s = self.st.clone()
        for k in known:
            s.assume(k)
        for loc, names in cand.items():
            if not names:
                raise Unsupported("no invariant for %s" % (loc[-1],))
            name = names[0]
            sample = consts[loc]
            if name == "opaque":
                v = VOpaque("variable of a loop")
            elif name == "const":
                v = sample
            elif name in ("ge1", "reach"):
                t = z3.Int("k!%d%s%s" % (self.id, mode, loc[-1]))
                s.assume(t >= 1 if name == "ge1" else z3.If(g.s < self.f.n, t == g.s, t >= self.f.n))
                v = SInt(t)
            else:
                v = dict(self.templates(loc, sample, g))[name]
            if loc[0] == "h":
                s.heap[loc[1]] = OStream(v.text) if isinstance(v, OStream) else v
            else:
                s.frames[loc[1]][loc[2]] = v
        return g, s

    def iteration(self, s, g):
        """(states after the body, exits, other outcomes) of one round from a loop head."""
        e, rounds, exits, outs = self.e, [], [], []
        if self.it is not None:
            cond = g.i < self.f.n
            for c in (cond, T.mk_not(cond)):
                q = s.clone()
                try:
                    q.assume(T.simp(c) if not isinstance(c, bool) else c)
                except Infeasible:
                    continue
                if not solver.feasible(q.pc):
                    continue
                if c is not cond:
                    exits.append(q)
                    continue
                for o in self.body(q, mkint(g.i)):
                    if o.kind in ("next", "continue"):
                        rounds.append(o.st)
                    else:
                        outs.append(o)
            return rounds, exits, outs
        for o in e.run(s, lambda s1: e.branch(s1, e.truth(s1, e.eval(self.node.test, s1, self.fr)))):
            if o.kind == "raise":
                outs.append(o)
            elif not o.val:
                exits.append(o.st)
            else:
                if not self.prove(o.st.pc, g.i < self.f.n):
                    raise Unsupported("loop may not end")
                for b in e.exec_block(self.node.body, o.st, self.fr):
                    if b.kind in ("next", "continue"):
                        rounds.append(b.st)
                    else:
                        outs.append(b)
        return rounds, exits, outs

    # ------------------------------------------------------------ induction

    def solve(self):
        mod = set()
        for _ in range(40):
            r = self.attempt(mod)
            if r is not None:
                return r
        raise Unsupported("invariants do not settle")

    def attempt(self, mod):
        cands, consts = {}, {}
        while True:
            again = False
            result = []
            self.count = 0
            todo, done = ["start"], set()
            while todo:
                mode = todo.pop(0)
                if mode in done:
                    continue
                done.add(mode)
                if mode == "start":
                    g, s = self.initial(), self.st.clone()
                    if self.profile == "line":
                        s.assume(self.f.clip(z(0), self.f.W))
                else:
                    g, s = self.build(mode, cands[mode], consts[mode])
                rounds, exits, outs = self.iteration(s, g)
                for q in exits:
                    result.append(Out("next", self.mark(q, g)))
                for o in outs:
                    result.append(Out(o.kind, self.mark(o.st, g), o.val))
                for q in rounds:
                    new = self.changed(q) - mod
                    if new:
                        mod |= new
                        return None
                    for cond, g2 in self.advance(g, q.pc, s, q, mod):
                        pc = list(q.pc) + ([] if cond is True else [T.tb(cond)])
                        if self.enter(g2, q, pc, mod, cands, consts):
                            again = True
                        todo.append(g2.mode)
            if not again:
                self.x.proved += ["loop%d" % self.x.loops] * self.count
                return result

    def enter(self, g, s, pc, mod, cands, consts):
        """the state satisfies (after dropping what it does not) the invariant of the mode; True if dropped."""
        first = g.mode not in cands
        if first:
            cands[g.mode], consts[g.mode] = {}, {}
        dropped = False
        self.count += len(mod)
        for loc in mod:
            v = self.value(s, loc)
            if isinstance(v, OStream):
                v = OStream(v.text)
            if loc not in cands[g.mode]:
                consts[g.mode][loc] = v
                names = [a for a, _ in self.templates(loc, v, g)]
                if loc[0] == "v":
                    if not isinstance(v, Ref) or v.id in self.st.heap:
                        names.append("const")
                    names.append("opaque")
                cands[g.mode][loc] = names
            ts = dict(self.templates(loc, v, g))
            sample = consts[g.mode][loc]
            old = cands[g.mode][loc]
            # only the first one matters
            while old and not (old[0] in ("const", "opaque", "ge1", "reach") or old[0] in ts) or (
                    old and not self.matches(pc, v, old[0], ts.get(old[0]), sample, g)):
                old = cands[g.mode][loc] = old[1:]
                dropped = True
        return dropped or first

    def mark(self, s, g):
        s.heap = dict(s.heap)
        o = s.heap[self.x.stream.id]
        g.base = self.base
        s.heap[self.x.stream.id] = OStream(o.text, g)
        return s


def joined(o, sep):
    """the text of a non-empty list of lines."""
    if isinstance(o, OLines):
        if not same(o.sep, sep):
            return None
        vs = [o.head] + list(o.items)
    else:
        if o.unordered or not o.items or any(g is not True for g, _ in o.items):
            return None
        vs = [v for _, v in o.items]
    if not all(is_strish(v) for v in vs):
        return None
    out = list(pieces_of(vs[0]))
    for v in vs[1:]:
        out += list(pieces_of(sep)) + list(pieces_of(v))
    return mkseq("str", *out)


def S_(name):
    return SSeq("str", [z3.Const(name, T.S)])
