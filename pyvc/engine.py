"""Symbolic interpreter for Python source: executes functions of /repo over all inputs.

exec_* work on single states and return lists of outcomes (next / return / raise / break /
continue); expression evaluation is direct-style Python code re-run once per decision prefix
(`run`), so every feasible path through an expression becomes one outcome.
"""
import ast
import builtins
import time

import z3

from . import live, solver
from . import terms as T
from .values import *  # noqa: F401,F403
from .values import UNBOUND, Infeasible, PyExc, Unsupported


class Path:
    __slots__ = ("prefix", "taken", "pending", "memo", "count")

    def __init__(self, prefix, pending, memo):
        self.prefix = prefix
        self.taken = ()
        self.pending = pending
        self.memo = memo
        self.count = 0

    def ref(self):
        """the object created at this point of the path (the same one on every replay)."""
        self.count += 1
        key = ("n", self.count, self.taken)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = Ref()
        return r


class Frame:
    """static part of an activation: frame id, function, yield handler."""

    __slots__ = ("fid", "func", "globals", "on_yield", "parent", "local_names", "global_names", "nonlocal_names")

    def __init__(self, fid, func, globals_, parent=None, on_yield=None):
        self.fid = fid
        self.func = func
        self.globals = globals_
        self.parent = parent  # fid chain for closures (tuple of fids)
        self.on_yield = on_yield
        self.global_names = set()
        self.nonlocal_names = set()


_fid = iter(range(1, 1 << 60))


def under(pc, t):
    """t without the case distinctions that the path condition has literally decided."""
    ids = None
    while z3.is_app_of(t, z3.Z3_OP_ITE):
        if ids is None:
            ids = set()
            for c in pc:
                ids.add(c.get_id())
                if z3.is_and(c):
                    ids.update(k.get_id() for k in c.children())
        n = T.mk_not(t.arg(0))
        if t.arg(0).get_id() in ids:
            t = t.arg(1)
        elif isinstance(n, z3.ExprRef) and n.get_id() in ids:
            t = t.arg(2)
        else:
            break
    return t


class Engine:
    def __init__(self, merge=False, lazy=False, deadline=None):
        self.path = None
        self.merge = merge
        self.lazy = lazy
        self.contracts = {}  # qualname -> handler
        self.subclassed = ()  # values (Ref or term) whose class may be a subclass of the built-in one
        self.modules = {}  # name -> VModule
        self.deadline = deadline
        self.unroll = 400
        self.depth = 0
        self.groups = ()
        self.loop_handler = None  # unbounded loops
        self.unit = None  # set while a generator is run on one arbitrary unit of a sequence
        self.trace_funcs = set()  # functions executed
        self.trace_builtins = set()
        self.max_states = 600
        self.prune = False  # drop infeasible states after every statement
        self.star_ids = {}  # keys that stand for any number of dictionary keys
        self.groups = None
        from . import models

        self.models = models
        self.builtins = models.make_builtins(self)

    # ---------------------------------------------------------------- decisions

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")

    def prove_all(self, pc, goals):
        have = {p.get_id() for p in pc}
        goals = [g for g in goals if g.get_id() not in have]
        return not goals or solver.prove(pc, z3.And(*goals), 10000)

    def prove(self, st, goal):
        if goal is True:
            return True
        if goal is False:
            return False
        r = solver.syntactic(st.pc, goal)
        if r is not None:
            return r
        return solver.prove(st.pc, goal, 3000)

    def feasible(self, st, cond):
        if cond is True:
            return True
        if cond is False:
            return False
        r = solver.syntactic(st.pc, cond)
        if r is not None:
            return r
        if self.lazy:
            return True
        return solver.feasible(list(st.pc) + [cond])

    def choose(self, feas):
        """pick one of the options in feas (list of indices), registering the others."""
        p = self.path
        k = len(p.taken)
        if k < len(p.prefix):
            c = p.prefix[k]
        else:
            c = feas[0]
            for o in reversed(feas[1:]):
                p.pending.append(p.taken + (o,))
        p.taken = p.taken + (c,)
        return c

    def fork(self, st, conds):
        """conds: exclusive and exhaustive; returns the chosen index and assumes its condition."""
        p = self.path
        key = ("f",) + p.taken
        feas = p.memo.get(key)
        if feas is None:
            feas = []
            for i, c in enumerate(conds):
                if self.feasible(st, c):
                    feas.append(i)
                    if solver.syntactic(st.pc, c) is True:
                        feas = [i]
                        break
            if not self.lazy and len(feas) > 1 and len(conds) == 2:
                pass
            p.memo[key] = feas
        if not feas:
            raise Infeasible()
        i = self.choose(feas)
        if len(feas) > 1 or self.lazy or len(conds) > 1:
            c = conds[i]
            # when it is the only feasible option it is entailed by the path condition
            if len(feas) > 1:
                st.assume(c)
        return i

    def branch(self, st, cond):
        """truth value of a boolean term on this path."""
        if isinstance(cond, bool):
            return cond
        return self.fork(st, [cond, T.mk_not(cond)]) == 0

    def call_outcomes(self, st, thunk):
        """thunk(state) -> outcomes; continue with one of them."""
        p = self.path
        key = ("c",) + p.taken
        outs = p.memo.get(key)
        if outs is None:
            ALLOC[0] = None
            try:
                outs = thunk(st.clone())
            finally:
                ALLOC[0] = p
            p.memo[key] = outs
        if not outs:
            raise Infeasible()
        o = outs[self.choose(list(range(len(outs))))]
        st.become(o.st)
        if o.kind == "raise":
            raise PyExc(o.val)
        return o.val

    def run(self, st, fn):
        """all paths of fn(state); outcomes next/raise."""
        results = []
        pending = [()]
        memo = {}
        saved = (self.path, ALLOC[0])
        try:
            while pending:
                self.tick()
                prefix = pending.pop()
                s = st.clone()
                self.path = ALLOC[0] = Path(prefix, pending, memo)
                try:
                    v = fn(s)
                    o = Out("next", s, v)
                except PyExc as e:
                    o = Out("raise", s, e.value)
                except Infeasible:
                    continue
                except Unsupported:
                    if s.pc and not solver.feasible(s.pc, 5000):
                        continue
                    raise
                results.append((self.path.taken, o))
                if len(results) > 5000:
                    raise Unsupported("too many paths")
        finally:
            self.path, ALLOC[0] = saved
        results.sort(key=lambda x: x[0])
        return [o for _, o in results]

    # ---------------------------------------------------------------- exceptions

    def exc(self, st, pycls, *args):
        r = st.new(OInst(VType(pycls), {}, tuple(args)))
        return PyExc(r)

    def exc_class(self, st, r):
        if isinstance(r, Ref):
            o = st.get(r)
            if isinstance(o, OInst):
                return o.cls
        return None

    def subclass(self, c, d):
        if isinstance(c, VClass):
            return d in c.mro()
        if isinstance(d, VClass):
            return False
        return issubclass(c.py, d.py)

    # ---------------------------------------------------------------- statements

    def exec_block(self, stmts, st, fr):
        """outcomes of a statement list; several 'next' states are kept in exploration order."""
        states = [st]
        outs = []
        for stmt in stmts:
            nxt = []
            for s in states:
                self.tick()
                for o in self.exec_stmt(stmt, s, fr):
                    if o.kind == "next":
                        nxt.append(o.st)
                    else:
                        outs.append(o)
            if self.merge and len(nxt) > 1:
                nxt = merge_all(nxt)
            if len(nxt) > self.max_states:
                raise Unsupported("too many states")
            if self.prune:
                nxt = [s for s in nxt if s.pc is states[0].pc or solver.feasible(s.pc, 3000)]
            states = nxt
            if not states:
                break
        return outs + [Out("next", s) for s in states]

    def exec_stmt(self, n, st, fr):
        m = getattr(self, "x_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("statement %s at line %s" % (type(n).__name__, getattr(n, "lineno", "?")))
        return m(n, st, fr)

    def simple(self, st, fn):
        return [o if o.kind == "raise" else Out("next", o.st) for o in self.run(st, fn)]

    def x_Pass(self, n, st, fr):
        return [Out("next", st)]

    def x_Global(self, n, st, fr):
        fr.global_names.update(n.names)
        return [Out("next", st)]

    def x_Nonlocal(self, n, st, fr):
        fr.nonlocal_names.update(n.names)
        return [Out("next", st)]

    def x_Expr(self, n, st, fr):
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(n.value, st, fr, lambda s, v: None)
        if isinstance(n.value, ast.Constant):
            return [Out("next", st)]
        return self.simple(st, lambda s: self.eval(n.value, s, fr))

    def do_yield(self, y, st, fr, store):
        if fr.on_yield is None:
            raise Unsupported("yield without consumer")
        outs = []
        if isinstance(y, ast.YieldFrom):
            for o in self.run(st, lambda s: self.eval(y.value, s, fr)):
                if o.kind == "raise":
                    outs.append(o)
                else:
                    outs += self.iterate(o.st, o.val, lambda s2, v: fr.on_yield(s2, v))
            return outs
        for o in self.run(st, lambda s: None if y.value is None else self.eval(y.value, s, fr)):
            if o.kind == "raise":
                outs.append(o)
            else:
                outs += fr.on_yield(o.st, o.val)
        return outs

    def x_Assign(self, n, st, fr):
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            raise Unsupported("yield value used")

        def go(s):
            v = self.eval(n.value, s, fr)
            for t in n.targets:
                self.assign(t, v, s, fr)

        return self.simple(st, go)

    def x_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [Out("next", st)]
        return self.simple(st, lambda s: self.assign(n.target, self.eval(n.value, s, fr), s, fr))

    def x_AugAssign(self, n, st, fr):
        def go(s):
            t = n.target
            if isinstance(t, ast.Name):
                old = self.load_name(t.id, s, fr)
                self.assign(t, self.inplace(s, n.op, old, lambda: self.eval(n.value, s, fr)), s, fr)
            elif isinstance(t, ast.Subscript):
                obj = self.eval(t.value, s, fr)
                idx = self.eval(t.slice, s, fr)
                old = self.getitem(s, obj, idx)
                self.setitem(s, obj, idx, self.inplace(s, n.op, old, lambda: self.eval(n.value, s, fr)))
            elif isinstance(t, ast.Attribute):
                obj = self.eval(t.value, s, fr)
                old = self.getattr(s, obj, t.attr)
                self.setattr(s, obj, t.attr, self.inplace(s, n.op, old, lambda: self.eval(n.value, s, fr)))
            else:
                raise Unsupported("augmented target")

        return self.simple(st, go)

    def inplace(self, st, op, old, valf):
        val = valf()
        return self.models.inplace(self, st, op, old, val)

    def x_If(self, n, st, fr):
        outs = []
        for o in self.run(st, lambda s: self.branch(s, self.truth(s, self.eval(n.test, s, fr)))):
            if o.kind == "raise":
                outs.append(o)
            else:
                outs += self.exec_block(n.body if o.val else n.orelse, o.st, fr)
        return outs

    def x_Return(self, n, st, fr):
        return [
            o if o.kind == "raise" else Out("return", o.st, o.val)
            for o in self.run(st, lambda s: None if n.value is None else self.eval(n.value, s, fr))
        ]

    def x_Break(self, n, st, fr):
        return [Out("break", st)]

    def x_Continue(self, n, st, fr):
        return [Out("continue", st)]

    def x_Assert(self, n, st, fr):
        def go(s):
            if not self.branch(s, self.truth(s, self.eval(n.test, s, fr))):
                raise self.exc(s, AssertionError)

        return self.simple(st, go)

    def x_Delete(self, n, st, fr):
        def go(s):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    self.load_name(t.id, s, fr)
                    s.frames[fr.fid].pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    self.models.delitem(self, s, self.eval(t.value, s, fr), self.eval(t.slice, s, fr))
                else:
                    raise Unsupported("del target")

        return self.simple(st, go)

    def x_Raise(self, n, st, fr):
        def go(s):
            if n.exc is None:
                cur = s.frames[fr.fid].get("__exc__", UNBOUND)
                if cur is UNBOUND:
                    raise self.exc(s, RuntimeError, "No active exception to reraise")
                raise PyExc(cur)
            e = self.eval(n.exc, s, fr)
            e = self.force(s, e)
            if isinstance(e, (VClass, VType)):
                e = self.call(s, e, [], {})
            if n.cause is not None:
                self.eval(n.cause, s, fr)
            if self.exc_class(s, e) is None or not self.subclass(self.exc_class(s, e), VType(BaseException)):
                raise self.exc(s, TypeError, "exceptions must derive from BaseException")
            raise PyExc(e)

        return self.run(st, go)

    def x_Try(self, n, st, fr):
        outs = []
        pend = []
        for o in self.exec_block(n.body, st, fr):
            if o.kind == "raise":
                pend += self.handle(n.handlers, o, fr)
            elif o.kind == "next" and n.orelse:
                pend += self.exec_block(n.orelse, o.st, fr)
            else:
                pend.append(o)
        if not n.finalbody:
            return pend
        for o in pend:
            for f in self.exec_block(n.finalbody, o.st, fr):
                outs.append(Out(o.kind, f.st, o.val) if f.kind == "next" else f)
        return outs

    def handle(self, handlers, o, fr):
        exc = o.val
        cls = self.exc_class(o.st, exc)
        st = o.st
        for h in handlers:
            if h.type is None:
                match = True
            else:
                ts = self.run(st, lambda s: self.eval(h.type, s, fr))
                if len(ts) != 1 or ts[0].kind != "next":
                    raise Unsupported("exception class expression")
                t = ts[0].val
                ts = list(t) if isinstance(t, tuple) else [t]
                match = any(self.subclass(cls, x) for x in ts)
            if match:
                s = st.clone()
                f = s.frames[fr.fid]
                saved = f.get("__exc__", UNBOUND)
                f["__exc__"] = exc
                if h.name:
                    f[h.name] = exc
                outs = self.exec_block(h.body, s, fr)
                for x in outs:
                    g = x.st.frames.get(fr.fid)
                    if g is not None:
                        if saved is UNBOUND:
                            g.pop("__exc__", None)
                        else:
                            g["__exc__"] = saved
                        if h.name:
                            g.pop(h.name, None)
                return outs
        return [o]

    def x_With(self, n, st, fr):
        # contextlib.suppress only
        if len(n.items) == 1:
            c = n.items[0].context_expr
            ts = self.run(st, lambda s: self.eval(c, s, fr))
            if len(ts) == 1 and ts[0].kind == "next" and isinstance(ts[0].val, tuple) and ts[0].val[:1] == ("suppress",):
                outs = []
                for o in self.exec_block(n.body, ts[0].st, fr):
                    if o.kind == "raise" and any(
                            self.subclass(self.exc_class(o.st, o.val), t) for t in ts[0].val[1:]):
                        o = Out("next", o.st)
                    outs.append(o)
                return outs
        raise Unsupported("with statement")

    def x_FunctionDef(self, n, st, fr):
        def go(s):
            f = self.make_function(n, s, fr)
            for d in reversed(n.decorator_list):
                dv = self.eval(d, s, fr)
                f = self.models.decorate(self, s, dv, f)
            self.store_name(n.name, f, s, fr)

        return self.simple(st, go)

    def x_ClassDef(self, n, st, fr):
        def go(s):
            bases = [self.eval(b, s, fr) for b in n.bases] or [VType(object)]
            for b in bases:
                if not isinstance(b, (VClass, VType)):
                    raise Unsupported("class base")
            if n.keywords or n.decorator_list:
                raise Unsupported("class keywords or decorators")
            cf = next(_fid)
            s.frames[cf] = {}
            sub = Frame(cf, None, fr.globals, parent=None)
            outs = self.exec_block(n.body, s.clone(), sub)
            if len(outs) != 1 or outs[0].kind != "next":
                raise Unsupported("class body")
            s.become(outs[0].st)
            ns = s.frames.pop(cf)
            c = VClass(n.name, bases, ns, self.modname(fr))
            for k, v in ns.items():
                if isinstance(v, VFunc):
                    v.owner = c
                    v.name = n.name + "." + k
            self.store_name(n.name, c, s, fr)

        return self.simple(st, go)

    def modname(self, fr):
        for m in self.modules.values():
            if m.fid == fr.globals:
                return m.name
        return "?"

    def x_Import(self, n, st, fr):
        def go(s):
            for a in n.names:
                m = self.import_module(a.name, s)
                if a.asname:
                    self.store_name(a.asname, m, s, fr)
                else:
                    top = a.name.split(".")[0]
                    self.store_name(top, self.import_module(top, s), s, fr)

        return self.simple(st, go)

    def x_ImportFrom(self, n, st, fr):
        def go(s):
            m = self.import_module(n.module, s)
            for a in n.names:
                if a.name == "*":
                    raise Unsupported("import *")
                v = self.module_attr(s, m, a.name)
                if v is UNBOUND:
                    v = self.import_module(n.module + "." + a.name, s)
                self.store_name(a.asname or a.name, v, s, fr)

        return self.simple(st, go)

    def module_attr(self, s, m, name):
        if m.fid is not None:
            return s.frames[m.fid].get(name, UNBOUND)
        if m.name in ("typing", "typing_extensions", "__future__", "collections.abc", "types"):
            if name == "TYPE_CHECKING":
                return False
            return VOpaque(m.name + "." + name)
        return m.attrs.get(name, UNBOUND)

    def import_module(self, name, s):
        m = self.modules.get(name)
        if m is None:
            m = self.models.stdlib_module(self, name)
            if m is None:
                raise Unsupported("import of %s" % name)
            self.modules[name] = m
        return m

    # ---------------------------------------------------------------- loops

    def x_For(self, n, st, fr):
        outs = []
        for o in self.run(st, lambda s: self.eval(n.iter, s, fr)):
            if o.kind == "raise":
                outs.append(o)
                continue

            dead = live.dead_after_iteration(fr.func.node, n) if self.merge and fr.func is not None else ()

            def body(s, v):
                res = []
                for a in self.run(s, lambda s1: self.assign(n.target, v, s1, fr)):
                    if a.kind == "raise":
                        res.append(a)
                    else:
                        res += self.exec_block(n.body, a.st, fr)
                for o in res if dead else ():
                    if o.kind in ("next", "continue"):
                        f = o.st.frames[fr.fid]
                        for x in dead:
                            if x in f:
                                f[x] = UNBOUND
                return res

            inner = self.iterate(o.st, o.val, body, node=n, fr=fr)
            done = []
            for x in inner:
                if x.kind == "next":
                    done += self.exec_block(n.orelse, x.st, fr) if n.orelse else [x]
                elif x.kind == "break":
                    done.append(Out("next", x.st))
                else:
                    done.append(x)
            outs += done
        return self.join_next(outs)

    def join_next(self, outs):
        nxt = [o.st for o in outs if o.kind == "next"]
        if len(nxt) > 1:
            nxt = merge_all(nxt)
            return [o for o in outs if o.kind != "next"] + [Out("next", s) for s in nxt]
        return outs

    def iterate(self, st, it, body, node=None, fr=None):
        """run body(state, element) for every element; outcomes (continue folded into next)."""
        it = self.models.as_iterable(self, st, it)
        if isinstance(it, VUnion):
            outs = []
            for o in self.run(st, lambda s: self.force(s, it)):
                outs += [o] if o.kind == "raise" else self.iterate(o.st, o.val, body, node, fr)
            return self.join_next(outs)
        if isinstance(it, VGen):
            return self.iterate_gen(st, it, body)
        if isinstance(it, VEnum):
            return self.iterate_enum(st, it, body)
        if isinstance(it, VRange) or (isinstance(it, SSeq)):
            if self.loop_handler is not None and isinstance(it, VRange):
                r = self.loop_handler(self, st, it, body, node, fr)
                if r is not None:
                    return r
            if self.unit is not None and isinstance(it, SSeq) and "seq" not in self.unit:
                self.unit["seq"] = it
                self.unit["u"] = u = self.models.unit_of(it.kind)
                return body(st.clone(), u)
            raise Unsupported("loop over a sequence of unknown length")
        if not isinstance(it, VIter):
            outs = self.run(st, lambda s: self.models.iter_error(self, s, it))
            return outs
        items = it.items
        outs = []
        states = [st]
        pre = None
        if it.unordered and len(items) > 1:
            pre = st
        for g, v in items:
            nxt = []
            for s in states:
                self.tick()
                if g is not True:
                    known = solver.syntactic(s.pc, g)
                    if known is False:
                        nxt.append(s)
                        continue
                    if known is None:
                        s0 = s.clone()
                        s0.assume(T.mk_not(g))
                        s1 = s.clone()
                        s1.assume(g)
                        if not self.lazy or isinstance(v, (SInt, SSeq, VObj)):
                            if not solver.feasible(s1.pc):
                                nxt.append(s)
                                continue
                            if not solver.feasible(s0.pc):
                                s0 = None
                    else:
                        s1, s0 = s, None
                else:
                    s1, s0 = s, None
                star = id(v) in self.star_ids
                for o in body(s1, v):
                    if o.kind in ("next", "continue"):
                        if star:
                            self.unchanged(s1, o.st)
                        nxt.append(o.st)
                    else:
                        outs.append(o)
                if s0 is not None:
                    nxt.append(s0)
            if len(nxt) > 1:
                nxt = merge_all(nxt)
            if len(nxt) > 64:
                raise Unsupported("too many states in a loop")
            states = nxt
            if not states:
                break
        if pre is not None:
            if outs and self.lazy:
                outs = [o for o in outs if solver.feasible(o.st.pc, 5000)]
            self.models.check_commutes(self, pre, it, body, states, outs)
        return outs + [Out("next", s) for s in states]

    def iterate_enum(self, st, it, body):
        fid = next(_fid)
        s = st.clone()
        s.frames[fid] = {"count": it.start}

        def counted(s2, v):
            k = s2.frames[fid]["count"]
            s2.frames[fid]["count"] = self.models.binop(self, s2, ast.Add(), k, 1)
            return body(s2, (k, v))

        outs = self.iterate(s, it.inner, counted)
        for o in outs:
            o.st.frames.pop(fid, None)
        return outs

    def unchanged(self, a, b):
        """one step of a loop, for a key that stands for any number of keys, has changed nothing;
        so neither do the steps for the others."""
        for i, o in a.heap.items():
            if b.heap.get(i) is not o and not osame(o, b.heap[i]):
                raise Unsupported("effect of any number of further keys")
        for f, names in a.frames.items():
            for k in b.frames[f]:
                if k not in names or not same(names[k], b.frames[f][k]):
                    b.frames[f][k] = VOpaque("depends on further keys")

    def iterate_gen(self, st, gen, body):
        """consume a generator: its body runs inline, each yield runs the consumer."""
        if gen.genexp is not None:
            node, fr = gen.genexp
            return self.iterate_comp(node, st, fr, body)
        func = gen.func
        fid = next(_fid)
        s = st.clone()
        s.frames[fid] = dict(gen.bound)
        SIG = "gen"

        def on_yield(s2, v):
            res = []
            for o in body(s2, v):
                if o.kind in ("next", "continue"):
                    res.append(Out("next", o.st))
                elif o.kind == "raise":
                    res.append(Out("xraise", o.st, o.val))
                else:
                    res.append(Out("x" + o.kind, o.st, o.val))
            return res

        fr = Frame(fid, func, func.globals, parent=func.closure, on_yield=on_yield)
        self.trace_funcs.add(func.qual)
        outs = []
        for o in self.exec_block(func.node.body, s, fr):
            o.st.frames.pop(fid, None)
            if o.kind in ("next", "return"):
                outs.append(Out("next", o.st))
            elif o.kind.startswith("x"):
                outs.append(Out(o.kind[1:], o.st, o.val))
            elif o.kind == "raise":
                outs.append(o)
            else:
                raise Unsupported("generator outcome")
        return self.join_next(outs)

    def x_While(self, n, st, fr):
        outs = []
        states = [st]
        count = 0
        exits = []
        while states:
            count += 1
            nxt = []
            undecided = False
            for s in states:
                self.tick()
                s, skip = self.peel(n, s, fr)
                if skip is not None:
                    nxt.append(skip)
                if s is None:
                    continue
                tests = self.run(s, lambda s1: self.branch(s1, self.truth(s1, self.eval(n.test, s1, fr))))
                vals = {o.val for o in tests if o.kind == "next"}
                if True in vals and self.loop_handler is not None and count == 1:
                    r = self.loop_handler(self, s, None, None, n, fr)
                    if r is not None:
                        for o in r:
                            if o.kind == "next":
                                for x in self.exec_block(n.orelse, o.st, fr) if n.orelse else [o]:
                                    (exits if x.kind == "next" else outs).append(x.st if x.kind == "next" else x)
                            elif o.kind == "break":
                                exits.append(o.st)
                            else:
                                outs.append(o)
                        continue
                for o in tests:
                    if o.kind == "raise":
                        outs.append(o)
                    elif not o.val:
                        for e in self.exec_block(n.orelse, o.st, fr) if n.orelse else [Out("next", o.st)]:
                            (exits if e.kind == "next" else outs).append(e.st if e.kind == "next" else e)
                    else:
                        for b in self.exec_block(n.body, o.st, fr):
                            if b.kind in ("next", "continue"):
                                nxt.append(b.st)
                            elif b.kind == "break":
                                exits.append(b.st)
                            else:
                                outs.append(b)
            if len(nxt) > 1:
                nxt = merge_all(nxt)
            states = nxt
            if count > self.unroll:
                raise Unsupported("while loop not bounded")
        if len(exits) > 1:
            exits = merge_all(exits)
        return outs + [Out("next", s) for s in exits]

    def peel(self, n, s, fr):
        """while xs: ... xs.pop(0) ... over a list whose first element may be absent: the state with that
        element, and the state without it, which goes to the next round unchanged."""
        t = n.test
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("len", "bool") and len(t.args) == 1:
            t = t.args[0]
        if not isinstance(t, ast.Name):
            return s, None
        v = s.frames[fr.fid].get(t.id)
        o = s.get(v) if isinstance(v, Ref) else None
        if not isinstance(o, OList) or o.unordered or not o.items or all(g is True for g, _ in o.items):
            return s, None
        pops = [c for b in n.body for c in ast.walk(b) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute)
                and c.func.attr == "pop" and isinstance(c.func.value, ast.Name) and c.func.value.id == t.id]
        if len(pops) != 1 or len(pops[0].args) > 1:
            return s, None
        front = bool(pops[0].args)
        if front and not (isinstance(pops[0].args[0], ast.Constant) and pops[0].args[0].value == 0):
            return s, None
        g, x = o.items[0 if front else -1]
        if g is True:
            return s, None
        rest = o.items[1:] if front else o.items[:-1]
        known = solver.syntactic(s.pc, g)
        if known is None:
            skip = s.clone()
            skip.assume(T.mk_not(g))
            skip.set(v, OList(rest))
            s = s.clone()
            s.assume(g)
        else:
            skip = None
            s = s.clone()
            if not known:
                s.set(v, OList(rest))
                return None, s
        s.set(v, OList(((True, x),) + rest if front else rest + ((True, x),)))
        return s, skip

    # ---------------------------------------------------------------- names

    def load_name(self, name, st, fr):
        if name not in fr.global_names:
            f = st.frames[fr.fid]
            if name in f:
                v = f[name]
                if v is UNBOUND:
                    raise self.exc(st, UnboundLocalError, name)
                if isinstance(v, VUnion) and any(a is UNBOUND for _, a in v.alts):
                    v = self.force(st, v)
                    if v is UNBOUND:
                        raise self.exc(st, UnboundLocalError, name)
                return v
            if fr.fid != fr.globals and fr.func is not None and name in self.locals_of(fr.func) \
                    and name not in fr.nonlocal_names:
                raise self.exc(st, UnboundLocalError, name)
            for fid in fr.parent or ():
                if fid in st.frames and name in st.frames[fid]:
                    return st.frames[fid][name]
        g = st.frames[fr.globals]
        if name in g:
            return g[name]
        if name in self.builtins:
            return self.builtins[name]
        if hasattr(builtins, name):
            v = getattr(builtins, name)
            if isinstance(v, type):
                return VType(v)
            raise Unsupported("built-in %s" % name)
        raise self.exc(st, NameError, name)

    def locals_of(self, func):
        r = getattr(func.node, "_locals", None)
        if r is None:
            r = set()

            def visit(n):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                        if hasattr(c, "name"):
                            r.add(c.name)
                        continue
                    if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        continue
                    if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                        r.add(c.id)
                    if isinstance(c, ast.ExceptHandler) and c.name:
                        r.add(c.name)
                    visit(c)

            if isinstance(func.node, ast.FunctionDef):
                visit(func.node)
                for c in ast.walk(func.node):
                    if isinstance(c, (ast.Global, ast.Nonlocal)):
                        r -= set(c.names)
            func.node._locals = r
        return r

    def store_name(self, name, v, st, fr):
        if name in fr.global_names:
            st.frames[fr.globals][name] = v
        elif name in fr.nonlocal_names:
            for fid in fr.parent or ():
                if fid in st.frames and name in st.frames[fid]:
                    st.frames[fid][name] = v
                    return
            raise Unsupported("nonlocal")
        else:
            st.frames[fr.fid][name] = v

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(st, v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            if any(isinstance(e, ast.Starred) for e in t.elts):
                k = next(i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred))
                after = len(t.elts) - k - 1
                if len(vals) < len(t.elts) - 1:
                    raise self.exc(st, ValueError, "unpack")
                mid = st.new(OList([(True, x) for x in vals[k:len(vals) - after]]))
                vals = list(vals[:k]) + [mid] + list(vals[len(vals) - after:])
                for e, x in zip(t.elts, vals):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, fr)
                return
            for e, x in zip(t.elts, vals):
                self.assign(e, x, st, fr)
        elif isinstance(t, ast.Subscript):
            self.setitem(st, self.eval(t.value, st, fr), self.eval(t.slice, st, fr), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(st, self.eval(t.value, st, fr), t.attr, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, st, v, n, star=False):
        v = self.force(st, v)
        if not isinstance(v, tuple):
            it = self.models.as_iterable(self, st, v)
            if isinstance(it, VGen):
                it = self.models.materialize(self, st, it)
            if not isinstance(it, VIter) or it.unordered or any(g is not True for g, _ in it.items):
                raise Unsupported("unpacking")
            v = tuple(x for _, x in it.items)
        if not star and len(v) != n:
            raise self.exc(st, ValueError, "unpack")
        return v

    # ---------------------------------------------------------------- expressions

    def eval(self, n, st, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s at line %s" % (type(n).__name__, getattr(n, "lineno", "?")))
        return m(n, st, fr)

    def force(self, st, v):
        """resolve a union of values by case distinction."""
        while isinstance(v, VUnion):
            v = v.alts[self.fork(st, [g for g, _ in v.alts])][1]
        return v

    def truth(self, st, v):
        """truth value as bool or z3 Bool."""
        v = self.force(st, v)
        return self.models.truth(self, st, v)

    def e_Constant(self, n, st, fr):
        if n.value is Ellipsis:
            return VOpaque("...")
        return n.value

    def e_Name(self, n, st, fr):
        return self.load_name(n.id, st, fr)

    def e_Tuple(self, n, st, fr):
        return tuple(self.elements(n.elts, st, fr))

    def elements(self, elts, st, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.force(st, self.eval(e.value, st, fr))
                if isinstance(v, tuple):
                    out += list(v)
                    continue
                it = self.models.as_iterable(self, st, v)
                if isinstance(it, VIter) and not it.unordered and all(g is True for g, _ in it.items):
                    out += [x for _, x in it.items]
                    continue
                raise Unsupported("starred")
            out.append(self.eval(e, st, fr))
        return out

    def e_List(self, n, st, fr):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            items = []
            unordered = False
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    v = self.models.materialize(self, st, self.eval(e.value, st, fr))
                    items += list(v.items)
                    unordered = unordered or v.unordered
                else:
                    items.append((True, self.eval(e, st, fr)))
            return st.new(OList(items, unordered))
        return st.new(OList([(True, v) for v in self.elements(n.elts, st, fr)]))

    def e_Set(self, n, st, fr):
        return self.models.make_set(self, st, VIter([(True, v) for v in self.elements(n.elts, st, fr)]))

    def e_Dict(self, n, st, fr):
        r = st.new(ODict())
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.models.dict_update(self, st, r, self.eval(v, st, fr))
            else:
                kk = self.eval(k, st, fr)
                self.setitem(st, r, kk, self.eval(v, st, fr))
        return r

    def e_IfExp(self, n, st, fr):
        if self.branch(st, self.truth(st, self.eval(n.test, st, fr))):
            return self.eval(n.body, st, fr)
        return self.eval(n.orelse, st, fr)

    def e_BoolOp(self, n, st, fr):
        v = None
        for i, e in enumerate(n.values):
            v = self.eval(e, st, fr)
            if i == len(n.values) - 1:
                return v
            t = self.truth(st, v)
            # keep a boolean symbolic when all operands are pure comparisons: no fork needed
            if isinstance(v, (SBool, bool)) and not isinstance(t, bool) and all(
                    pure_bool(x) for x in n.values[i + 1:]):
                acc = [t]
                for x in n.values[i + 1:]:
                    w = self.eval_pure(x, st, fr)
                    if w is None:
                        break
                    acc.append(w)
                else:
                    return mkbool(T.mk_and(acc) if isinstance(n.op, ast.And) else T.mk_or(acc))
            b = self.branch(st, t)
            if isinstance(n.op, ast.And) != b:
                return v
        return v

    def eval_pure(self, n, st, fr):
        """boolean term of a total boolean expression, or None."""
        p = self.path
        before, memo, prefix = p.taken, p.memo, p.prefix
        pend = len(p.pending)
        p.memo = dict(memo)
        p.prefix = before
        try:
            v = self.eval(n, st.clone(), fr)
            if p.taken != before or not isinstance(v, (bool, SBool)):
                return None  # a decision was needed
            return bterm(v)
        except (PyExc, Infeasible):
            return None
        finally:
            del p.pending[pend:]
            p.taken, p.memo, p.prefix = before, memo, prefix

    def e_NamedExpr(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        self.assign(n.target, v, st, fr)
        return v

    def e_UnaryOp(self, n, st, fr):
        v = self.force(st, self.eval(n.operand, st, fr))
        if isinstance(n.op, ast.Not):
            t = self.truth(st, v)
            return mkbool(T.mk_not(t))
        return self.models.unary(self, st, n.op, v)

    def e_BinOp(self, n, st, fr):
        a = self.eval(n.left, st, fr)
        b = self.eval(n.right, st, fr)
        return self.models.binop(self, st, n.op, self.force(st, a), self.force(st, b))

    def e_Compare(self, n, st, fr):
        left = self.eval(n.left, st, fr)
        res = None
        for i, (op, rn) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(rn, st, fr)
            r = self.models.compare(self, st, op, left, right)
            if i == len(n.ops) - 1:
                if res is None:
                    return r
                return mkbool(T.mk_and(res, self.truth(st, r)))
            t = self.truth(st, r)
            if isinstance(t, bool):
                if not t:
                    return False
            else:
                if not self.branch(st, t):
                    return False
            left = right
        return res

    def e_Subscript(self, n, st, fr):
        obj = self.eval(n.value, st, fr)
        if isinstance(obj, (VOpaque, VType)):
            return VOpaque("subscript")
        idx = self.eval(n.slice, st, fr)
        return self.getitem(st, obj, idx)

    def e_Slice(self, n, st, fr):
        return slice(
            None if n.lower is None else self.eval(n.lower, st, fr),
            None if n.upper is None else self.eval(n.upper, st, fr),
            None if n.step is None else self.eval(n.step, st, fr),
        )

    def e_Attribute(self, n, st, fr):
        return self.getattr(st, self.eval(n.value, st, fr), n.attr)

    def e_JoinedStr(self, n, st, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, st, fr)
                spec = ""
                if v.format_spec is not None:
                    spec = self.e_JoinedStr(v.format_spec, st, fr)
                if v.conversion == 114:
                    x = self.models.py_repr(self, st, x)
                elif v.conversion == 115:
                    x = self.models.py_str(self, st, x)
                elif v.conversion == 97:
                    x = self.models.opaque_text(st, x)
                parts.append(self.models.format_value(self, st, x, spec))
        return self.models.concat_str(parts)

    def e_Lambda(self, n, st, fr):
        return self.make_function(n, st, fr)

    def e_ListComp(self, n, st, fr):
        return self.comp(n, st, fr, "list")

    def e_SetComp(self, n, st, fr):
        return self.comp(n, st, fr, "set")

    def e_DictComp(self, n, st, fr):
        return self.comp(n, st, fr, "dict")

    def e_GeneratorExp(self, n, st, fr):
        return VGen(None, None, (n, fr))

    def comp(self, n, st, fr, kind):
        acc = st.new({"list": OList([]), "set": OSet({}), "dict": ODict({})}[kind])
        flag = [False]

        def add(s, v):
            def go(s1):
                if kind == "list":
                    self.models.list_method(self, s1, acc, s1.get(acc), "append", [v], {})
                elif kind == "set":
                    self.models.set_add(self, s1, acc, v)
                else:
                    self.setitem(s1, acc, v[0], v[1])

            return self.simple(s, go)

        def thunk(s):
            outs = self.iterate_comp(n, s, fr, add, flag)
            if flag[0]:
                for o in outs:
                    if o.kind == "next":
                        x = o.st.get(acc)
                        if isinstance(x, OList):
                            o.st.set(acc, OList(x.items, True))
                        elif isinstance(x, ODict):
                            o.st.set(acc, ODict(x.entries, x.others, True, x.tag))
            return self.join_next(outs)

        self.call_outcomes(st, thunk)
        return acc

    def iterate_comp(self, n, st, fr, consume, unordered_flag=None):
        """loops of a comprehension; consume(state, value) -> outcomes."""
        fid = next(_fid)
        s = st.clone()
        s.frames[fid] = {}
        sub = Frame(fid, None, fr.globals, parent=(fr.fid,) + tuple(fr.parent or ()))
        sub.func = None

        def level(s, i):
            if i == len(n.generators):
                outs = []
                for o in self.run(s, lambda s1: (
                    (self.eval(n.key, s1, sub), self.eval(n.value, s1, sub)) if isinstance(n, ast.DictComp)
                        else self.eval(n.elt, s1, sub))):
                    outs += [o] if o.kind == "raise" else consume(o.st, o.val)
                return outs
            g = n.generators[i]
            targets = [t.id for t in ast.walk(g.target) if isinstance(t, ast.Name)]
            outs = []
            efr = fr if i == 0 else sub
            for o in self.run(s, lambda s1: self.eval(g.iter, s1, efr)):
                if o.kind == "raise":
                    outs.append(o)
                    continue
                itv = o.val
                it = self.models.as_iterable(self, o.st, itv)
                if isinstance(it, VIter) and it.unordered:
                    # the consumer's result is a collection: mark it unordered
                    if unordered_flag is None:
                        raise Unsupported("ordered use of an unordered collection")
                    unordered_flag[0] = True
                    itv = VIter(it.items, False)

                def body(s2, v):
                    res = []
                    for a in self.run(s2, lambda s3: self.assign(g.target, v, s3, sub)):
                        if a.kind == "raise":
                            res.append(a)
                            continue

                        def tests(s4):
                            for c in g.ifs:
                                t = self.truth(s4, self.eval(c, s4, sub))
                                if not self.branch(s4, t):
                                    return False
                            return True

                        for t in self.run(a.st, tests):
                            if t.kind == "raise":
                                res.append(t)
                            elif t.val:
                                res += level(t.st, i + 1)
                            else:
                                res.append(Out("next", t.st))
                    for x in res:
                        # the target is rebound before it can be read again
                        f = x.st.frames.get(fid)
                        if f is not None:
                            for nm in targets:
                                f.pop(nm, None)
                    return res

                outs += self.iterate(o.st, itv, body)
            return outs

        outs = level(s, 0)
        for o in outs:
            o.st.frames.pop(fid, None)
        return outs

    def e_Call(self, n, st, fr):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and len(n.args) == 2 and not n.keywords:
            cls, me = self.eval(n.args[0], st, fr), self.eval(n.args[1], st, fr)
            if isinstance(cls, VClass):
                return VSuper(cls, me)
            raise Unsupported("super()")
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            cls = fr.func.owner if fr.func is not None else None
            if cls is None:
                raise Unsupported("super()")
            first = fr.func.node.args.args[0].arg
            return VSuper(cls, st.frames[fr.fid][first])
        if isinstance(n.func, ast.Attribute):
            obj = self.eval(n.func.value, st, fr)
            args, kw = self.arguments(n, st, fr)
            return self.call_method(st, obj, n.func.attr, args, kw)
        f = self.eval(n.func, st, fr)
        args, kw = self.arguments(n, st, fr)
        return self.call(st, f, args, kw)

    def arguments(self, n, st, fr):
        args = self.elements(n.args, st, fr)
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value, st, fr)
            if k.arg is None:
                d = self.force(st, v)
                o = st.get(d) if isinstance(d, Ref) else None
                if not isinstance(o, ODict) or o.others or any(g is not True for g, _ in o.entries.values()):
                    raise Unsupported("** argument")
                for kk, (_, vv) in o.entries.items():
                    kw[kk] = vv
            else:
                kw[k.arg] = v
        return args, kw

    # ---------------------------------------------------------------- calls

    def make_function(self, n, st, fr):
        a = n.args
        defaults = [self.eval(d, st, fr) for d in a.defaults]
        kwd = {x.arg: (UNBOUND if d is None else self.eval(d, st, fr)) for x, d in zip(a.kwonlyargs, a.kw_defaults)}
        closure = () if fr.fid == fr.globals else (fr.fid,) + tuple(fr.parent or ())
        return VFunc(n, fr.globals, closure, defaults, kwd, getattr(n, "name", "<lambda>"), self.modname(fr))

    def bind(self, st, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        b = {}
        if len(args) > len(names) and a.vararg is None:
            raise self.exc(st, TypeError, "too many arguments")
        for nme, v in zip(names, args):
            b[nme] = v
        if a.vararg is not None:
            b[a.vararg.arg] = tuple(args[len(names):])
        posonly = {x.arg for x in a.posonlyargs}
        for nme in names:
            if nme in kw and nme not in posonly:
                if nme in b:
                    raise self.exc(st, TypeError, "multiple values for argument")
                b[nme] = kw.pop(nme)
        nd = len(f.defaults)
        for i, nme in enumerate(names):
            if nme not in b:
                j = i - (len(names) - nd)
                if j < 0:
                    raise self.exc(st, TypeError, "missing argument " + nme)
                b[nme] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg in kw:
                b[x.arg] = kw.pop(x.arg)
            elif f.kwdefaults.get(x.arg, UNBOUND) is not UNBOUND:
                b[x.arg] = f.kwdefaults[x.arg]
            else:
                raise self.exc(st, TypeError, "missing keyword argument " + x.arg)
        if a.kwarg is not None:
            b[a.kwarg.arg] = st.new(ODict({k: (True, v) for k, v in kw.items()}))
        elif kw:
            raise self.exc(st, TypeError, "unexpected keyword argument")
        return b

    def is_generator(self, f):
        if f.is_gen is None:
            f.is_gen = False
            if isinstance(f.node, ast.FunctionDef):
                stack = list(f.node.body)
                while stack:
                    x = stack.pop()
                    if isinstance(x, (ast.Yield, ast.YieldFrom)):
                        f.is_gen = True
                        break
                    if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                        stack += list(ast.iter_child_nodes(x))
        return f.is_gen

    def call(self, st, f, args, kw):
        f = self.force(st, f)
        if isinstance(f, VFunc):
            return self.call_function(st, f, args, kw)
        if isinstance(f, VBound):
            return self.call(st, f.func, [f.self] + list(args), kw)
        if isinstance(f, VMeth):
            return self.call_method(st, f.obj, f.name, args, kw)
        if isinstance(f, VBuiltin):
            self.trace_builtins.add(f.name)
            return f.fn(self, st, args, kw)
        if isinstance(f, VClass):
            return self.instantiate(st, f, args, kw)
        if isinstance(f, VType):
            self.trace_builtins.add(f.py.__name__)
            return self.models.call_type(self, st, f, args, kw)
        if isinstance(f, VTypeAttr):
            return self.models.call_type_attr(self, st, f, args, kw)
        if isinstance(f, VOpaque):
            raise Unsupported("call of %s" % f.name)
        if f is None or is_seq(f) or is_intish(f) or isinstance(f, (tuple, VObj)):
            raise self.exc(st, TypeError, "not callable")
        raise Unsupported("call of %r" % (f,))

    def call_function(self, st, f, args, kw):
        b = self.bind(st, f, args, kw)
        for n, v in b.items():
            if type(v) is SInt and z3.is_app_of(v.t, z3.Z3_OP_ITE):
                b[n] = mkint(under(st.pc, v.t))
        c = self.contracts.get(f.qual)
        if c is not None:
            r = c(self, st, f, b)
            if r is not NotImplemented:
                return r
        if self.is_generator(f):
            return VGen(f, b)
        return self.call_outcomes(st, lambda s: self.exec_function(s, f, b))

    def exec_function(self, st, f, bound):
        """outcomes 'next' (with the return value) and 'raise'."""
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion")
        try:
            fid = next(_fid)
            st.frames[fid] = dict(bound)
            fr = Frame(fid, f, f.globals, parent=f.closure)
            self.trace_funcs.add(f.qual)
            if isinstance(f.node, ast.Lambda):
                outs = [Out("return", o.st, o.val) if o.kind == "next" else o
                        for o in self.run(st, lambda s: self.eval(f.node.body, s, fr))]
            else:
                outs = self.exec_block(f.node.body, st, fr)
            res = []
            for o in outs:
                if o.kind == "next":
                    o = Out("next", o.st, None)
                elif o.kind == "return":
                    o = Out("next", o.st, o.val)
                elif o.kind != "raise":
                    raise Unsupported("outcome %s" % o.kind)
                if not self.captured(o, fid):
                    o.st.frames.pop(fid, None)
                res.append(o)
            if self.merge:
                res = self.merge_returns(res)
            return res
        finally:
            self.depth -= 1

    def captured(self, o, fid):
        # keep the frame when the function made closures (cheap over-approximation)
        for v in list(o.st.frames.get(fid, {}).values()) + [o.val]:
            if isinstance(v, VFunc) and v.closure and v.closure[0] == fid:
                return True
            if isinstance(v, VGen):
                return True
        return False

    def merge_returns(self, outs):
        nxt = [o for o in outs if o.kind == "next"]
        if len(nxt) < 2:
            return outs
        key = "__ret__"
        tmp = next(_fid)
        for o in nxt:
            o.st.frames[tmp] = {key: o.val}
        merged = merge_all([o.st for o in nxt])
        res = [o for o in outs if o.kind != "next"]
        for s in merged:
            v = s.frames.pop(tmp)[key]
            res.append(Out("next", s, v))
        return res

    def instantiate(self, st, cls, args, kw):
        if any(isinstance(c, VType) and issubclass(c.py, BaseException) for c in cls.mro()):
            r = st.new(OInst(cls, {}, tuple(args)))
        else:
            r = st.new(OInst(cls, {}, None))
        for special in ("__new__", "__setattr__", "__getattribute__", "__getattr__", "__slots__"):
            v, c = cls.lookup(special)
            if isinstance(c, VClass):
                raise Unsupported(special)
        init, c = cls.lookup("__init__")
        if isinstance(c, VClass):
            self.call(st, init, [r] + list(args), kw)
        else:
            self.models.call_type_attr(self, st, init, [r] + list(args), kw)
        return r

    # ---------------------------------------------------------------- attribute and item access

    def getattr(self, st, v, name):
        v = self.force(st, v)
        return self.models.get_attr(self, st, v, name)

    def setattr(self, st, v, name, val):
        v = self.force(st, v)
        if isinstance(v, Ref) and isinstance(st.get(v), OInst):
            o = st.get(v)
            a = dict(o.attrs)
            if name == "args" and o.args is not None:
                st.set(v, OInst(o.cls, o.attrs, val))
                return
            if name in ("__cause__", "__context__", "__suppress_context__", "__traceback__"):
                return
            a[name] = val
            st.set(v, OInst(o.cls, a, o.args))
            return
        raise Unsupported("attribute assignment to %r" % (v,))

    def getitem(self, st, obj, idx):
        obj = self.force(st, obj)
        return self.models.getitem(self, st, obj, idx)

    def setitem(self, st, obj, idx, v):
        obj = self.force(st, obj)
        return self.models.setitem(self, st, obj, idx, v)

    def stream_method(self, st, o, x, name, args, kw):
        """an output stream of which nothing but write() is known."""
        if name != "write":
            raise self.exc(st, AttributeError, name)
        if kw or len(args) != 1:
            raise self.exc(st, TypeError, "write")
        v = self.force(st, args[0])
        if not is_strish(v):
            raise self.exc(st, TypeError, "write")
        st.set(o, OStream(mkseq("str", *(pieces_of(x.text) + pieces_of(v))), x.ghost))
        n = self.models.len_of(v)
        return n if isinstance(n, int) else mkint(n)

    def call_method(self, st, obj, name, args, kw):
        obj = self.force(st, obj)
        return self.models.call_method(self, st, obj, name, args, kw)

    # ---------------------------------------------------------------- modules

    def load_module(self, name, source, filename):
        """execute a module body; returns the state extended with its globals."""
        tree = ast.parse(source, filename)
        fid = next(_fid)
        st = self.mod_state
        st.frames[fid] = {"__name__": name}
        m = VModule(name, fid=fid)
        self.modules[name] = m
        outs = self.exec_block(tree.body, st, Frame(fid, None, fid))
        if len(outs) != 1 or outs[0].kind != "next":
            raise Unsupported("module %s does not load" % name)
        self.mod_state = outs[0].st
        return m

    mod_state = None


def pure_bool(n):
    """expression without side effects (comparisons, names, constants, attribute-free calls excluded)."""
    if isinstance(n, ast.Compare):
        return all(pure_val(x) for x in [n.left] + n.comparators)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        return pure_bool(n.operand)
    if isinstance(n, ast.BoolOp):
        return all(pure_bool(x) for x in n.values)
    return False


def pure_val(n):
    if isinstance(n, (ast.Name, ast.Constant)):
        return True
    if isinstance(n, ast.BinOp):
        return pure_val(n.left) and pure_val(n.right)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len":
        return all(pure_val(a) for a in n.args)
    if isinstance(n, ast.Subscript):
        return pure_val(n.value) and (pure_val(n.slice) if not isinstance(n.slice, ast.Slice) else True)
    return False
