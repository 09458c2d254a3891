"""C18, C19 (and pp in C16, C17): pp and _pp_field of /repo.

_pp_field is checked on its body for every value, width and description; pp against its contract."""
import ast

import z3

from pyvc import models as M
from pyvc import solver
from pyvc import terms as T
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import Other, Unsupported, psame

from .core import seq_eq
from .loops import Fold, Lines
from .message_enc import rope_obligations
from .world import KEYS, NUMS, S, World, bytes_val, describe, raised, str_val

z = z3.IntVal
TOOLS = "iso8583.tools"
ROLES = {"doc": "doc", "spec": "spec", "desc_width": "desc_width", "stream": "stream", "line_width": "line_width",
         "field_key": "key"}
VALUES = ("str", "bytes", "none", "int", "list", "object", "bytearray")


def roles_of(f):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg or a.kwarg or len(names) != len(ROLES):
        raise Unsupported("signature of %s" % f.qual)
    out = {n: ROLES[n] for n in names if n in ROLES}
    rest = [n for n in names if n not in out]
    left = [r for r in ROLES.values() if r not in out.values()]
    for n in rest:
        for r, words in (("doc", ("doc", "data", "msg")), ("spec", ("spec",)), ("desc_width", ("desc",)),
                         ("stream", ("stream", "out", "file")), ("line_width", ("width", "line", "col")),
                         ("key", ("key", "field", "name", "num"))):
            if r in left and any(w in n for w in words):
                out[n] = r
                left.remove(r)
                break
        else:
            raise Unsupported("signature of %s" % f.qual)
    return out


def rope(*vs):
    return mkseq("str", *[p for v in vs for p in pieces_of(v)])


def pretty(prop, ck, what, *args):
    if what == "field":
        PPField(*args, deadline=ck.deadline, strict=prop == "C19").obligations(prop, ck)
    else:
        pp_message(prop, ck, *args)


class PPField:
    """layout: the document maps the key to the value ("plain") or to a dictionary of parts ("parts")."""

    def __init__(self, layout, kind, deadline=None, strict=True):
        self.layout, self.kind = layout, kind
        self.w = w = World(deadline=deadline, mods=("tools",))
        st = w.state()
        self.key = str_val("key")
        self.dw, self.lw = z3.Int("desc_width"), z3.Int("line_width")
        self.desc = str_val("desc")
        more = Other(z3.Bool("has!more"), str_val("morekey"), str_val("more"), True)
        st.assume(T.mk_not(T.mk_eq(more.key.t, self.key.t)))
        w.e.star_ids[id(more.key)] = more.key
        self.entry = st.new(ODict({"desc": (True, self.desc), "max_len": (True, SInt(z3.Int("max_len")))}, tag="entry"))
        self.spec = st.new(ODict({}, [Other(True, self.key, self.entry, False), more], tag="spec"))
        self.value = {"str": str_val("v"), "bytes": bytes_val("v"), "none": None, "int": SInt(z3.Int("v")),
                      "list": st.new(OList([(True, bytes_val("v0"))])), "object": VObj("v"),
                      "bytearray": st.new(OBytearray(bytes_val("v")))}[kind]
        self.lenpart = bytes_val("lenpart")
        self.parts = st.new(ODict({}, tag="parts")) if layout == "parts" else None
        self.doc = st.new(ODict({}, [Other(True, self.key, self.parts or self.value, False), more], tag="doc"))
        self.before = str_val("before")
        self.stream = st.new(OStream(self.before))
        self.f = w.fn(TOOLS, "_pp_field")
        roles = roles_of(self.f)
        v = {"doc": self.doc, "spec": self.spec, "desc_width": SInt(self.dw), "stream": self.stream,
             "line_width": SInt(self.lw), "key": self.key}
        a = {n: v[r] for n, r in roles.items()}
        self.st0 = st
        self.outs = []
        # the cases of the layout
        shown = self.dw > 0
        for desc in (shown, T.mk_not(shown)):
            for lencase in ([None] if layout == "plain" else ["len", "no-len", "empty-len"]):
                for datacase in ([True] if layout == "plain" else [True, False]):
                    s = st.clone()
                    s.assume(desc)
                    indent = z(5)
                    head = [M.format_value(w.e, s, self.key, "3s")]
                    if desc is shown:
                        cut = T.t_sub(self.desc.t, z(0), self.dw)
                        head += [" ", mkseq("str", T.t_ljust(cut, self.dw))]
                        indent = indent + self.dw + 1
                    head.append(": ")
                    if lencase is not None:
                        if lencase == "len":
                            s.assume(T.mk_not(T.mk_eq(self.lenpart.t, T.sv(""))))
                            rl = T.t_repr(self.lenpart.t, True)
                            head += [mkseq("str", rl), " "]
                            indent = indent + T.Len(rl) + 1
                        elif lencase == "empty-len":
                            s.assume(T.mk_eq(self.lenpart.t, T.sv("")))
                    value, k = self.value, kind
                    if layout == "parts":
                        en = {} if lencase == "no-len" else {"len": (True, self.lenpart)}
                        if datacase:
                            en["data"] = (True, value)
                        s.set(self.parts, ODict(en, tag="parts"))
                        if not datacase:
                            value, k = b"", "bytes"
                    indent = T.simp(indent)
                    sep = rope("\n", spaces(w.e, s, indent))
                    fold = Fold(k, sterm(value), self.lw - indent, sep, strict) if k in ("str", "bytes") else None
                    lines = Lines(w.e, fold, self.stream) if fold is not None else None
                    if lines is None:
                        w.e.loop_handler = None
                    outs = w.e.run(s, lambda q: w.e.call(q, self.f, [], a))
                    name = "%s%s%s" % ("desc" if desc is shown else "nodesc", "" if lencase is None else "," + lencase,
                                       "" if datacase else ",no-data")
                    self.outs.append((name, s, outs, rope(self.before, *head), value, fold, lines))

    def obligations(self, prop, ck):
        w = self.w
        for name, s, outs, head, value, fold, lines in self.outs:
            tag = "_pp_field:%s:%s:%s:%s" % (prop, self.layout, self.kind, name)
            ck.oblige(tag + ":has-outcome", s.pc, bool(outs))
            for x in lines.proved if lines is not None else ():
                ck.count("%s:invariant:%s" % (tag, x))
            for i, o in enumerate(outs):
                n = "%s:path%d" % (tag, i)
                if prop in ("C16", "C17"):
                    frame(ck, n, prop, w, s, o, self.stream)
                    continue
                ck.oblige(n + ":no-exception", o.st.pc, o.kind == "next", lambda: describe(o))
                if o.kind == "next":
                    self.text(ck, n, prop, o, head, value, fold)
        ck.functions |= w.e.trace_funcs

    def text(self, ck, n, prop, o, head, value, fold):
        st, pc = o.st, list(o.st.pc)
        x = st.get(self.stream)
        have = sterm(x.text)
        if prop == "C19":  # whatever precedes the value
            head = self.shown_before(x, [M.py_repr(self.w.e, st.clone(), value), "\n"], head)
        one = rope(head, M.py_repr(self.w.e, st.clone(), value), "\n")
        flat = T.mk_eq(have, sterm(one))
        if fold is None:
            ck.oblige(n + ":entry", pc, flat)
            return
        g = x.ghost
        fits = T.tb(T.Len(fold.lit(z(0), fold.n)) <= fold.avail)
        if g is None:
            # not folded: a value that fits, or of which nothing is left to fold
            ck.oblige(n + ":entry", pc, flat)
            if prop == "C19":
                ck.oblige(n + ":fits", pc, T.mk_or([fits, fold.n <= 1]))
            return
        if prop == "C19":
            ck.oblige(n + ":does-not-fit", pc, T.mk_not(fits))
        goals = []
        if g.Q is not None:
            goals.append(T.mk_and(T.mk_eq(g.s, fold.n), T.mk_eq(have, sterm(rope(head, g.Q, "\n")))))
        goals.append(T.mk_and(fold.is_line(g.s, fold.n), T.mk_eq(have, sterm(rope(head, fold.add(g, fold.n), "\n")))))
        ck.oblige(n + ":entry-is-complete-lines", pc, T.mk_or(goals))


    @staticmethod
    def shown_before(x, tail, head):
        """the text of the stream before the value."""
        if x.ghost is not None and x.ghost.base is not None:
            return x.ghost.base
        ps, t = list(pieces_of(x.text)), list(pieces_of(rope(*tail)))
        if len(ps) > len(t) and all(psame(a, b) for a, b in zip(ps[-len(t):], t)):
            return mkseq("str", *ps[:-len(t)])
        return head


def spaces(e, st, n):
    out = e.run(st, lambda s: e.models.binop(e, s, ast.Mult(), " ", mkint(n)))
    if len(out) != 1 or out[0].kind != "next":
        raise Unsupported("indentation")
    return out[0].val


def frame(ck, n, prop, w, st0, o, stream):
    """nothing but the stream is changed."""
    base = st0.heap
    if prop == "C16":
        ck.oblige(n + ":arguments-unmodified", o.st.pc, all(
            o.st.heap.get(r) is ob or (r in o.st.heap and osame(ob, o.st.heap[r])) for r, ob in base.items() if r != stream.id))
    else:
        ok = True
        for m in w.e.modules.values():
            if m.fid is not None:
                x, y = st0.frames[m.fid], o.st.frames[m.fid]
                ok = ok and set(x) == set(y) and all(same(x[k], y[k]) for k in x)
        for r, ob in w.base.heap.items():
            ok = ok and (r == stream.id or o.st.heap[r] is ob or osame(ob, o.st.heap[r]))
        ck.oblige(n + ":no-global-state", o.st.pc, ok)


def ordered(has):
    """(key, condition under which it is shown)."""
    return [("h", T.mk_and(has["h"], has["h!max_len"])), ("t", has["t"]), ("p", has["p"])] + [(k, has[k]) for k in NUMS]


def pp_message(prop, ck, other="text", sink="stream"):
    """pp for every document: one call of _pp_field per entry, in order, by contract."""
    w = World(merge=True, lazy=True, deadline=ck.deadline, mods=("tools",))
    e = w.e
    st = w.state()
    has = {k: z3.Bool("has!" + k) for k in KEYS}
    h_max = z3.Int("fh.max_len")
    entries = {k: st.new(ODict({"max_len": (True, SInt(h_max if k == "h" else z3.Int("f%s.max_len" % k))),
                                "desc": (True, str_val("f%s.desc" % k))}, tag="entry")) for k in KEYS}
    spec = st.new(ODict({k: (T.mk_or(has[k], z3.Bool("def!" + k)), entries[k]) for k in KEYS}, tag="spec", unordered=True))
    star = str_val("textkey")
    e.star_ids[id(star)] = star
    st.assume(T.mk_not(T.t_pred("isnumeric", star.t)))
    for c in ("h", "t", "p"):
        st.assume(T.mk_not(T.mk_eq(star.t, T.sv(c))))
    others = [Other(z3.Bool("has!text"), star, str_val("v!text"), True)]
    if other == "object":
        okey = VObj("otherkey")
        others.insert(0, Other(z3.Bool("has!other"), okey, str_val("v!other"), False))
    doc = st.new(ODict({k: (has[k], str_val("v!" + k)) for k in KEYS}, others, tag="doc", unordered=True))
    before = str_val("before")
    stream = st.new(OStream(before))
    if sink == "stdout":
        e.modules["sys"] = w.e.modules.get("sys") or e.import_module("sys", st)
        e.modules["sys"].attrs["stdout"] = stream
        w.base.heap[stream.id] = st.heap[stream.id]
    dw, lw = SInt(z3.Int("desc_width")), SInt(z3.Int("line_width"))
    fn = w.fn(TOOLS, "_pp_field")
    roles = roles_of(fn)
    calls = []

    def contract(e, st, f, b):
        a = {roles[n]: v for n, v in b.items()}
        key = M.conc_key(e, st, a["key"])
        if not isinstance(key, str) or key not in KEYS:
            raise Unsupported("field key %r" % (key,))
        calls.append((key, st.pc, a))
        s = a["stream"]
        if not isinstance(s, Ref) or not isinstance(st.get(s), OStream):
            raise Unsupported("stream of _pp_field")
        x = st.get(s)
        st.set(s, OStream(mkseq("str", *(pieces_of(x.text) + (S("entry!" + key),))), x.ghost))
        return None

    e.contracts[TOOLS + ":_pp_field"] = contract
    f = w.fn(TOOLS, "pp")
    st0 = st
    args = [doc, spec, dw, None if sink == "stdout" else stream, lw]
    outs = w.run(st.clone(), f, args)
    tag = "pp:%s:%s:%s" % (prop, other, sink)
    ck.oblige(tag + ":has-outcome", st.pc, bool(outs))
    ck.functions |= e.trace_funcs
    if prop == "C18":
        for key, pc, a in calls:
            n = "%s:call-of-_pp_field:%s" % (tag, key)
            ck.oblige(n, pc, same(a["doc"], doc) and same(a["spec"], spec) and same(a["stream"], stream))
            ck.oblige(n + ":widths", pc, T.mk_and(int_same(a["desc_width"], dw), int_same(a["line_width"], lw)))
    for i, o in enumerate(outs):
        n = "%s:path%d" % (tag, i)
        if prop in ("C16", "C17"):
            frame(ck, n, prop, w, st0, o, stream)
            continue
        ck.oblige(n + ":no-exception", o.st.pc, o.kind == "next", lambda: describe(o))
        if o.kind != "next" or prop != "C18":
            continue
        has2 = dict(has)
        has2["h!max_len"] = h_max > 0
        want = [(True, [before.t])] + [(g, [S("entry!" + k)]) for k, g in ordered(has2)]
        rope_obligations(ck, n, o.st.pc, o.st.get(stream).text, want)


def int_same(a, b):
    return is_intish(a) and T.mk_eq(T.simp(iterm(a)), T.simp(iterm(b)))
