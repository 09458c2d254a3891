"""Symbolic worlds: the real modules of /repo loaded into the verifier, and arbitrary arguments."""
import ast
import os
import sys

import z3

from pyvc import terms as T
from pyvc.engine import Engine
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import Other, UNBOUND

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NUMS = [str(i) for i in range(1, 193)]
KEYS = ["h", "t", "p"] + NUMS
TEXT_PROPS = ("data_enc", "len_enc")
OPTIONAL = ("len_count", "left_pad", "right_pad", "desc")


def repo_source(mod):
    with open(os.path.join(REPO, "iso8583", mod + ".py"), encoding="utf-8") as f:
        return f.read()


SUBCLASSED = False  # may arguments belong to a subclass of bytes, bytearray, dict? (C11 and C12 say so)


class World:
    """an engine with the package's modules loaded."""

    def __init__(self, merge=False, lazy=False, deadline=None, mods=("decoder", "encoder")):
        self.e = Engine(merge=merge, lazy=lazy, deadline=deadline)
        self.e.mod_state = State()
        for m in mods:
            self.e.load_module("iso8583." + m, repo_source(m), os.path.join(REPO, "iso8583", m + ".py"))
        self.base = self.e.mod_state  # module state after import
        self.spec_loaded = False

    def load_spec(self):
        if not self.spec_loaded:
            with open(os.path.join(HERE, "spec", "field_spec.py")) as f:
                self.e.load_module("spec", f.read(), "field_spec.py")
            self.e.contracts["spec:is_hex"] = lambda e, st, f, b: mkbool(T.t_unhex_ok(sterm(e.force(st, b["digits"]))))
            self.base = self.e.mod_state
            self.spec_loaded = True

    def fn(self, mod, name):
        m = self.e.modules[mod]
        f = self.base.frames[m.fid].get(name)
        if not isinstance(f, VFunc):
            raise Unsupported("%s.%s is not a function" % (mod, name))
        return f

    def cls(self, mod, name):
        m = self.e.modules[mod]
        return self.base.frames[m.fid].get(name)

    def state(self):
        return self.base.clone()

    def argument(self, v):
        if SUBCLASSED:
            self.e.subclassed += (v if isinstance(v, Ref) else v.pieces[0],)
        return v

    def run(self, st, f, args):
        """outcomes of a call."""
        return self.e.run(st, lambda s: self.e.call(s, f, args, {}))

    def spec_call(self, st, name, args):
        """outcomes of a specification function (it never raises)."""
        outs = self.run(st, self.fn("spec", name), args)
        for o in outs:
            if o.kind != "next":
                raise Unsupported("specification raised: %s [%s]" % (describe(o), "; ".join(str(p) for p in o.st.pc[-8:])))
        return outs


def S(name):
    return z3.Const(name, T.S)


def str_val(name):
    return SSeq("str", [S(name)])


def bytes_val(name):
    return SSeq("bytes", [S(name)])


class Entry:
    """an arbitrary field specification; its heap object is never modified by correct code."""

    def __init__(self, st, name, pads=True):
        self.name = name
        self.data_enc = S(name + ".data_enc")
        self.len_enc = S(name + ".len_enc")
        self.len_type = z3.Int(name + ".len_type")
        self.max_len = z3.Int(name + ".max_len")
        self.has = {o: z3.Bool(name + ".has_" + o) for o in OPTIONAL}
        self.opt = {o: S(name + "." + o) for o in OPTIONAL}
        en = {
            "data_enc": (True, SSeq("str", [self.data_enc])),
            "len_enc": (True, SSeq("str", [self.len_enc])),
            "len_type": (True, SInt(self.len_type)),
            "max_len": (True, SInt(self.max_len)),
        }
        for o in OPTIONAL:
            en[o] = (self.has[o], SSeq("str", [self.opt[o]]))
        self.ref = st.new(ODict(en, unordered=True, tag=name))
        self.obj = st.get(self.ref)

    def wf(self):
        """lengths are non-negative integers (and small enough for int() to read them)."""
        return [self.len_type >= 0, self.len_type <= T.INT_LIMIT // 2, self.max_len >= 0]

    def wf_codec(self):
        """a text length prefix uses a single-byte codec."""
        return [T.single_f(self.len_enc)]

    def wf_known(self):
        """the data is binary or text in a registered codec (one-to-one: fact group "codec")."""
        return [T.mk_or(T.mk_eq(self.data_enc, T.sv("b")), T.t_known(self.data_enc))]

    def nibbles(self):
        return T.mk_and(self.has["len_count"], T.mk_eq(self.opt["len_count"], T.sv("nibbles")))

    def pad_term(self, which):
        """first character of the pad ('' without pad)."""
        return T.t_sub(self.opt[which], z3.IntVal(0), z3.IntVal(1))

    def wf_pad(self):
        """at most one pad and it is an upper-case hex digit."""
        out = []
        nonempty = []
        for w in ("left_pad", "right_pad"):
            p = self.pad_term(w)
            some = T.mk_and(self.has[w], T.mk_not(T.mk_eq(self.opt[w], T.sv(""))))
            nonempty.append(some)
            out.append(T.mk_implies(some, T.mk_or([T.mk_eq(p, T.sv(c)) for c in "0123456789ABCDEF"])))
            out.append(T.mk_implies(some, T.mk_eq(T.t_upper(p), p)))
        out.append(T.mk_not(T.mk_and(nonempty)))
        return out


def raised(o):
    """(class, instance object) of a raise outcome."""
    x = o.st.get(o.val)
    return x.cls, x


def truth_of(c):
    return c if isinstance(c, bool) else c


def brief(a):
    if isinstance(a, SSeq):
        return "<%s of %d pieces>" % (a.kind, len(a.pieces))
    if isinstance(a, (str, bytes, int)):
        return repr(a)[:80]
    return type(a).__name__


def describe(o):
    """short text of an outcome for logs."""
    if o.kind == "raise":
        c, x = raised(o)
        return "raise %s(%s)" % (c, ", ".join(brief(a) for a in (x.args or ())))
    return "%s %s" % (o.kind, brief(o.val))
