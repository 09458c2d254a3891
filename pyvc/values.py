"""Value domain of the symbolic interpreter."""
import itertools

import z3

from . import terms as T


class Unsupported(Exception):
    """The verifier cannot handle a construct: the obligation is undecided."""


class PyExc(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, value):
        self.value = value


class Infeasible(Exception):
    pass


class _Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = _Unbound()


class SInt:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SInt(%s)" % self.t


class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SBool(%s)" % self.t


class SBits:
    """non-negative integer given by explicit bits, least significant first."""

    __slots__ = ("bits",)

    def __init__(self, bits):
        self.bits = tuple(bits)

    def __repr__(self):
        return "SBits(%d)" % len(self.bits)

    def as_int_term(self):
        ts = [T.mk_ite(b, z3.IntVal(1 << i), z3.IntVal(0)) for i, b in enumerate(self.bits) if b is not False]
        if not ts:
            return z3.IntVal(0)
        return z3.Sum(*ts) if len(ts) > 1 else ts[0]


class GP:
    """guarded piece of a rope: its pieces if cond else nothing."""

    __slots__ = ("cond", "pieces")

    def __init__(self, cond, pieces):
        self.cond = cond
        self.pieces = tuple(pieces)

    def term(self):
        return T.mk_ite(self.cond, T.cat(*[pterm(p) for p in self.pieces]), T.sv(""))

    def __repr__(self):
        return "GP(%s,%s)" % (self.cond, self.pieces)


def pterm(p):
    return p.term() if isinstance(p, GP) else p


def psame(a, b):
    if isinstance(a, GP) or isinstance(b, GP):
        return (
            isinstance(a, GP)
            and isinstance(b, GP)
            and csame(a.cond, b.cond)
            and len(a.pieces) == len(b.pieces)
            and all(psame(x, y) for x, y in zip(a.pieces, b.pieces))
        )
    return a.eq(b)


def csame(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    return a.eq(b)


class SSeq:
    """symbolic str or bytes: concatenation of pieces (terms and guarded pieces)."""

    __slots__ = ("kind", "pieces", "_t")

    def __init__(self, kind, pieces):
        out = []
        for p in pieces:
            if not isinstance(p, GP) and T.is_lit(p):
                if T.sval(p) == "":
                    continue
                if out and not isinstance(out[-1], GP) and T.is_lit(out[-1]):
                    out[-1] = T.sv(T.sval(out[-1]) + T.sval(p))
                    continue
            elif not isinstance(p, GP) and T.is_app(p, T.cat_f):
                while T.is_app(p, T.cat_f):
                    out.append(p.arg(0))
                    p = p.arg(1)
            elif isinstance(p, GP) and out and isinstance(out[-1], GP) and len(p.pieces) == len(out[-1].pieces) == 1 \
                    and T.is_term(p.pieces[0]) and T.is_term(out[-1].pieces[0]) and T.is_lit(p.pieces[0]) and T.is_lit(
                        out[-1].pieces[0]) and csame(p.cond, T.mk_not(out[-1].cond)):
                # one of two literals
                out[-1] = T.mk_ite(out[-1].cond, out[-1].pieces[0], p.pieces[0])
                continue
            out.append(p)
        self.kind = kind
        self.pieces = tuple(out)
        self._t = None

    @property
    def t(self):
        if self._t is None:
            self._t = T.cat(*[pterm(p) for p in self.pieces])
        return self._t

    def __repr__(self):
        return "SSeq(%s,%s)" % (self.kind, self.t)


def mkseq(kind, *terms):
    """SSeq, or a Python value when everything is literal."""
    s = SSeq(kind, terms)
    if not s.pieces:
        return "" if kind == "str" else b""
    if len(s.pieces) == 1 and not isinstance(s.pieces[0], GP) and T.is_lit(s.pieces[0]):
        v = T.sval(s.pieces[0])
        return v if kind == "str" else v.encode("latin-1")
    return s


def is_strish(v):
    return isinstance(v, str) or (isinstance(v, SSeq) and v.kind == "str")


def is_bytesish(v):
    return isinstance(v, bytes) or (isinstance(v, SSeq) and v.kind == "bytes")


def is_seq(v):
    return isinstance(v, (str, bytes, SSeq))


def kind_of(v):
    return "str" if is_strish(v) else "bytes"


def sterm(v):
    if isinstance(v, str):
        return T.sv(v)
    if isinstance(v, bytes):
        return T.sv(v.decode("latin-1"))
    return v.t


def pieces_of(v):
    if isinstance(v, SSeq):
        return v.pieces
    t = sterm(v)
    return () if T.sval(t) == "" else (t,)


def is_intish(v):
    return isinstance(v, (int, SInt, SBits, SBool))


def iterm(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, SBits):
        return v.as_int_term()
    if isinstance(v, SBool):
        return T.mk_ite(v.t, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported("integer expected: %r" % (v,))


def mkint(t):
    t = T.simp(t) if not z3.is_app_of(t, z3.Z3_OP_ITE) else t
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def mkbool(t):
    if isinstance(t, bool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def bterm(v):
    if isinstance(v, bool):
        return v
    return v.t


class VObj:
    """an arbitrary Python object that is neither str, bytes, int nor a container the engine knows:
    it has none of the methods the package uses; it may or may not have a length."""

    __slots__ = ("name", "has_len", "length", "nonint")

    def __init__(self, name):
        self.name = name
        self.has_len = z3.Bool("has_len!%s" % name)
        self.length = z3.Int("objlen!%s" % name)
        T.fact(self.length, self.length >= 0)

    def __repr__(self):
        return "VObj(%s)" % self.name


class VUnion:
    """guarded alternatives [(cond, value)], exhaustive and exclusive."""

    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return "VUnion(%s)" % (self.alts,)


_ref = itertools.count(1)
ALLOC = [None]  # names of new objects are the same whenever a path prefix is replayed


class Ref:
    __slots__ = ("id",)

    def __init__(self, i=None):
        self.id = next(_ref) if i is None else i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return "Ref(%d)" % self.id


class VFunc:
    __slots__ = ("node", "globals", "closure", "defaults", "kwdefaults", "name", "owner", "module", "is_gen", "kind")

    def __init__(self, node, globals_, closure, defaults, kwdefaults, name, module, owner=None, kind=None):
        self.node = node
        self.globals = globals_
        self.closure = closure
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name
        self.module = module
        self.owner = owner
        self.kind = kind  # None / 'static' / 'class' / 'property'
        self.is_gen = None

    @property
    def qual(self):
        return "%s:%s" % (self.module, self.name)

    def __repr__(self):
        return "VFunc(%s)" % self.qual


class VBound:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func = func
        self.self = self_


class VMeth:
    """bound method of a built-in value."""

    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class VBuiltin:
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return "VBuiltin(%s)" % self.name


class VType:
    """a built-in type (wraps the Python type)."""

    __slots__ = ("py",)

    def __init__(self, py):
        self.py = py

    def __eq__(self, o):
        return isinstance(o, VType) and o.py is self.py

    def __hash__(self):
        return hash(("vtype", self.py))

    def __repr__(self):
        return "VType(%s)" % self.py.__name__


class VTypeAttr:
    """attribute of a built-in type, e.g. str.__repr__, ValueError.__init__, int.from_bytes."""

    __slots__ = ("py", "name")

    def __init__(self, py, name):
        self.py = py
        self.name = name

    def __eq__(self, o):
        return isinstance(o, VTypeAttr) and o.py is self.py and o.name == self.name

    def __hash__(self):
        return hash(("vta", self.py, self.name))


class VClass:
    __slots__ = ("name", "bases", "ns", "module")

    def __init__(self, name, bases, ns, module):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro() if isinstance(b, VClass) else [VType(t) for t in b.py.__mro__]:
                if c not in out:
                    out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, VClass):
                if name in c.ns:
                    return c.ns[name], c
            elif name in vars(c.py):
                return VTypeAttr(c.py, name), c
        return None, None

    def __repr__(self):
        return "VClass(%s)" % self.name


class VModule:
    __slots__ = ("name", "attrs", "fid")

    def __init__(self, name, attrs=None, fid=None):
        self.name = name
        self.attrs = attrs or {}
        self.fid = fid


class VOpaque:
    """typing constructs and other values that must not be used."""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class VGen:
    """a generator object not started yet: consumed inline."""

    __slots__ = ("func", "bound", "genexp")

    def __init__(self, func, bound, genexp=None):
        self.func = func
        self.bound = bound
        self.genexp = genexp  # (node, frame)


class VIter:
    """lazy sequence over guarded items: [(guard, value)], in order (or in unknown order)."""

    __slots__ = ("items", "unordered", "pos")

    def __init__(self, items, unordered=False):
        self.items = tuple(items)
        self.unordered = unordered


class VRange:
    """range with symbolic bounds."""

    __slots__ = ("start", "stop", "step")

    def __init__(self, a, b, c):
        self.start, self.stop, self.step = a, b, c


class VEnum:
    """enumerate() of a generator or range of unknown length."""

    __slots__ = ("inner", "start")

    def __init__(self, inner, start):
        self.inner, self.start = inner, start


class VSuper:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


# ------------------------------------------------------------------ heap objects (immutable records)


class OList:
    __slots__ = ("items", "unordered")

    def __init__(self, items, unordered=False):
        self.items = tuple(items)  # (guard, value)
        self.unordered = unordered


class OSet:
    """set (or frozenset) of concrete hashable elements with guards, plus symbolic elements."""

    __slots__ = ("elems", "sym", "frozen")

    def __init__(self, elems=None, sym=(), frozen=False):
        self.elems = elems or {}
        self.sym = tuple(sym)  # (guard, value)
        self.frozen = frozen


class Other:
    """a further dictionary key that is none of the concrete ones; star: any number of such keys."""

    __slots__ = ("guard", "key", "value", "star")

    def __init__(self, guard, key, value, star):
        self.guard, self.key, self.value, self.star = guard, key, value, star


class ODict:
    __slots__ = ("entries", "others", "unordered", "tag")

    def __init__(self, entries=None, others=(), unordered=False, tag=None):
        self.entries = entries or {}
        self.others = tuple(others)
        self.unordered = unordered
        self.tag = tag


class OBytearray:
    __slots__ = ("seq", "cells")

    def __init__(self, seq=None, cells=None):
        self.seq = seq
        self.cells = None if cells is None else tuple(cells)


class OInst:
    __slots__ = ("cls", "attrs", "args")

    def __init__(self, cls, attrs, args=None):
        self.cls = cls
        self.attrs = attrs
        self.args = args


class OLines:
    """a list of at least one text: joined by sep they are head, followed by items."""

    __slots__ = ("head", "sep", "items")

    def __init__(self, head, sep, items=()):
        self.head, self.sep, self.items = head, sep, tuple(items)


class OStream:
    """ghost stream: everything written so far (a rope), plus ghost components for pp."""

    __slots__ = ("text", "ghost")

    def __init__(self, text="", ghost=None):
        self.text = text
        self.ghost = ghost


class State:
    __slots__ = ("pc", "heap", "frames")

    def __init__(self, pc=(), heap=None, frames=None):
        self.pc = pc
        self.heap = {} if heap is None else heap
        self.frames = {} if frames is None else frames

    def clone(self):
        return State(self.pc, dict(self.heap), {k: dict(v) for k, v in self.frames.items()})

    def become(self, o):
        self.pc = o.pc
        self.heap = dict(o.heap)
        self.frames = {k: dict(v) for k, v in o.frames.items()}

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible()
        for p in self.pc:
            if p.get_id() == c.get_id():
                return
        self.pc = self.pc + (c,)

    def new(self, obj):
        r = Ref() if ALLOC[0] is None else ALLOC[0].ref()
        self.heap[r.id] = obj
        return r

    def get(self, r):
        return self.heap[r.id]

    def set(self, r, obj):
        if type(obj) is ODict and obj.tag == "__dict__":
            raise Unsupported("update of an instance dictionary")
        self.heap[r.id] = obj


class Out:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind = kind
        self.st = st
        self.val = val

    def __repr__(self):
        return "Out(%s,%r)" % (self.kind, self.val)


# ------------------------------------------------------------------ comparison and merging of values


def same(a, b):
    """structurally the same value (sound, incomplete)."""
    if a is b:
        return True
    ta, tb_ = type(a), type(b)
    if ta is not tb_:
        return False
    if ta in (int, bool, str, bytes, float, range):
        return a == b
    if ta is SInt:
        return a.t.eq(b.t)
    if ta is SBool:
        return csame(a.t, b.t)
    if ta is SBits:
        return len(a.bits) == len(b.bits) and all(csame(x, y) for x, y in zip(a.bits, b.bits))
    if ta is SSeq:
        return a.kind == b.kind and len(a.pieces) == len(b.pieces) and all(
            psame(x, y) for x, y in zip(a.pieces, b.pieces))
    if ta is Ref:
        return a.id == b.id
    if ta is tuple:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if ta in (VType, VTypeAttr):
        return a == b
    if ta is VFunc:
        return a.node is b.node and a.closure == b.closure
    if ta is VBound:
        return same(a.func, b.func) and same(a.self, b.self)
    if ta is VMeth:
        return a.name == b.name and same(a.obj, b.obj)
    if ta is VBuiltin:
        return a.fn is b.fn
    if ta is VModule:
        return a.name == b.name
    if ta is VObj:
        return a.name == b.name
    if ta is VUnion:
        return len(a.alts) == len(b.alts) and all(csame(x[0], y[0]) and same(x[1], y[1]) for x, y in zip(a.alts, b.alts))
    if ta is VRange:
        return same(a.start, b.start) and same(a.stop, b.stop) and same(a.step, b.step)
    if ta is VIter:
        return a.unordered == b.unordered and gsame(a.items, b.items)
    if ta is slice:
        return same((a.start, a.stop, a.step), (b.start, b.stop, b.step))
    return False


def gsame(xs, ys):
    return len(xs) == len(ys) and all(csame(x[0], y[0]) and same(x[1], y[1]) for x, y in zip(xs, ys))


def merge_rope(c, p1, p2):
    i = 0
    while i < len(p1) and i < len(p2) and psame(p1[i], p2[i]):
        i += 1
    pre, r1, r2 = list(p1[:i]), p1[i:], p2[i:]
    j = 0
    while j < len(r1) and j < len(r2) and psame(r1[-1 - j], r2[-1 - j]):
        j += 1
    suf = list(r1[len(r1) - j:])
    r1, r2 = r1[:len(r1) - j], r2[:len(r2) - j]
    if not r1 and not r2:
        return pre + suf
    if not r2:
        mid = [GP(c, r1)]
    elif not r1:
        mid = [GP(T.mk_not(c), r2)]
    elif len(r1) == len(r2) and all(width(x) is not None and width(x) == width(y) for x, y in zip(r1, r2)):
        mid = [T.mk_ite(c, x, y) for x, y in zip(r1, r2)]
    else:
        mid = [T.mk_ite(c, T.cat(*[pterm(p) for p in r1]), T.cat(*[pterm(p) for p in r2]))]
    return pre + mid + suf


def width(p):
    """number of characters of a piece chosen among literals of one length"""
    if isinstance(p, GP):
        return None
    if T.is_lit(p):
        return len(T.sval(p))
    if z3.is_app_of(p, z3.Z3_OP_ITE):
        n = width(p.arg(1))
        return n if n is not None and n == width(p.arg(2)) else None
    return None


MERGE_INT = [None]  # names the integers a join gives rise to (set by a contract that has such names)


def merge_val(c, a, b):
    """value that is a if c else b."""
    if same(a, b):
        return a
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, SBool) or isinstance(b, SBool):
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return mkbool(T.mk_bite(c, bterm(a), bterm(b)))
        return union(c, a, b)
    if isinstance(a, SBits) or isinstance(b, SBits):
        ba, bb = tobits(a), tobits(b)
        ba, bb = ba if ba is not None else alt_bits(a), bb if bb is not None else alt_bits(b)
        if ba is not None and bb is not None:
            n = max(len(ba), len(bb))
            ba = list(ba) + [False] * (n - len(ba))
            bb = list(bb) + [False] * (n - len(bb))
            return mkbits([T.mk_bite(c, x, y) for x, y in zip(ba, bb)])
    if is_intish(a) and is_intish(b):
        t = T.mk_ite(c, iterm(a), iterm(b))
        return mkint(MERGE_INT[0](t) if MERGE_INT[0] else t)
    if is_seq(a) and is_seq(b) and kind_of(a) == kind_of(b):
        return mkseq(kind_of(a), *merge_rope(c, pieces_of(a), pieces_of(b)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    return union(c, a, b)


def _cat_of(v):
    if isinstance(v, (bool, SBool)):
        return None
    if is_intish(v):
        return "int"
    return kind_of(v) if is_seq(v) else None


def union(c, a, b):
    alts = []

    def put(g, v):
        if g is False:
            return
        for i, (g0, v0) in enumerate(alts):
            if same(v0, v):
                alts[i] = (T.mk_or(g0, g), v0)
                return
        alts.append((g, v))

    n = T.mk_not(c)
    xs = list(a.alts) if isinstance(a, VUnion) else [(True, a)]
    ys = list(b.alts) if isinstance(b, VUnion) else [(True, b)]
    if len(xs) > 1 or len(ys) > 1:
        # one alternative per kind of scalar on either side: merge them into one
        for cat in ("int", "str", "bytes"):
            i = [k for k, x in enumerate(xs) if _cat_of(x[1]) == cat]
            j = [k for k, y in enumerate(ys) if _cat_of(y[1]) == cat]
            if len(i) == 1 and len(j) == 1:
                g0, v0 = xs.pop(i[0])
                g1, v1 = ys.pop(j[0])
                alts.append((T.mk_bite(c, g0, g1), merge_val(c, v0, v1)))
    for g, v in xs:
        put(T.mk_and(c, g), v)
    for g, v in ys:
        put(T.mk_and(n, g), v)
    if len(alts) == 1:
        return alts[0][1]
    return VUnion(alts)


def int_alts(t, limit=4):
    """[(condition, int)] of a conditional over integer literals, or None."""
    if z3.is_int_value(t):
        return [(True, t.as_long())]
    if limit and z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = int_alts(t.arg(1), limit - 1), int_alts(t.arg(2), limit - 1)
        if a is not None and b is not None:
            c = t.arg(0)
            return [(T.mk_and(c, g), k) for g, k in a] + [(T.mk_and(T.mk_not(c), g), k) for g, k in b]
    return None


def alt_bits(v):
    """bits of a conditional over literals."""
    al = int_alts(v.t) if isinstance(v, SInt) else None
    if al is None or any(k < 0 for _, k in al):
        return None
    n = max(k.bit_length() for _, k in al)
    return [T.mk_or([g for g, k in al if k >> i & 1]) for i in range(n)]


def tobits(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        if v < 0:
            return None
        return [bool(v >> i & 1) for i in range(max(v.bit_length(), 1))]
    if isinstance(v, SBits):
        return v.bits
    if isinstance(v, SBool):
        return [v.t]
    return None


def mkbits(bits):
    bits = list(bits)
    while bits and bits[-1] is False:
        bits.pop()
    if all(isinstance(b, bool) for b in bits):
        return sum(1 << i for i, b in enumerate(bits) if b)
    return SBits(bits)


def merge_guarded(c, xs, ys):
    i = 0
    while i < len(xs) and i < len(ys) and csame(xs[i][0], ys[i][0]) and same(xs[i][1], ys[i][1]):
        i += 1
    n = T.mk_not(c)
    out = list(xs[:i])
    # common tail positions with the same value, different guards: same slots
    if len(xs) == len(ys) and all(same(x[1], y[1]) for x, y in zip(xs[i:], ys[i:])):
        return out + [(T.mk_bite(c, x[0], y[0]), x[1]) for x, y in zip(xs[i:], ys[i:])]
    if len(xs) == len(ys) and all(x[0] is True and y[0] is True and is_intish(x[1]) and is_intish(y[1])
                                  for x, y in zip(xs[i:], ys[i:])):
        return out + [(True, merge_val(c, x[1], y[1])) for x, y in zip(xs[i:], ys[i:])]
    out += [(T.mk_and(c, g), v) for g, v in xs[i:]]
    out += [(T.mk_and(n, g), v) for g, v in ys[i:]]
    return [x for x in out if x[0] is not False]


def osame(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, OList):
        return a.unordered == b.unordered and gsame(a.items, b.items)
    if isinstance(a, OSet):
        return a.elems.keys() == b.elems.keys() and all(csame(a.elems[k], b.elems[k]) for k in a.elems) and gsame(
            a.sym, b.sym)
    if isinstance(a, ODict):
        return (list(a.entries) == list(b.entries) and a.others == b.others and a.unordered == b.unordered and all(
            csame(a.entries[k][0], b.entries[k][0]) and same(a.entries[k][1], b.entries[k][1]) for k in a.entries))
    if isinstance(a, OBytearray):
        if (a.cells is None) != (b.cells is None):
            return False
        if a.cells is None:
            return same(a.seq, b.seq)
        return len(a.cells) == len(b.cells) and all(same(x, y) for x, y in zip(a.cells, b.cells))
    if isinstance(a, OInst):
        return a.cls is b.cls and same(a.args, b.args) and a.attrs.keys() == b.attrs.keys() and all(
            same(a.attrs[k], b.attrs[k]) for k in a.attrs)
    if isinstance(a, OLines):
        return same(a.head, b.head) and same(a.sep, b.sep) and same(a.items, b.items)
    if isinstance(a, OStream):
        return same(a.text, b.text) and a.ghost == b.ghost
    return False


def merge_cell(c, a, b):
    if same(a, b):
        return a
    ba, bb = tobits(a), tobits(b)
    if ba is None or bb is None:
        return merge_val(c, a, b)
    n = max(len(ba), len(bb))
    ba = list(ba) + [False] * (n - len(ba))
    bb = list(bb) + [False] * (n - len(bb))
    return mkbits([T.mk_bite(c, x, y) for x, y in zip(ba, bb)])


def merge_obj(c, a, b):
    if osame(a, b):
        return a
    if type(a) is not type(b):
        raise Unsupported("merge of different objects")
    n = T.mk_not(c)
    if isinstance(a, OList):
        return OList(merge_guarded(c, a.items, b.items), a.unordered or b.unordered)
    if isinstance(a, OSet):
        e = {}
        for k in list(a.elems) + [k for k in b.elems if k not in a.elems]:
            g = T.mk_bite(c, a.elems.get(k, False), b.elems.get(k, False))
            if g is not False:
                e[k] = g
        return OSet(e, merge_guarded(c, a.sym, b.sym), a.frozen)
    if isinstance(a, ODict):
        e = {}
        order_ok = True
        ka, kb = list(a.entries), list(b.entries)
        common_a = [k for k in ka if k in b.entries]
        common_b = [k for k in kb if k in a.entries]
        if common_a != common_b:
            order_ok = False
        for k in ka + [k for k in kb if k not in a.entries]:
            ga, va = a.entries.get(k, (False, None))
            gb, vb = b.entries.get(k, (False, None))
            g = T.mk_bite(c, ga, gb)
            if g is False:
                continue
            if ga is False:
                v = vb
            elif gb is False:
                v = va
            else:
                v = merge_val(c, va, vb)
            e[k] = (g, v)
        if a.others != b.others:
            raise Unsupported("merge of dicts with different symbolic keys")
        # interleavings of keys present on one side only are not tracked in insertion order
        return ODict(e, a.others, a.unordered or b.unordered or not order_ok or bool(
            set(ka) - set(kb) and set(kb) - set(ka)), a.tag)
    if isinstance(a, OBytearray):
        if a.cells is not None and b.cells is not None and len(a.cells) == len(b.cells):
            return OBytearray(cells=[merge_cell(c, x, y) for x, y in zip(a.cells, b.cells)])
        if a.cells is not None and isinstance(b.seq, bytes) and len(b.seq) == len(a.cells):
            return OBytearray(cells=[merge_cell(c, x, y) for x, y in zip(a.cells, b.seq)])
        if b.cells is not None and isinstance(a.seq, bytes) and len(a.seq) == len(b.cells):
            return OBytearray(cells=[merge_cell(c, x, y) for x, y in zip(a.seq, b.cells)])
        return OBytearray(merge_val(c, ba_seq(a), ba_seq(b)))
    if isinstance(a, OInst):
        if a.cls is not b.cls:
            raise Unsupported("merge of instances of different classes")
        at = {}
        for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
            at[k] = merge_val(c, a.attrs.get(k, UNBOUND), b.attrs.get(k, UNBOUND))
        return OInst(a.cls, at, None if a.args is None and b.args is None else merge_val(c, a.args, b.args))
    if isinstance(a, OStream):
        if a.ghost != b.ghost:
            raise Unsupported("merge of ghost streams")
        return OStream(merge_val(c, a.text, b.text), a.ghost)
    raise Unsupported("merge")


def ba_seq(o):
    """bytes value of a bytearray object."""
    if o.cells is None:
        return o.seq
    bits = []
    for cell in o.cells:
        b = tobits(cell)
        if b is None:
            raise Unsupported("byte value without bits")
        b = list(b)[:8] + [False] * (8 - len(b))
        bits.append(b)
    if not bits:
        return b""
    return mkseq("bytes", T.t_mkbytes(bits))


def merge_states(a, b):
    """join of two states with exclusive path conditions."""
    pa, pb = a.pc, b.pc
    k = 0
    while k < len(pa) and k < len(pb) and pa[k].eq(pb[k]):
        k += 1
    ra, rb = pa[k:], pb[k:]
    if not ra or not rb:
        # same path condition is only sound for identical states
        raise Unsupported("merge of overlapping paths")
    ca, cb = T.mk_and(list(ra)), T.mk_and(list(rb))
    disj = T.mk_or(ca, cb)
    if len(ra) == 1:
        c = ra[0]
    elif len(rb) == 1:
        c = T.mk_not(rb[0])
    else:
        n = T.mk_not(ra[0])
        c = ra[0] if n is not False and n.eq(rb[0]) else ca
    pc = pa[:k] + (() if disj is True else (disj,))
    st = State(pc)
    for i in a.heap.keys() | b.heap.keys():
        x, y = a.heap.get(i), b.heap.get(i)
        st.heap[i] = x if y is None else y if x is None else merge_obj(c, x, y)
    for f in a.frames.keys() | b.frames.keys():
        x, y = a.frames.get(f), b.frames.get(f)
        if x is None or y is None:
            st.frames[f] = dict(y if x is None else x)
            continue
        fr = {}
        for n in x.keys() | y.keys():
            fr[n] = merge_val(c, x.get(n, UNBOUND), y.get(n, UNBOUND))
        st.frames[f] = fr
    return st


def merge_all(states):
    """join states (adjacent in exploration order first); returns as few states as possible."""
    sts = list(states)
    while len(sts) > 1:
        best, at = -1, 0
        for i in range(len(sts) - 1):
            pa, pb = sts[i].pc, sts[i + 1].pc
            k = 0
            while k < len(pa) and k < len(pb) and pa[k].eq(pb[k]):
                k += 1
            if k > best:
                best, at = k, i
        try:
            m = merge_states(sts[at], sts[at + 1])
        except Unsupported:
            # keep apart: move on by giving up on full merging
            return sts
        sts[at:at + 2] = [m]
    return sts
