"""Models of Python's built-in types and of the few library functions the package may use.

These are the trusted base of the verifier together with the facts in terms.py; concrete
arguments are evaluated by CPython itself.
"""
import ast
import binascii
import itertools
import re
import string

import z3

from . import solver
from . import terms as T
from .values import *  # noqa: F401,F403
from .values import UNBOUND, Infeasible, PyExc, Unsupported

_opq = itertools.count()


# ------------------------------------------------------------------ helpers


def is_conc(v):
    """plain Python value without symbolic parts."""
    if isinstance(v, tuple):
        return all(is_conc(x) for x in v)
    if isinstance(v, slice):
        return all(is_conc(x) for x in (v.start, v.stop, v.step))
    return v is None or isinstance(v, (bool, int, float, str, bytes, range))


def wrap_exc(e, st, err):
    """re-raise a CPython exception inside the interpreted program."""
    return e.exc(st, type(err), *[a for a in err.args if is_conc(a)])


def pycall(e, st, f, *args, **kw):
    try:
        return f(*args, **kw)
    except Exception as err:  # noqa: BLE001
        raise wrap_exc(e, st, err)


def opaque_text(e=None, v=None):
    return SSeq("str", [z3.Const("txt!%d" % next(_opq), T.S)])


def len_of(v):
    """length of a sequence value as Python int or term."""
    if isinstance(v, (str, bytes)):
        return len(v)
    total = 0
    ts = []
    for p in v.pieces:
        if isinstance(p, GP):
            ts.append(T.mk_ite(p.cond, plen(p.pieces), z3.IntVal(0)))
        elif T.is_lit(p):
            total += len(T.sval(p))
        else:
            ts.append(T.Len(p))
    if not ts:
        return total
    if total:
        ts.append(z3.IntVal(total))
    return ts[0] if len(ts) == 1 else z3.Sum(*ts)


def plen(pieces):
    ts = [T.mk_ite(p.cond, plen(p.pieces), z3.IntVal(0)) if isinstance(p, GP) else T.Len(p) for p in pieces]
    return ts[0] if len(ts) == 1 else z3.Sum(*ts)


def obj(st, v):
    return st.get(v) if isinstance(v, Ref) else None


def content(st, v):
    """bytes-like content of bytes / bytearray values, or None."""
    if is_bytesish(v):
        return v
    o = obj(st, v)
    if isinstance(o, OBytearray):
        return ba_seq(o)
    return None


def known_length(e, st, v, limit=64):
    """concrete length of a sequence value if it is determined by the path."""
    n = len_of(v)
    if isinstance(n, int):
        return n
    n = T.simp(n)
    if z3.is_int_value(n):
        return n.as_long()
    for p in st.pc:
        for q in p.children() if z3.is_and(p) else [p]:
            if z3.is_eq(q):
                a, b = q.arg(0), q.arg(1)
                if a.eq(n) and z3.is_int_value(b):
                    return b.as_long()
                if b.eq(n) and z3.is_int_value(a):
                    return a.as_long()
    r, m = solver.check(list(st.pc) + [n >= 0], 3000, want_model=True)
    if r != "sat":
        return None
    k = m.eval(n, model_completion=True)
    if not z3.is_int_value(k) or k.as_long() > limit:
        return None
    if solver.prove(st.pc, n == k, 3000):
        return k.as_long()
    return None


def truth(e, st, v):
    if v is None:
        return False
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, SInt):
        return T.mk_not(T.mk_eq(v.t, z3.IntVal(0)))
    if isinstance(v, SBits):
        return T.mk_or(list(v.bits))
    if isinstance(v, SSeq):
        return T.mk_not(T.mk_eq(v.t, T.sv("")))
    if is_conc(v):
        return bool(v)
    if isinstance(v, tuple):
        return len(v) > 0
    o = obj(st, v)
    if isinstance(o, OLines):
        return True
    if isinstance(o, OList):
        return T.mk_or([g for g, _ in o.items])
    if isinstance(o, OChars):
        return T.mk_not(T.t_allin(sterm(o.seq), o.minus))
    if isinstance(o, OSet):
        return T.mk_or(list(o.elems.values()) + [g for g, _ in o.sym])
    if isinstance(o, ODict):
        return T.mk_or([g for g, _ in o.entries.values()] + [x.guard for x in o.others])
    if isinstance(o, OBytearray):
        return truth(e, st, ba_seq(o))
    if isinstance(o, OInst):
        if isinstance(o.cls, VClass):
            for nme in ("__bool__", "__len__"):
                if isinstance(o.cls.lookup(nme)[1], VClass):
                    raise Unsupported(nme)
        return True
    if isinstance(v, VObj):
        return z3.Bool("truthy!" + v.name)
    if isinstance(v, VIter):
        if v.unordered is None:
            return True
        return T.mk_or([g for g, _ in v.items])
    if isinstance(v, (VFunc, VBound, VMeth, VBuiltin, VType, VTypeAttr, VClass, VModule, VGen)) or isinstance(
            o, OStream):
        return True
    raise Unsupported("truth value of %r" % (v,))


def pytype(e, st, v):
    """Python type of a value (VType / VClass)."""
    if v is None:
        return VType(type(None))
    if isinstance(v, (bool, SBool)):
        return VType(bool)
    if isinstance(v, (int, SInt, SBits)):
        return VType(int)
    if isinstance(v, float):
        return VType(float)
    if is_strish(v):
        return VType(str)
    if is_bytesish(v):
        return VType(bytes)
    if isinstance(v, tuple):
        return VType(tuple)
    if isinstance(v, (range, VRange)):
        return VType(range)
    if isinstance(v, (VType, VClass)):
        return VType(type)
    o = obj(st, v)
    if isinstance(o, OList):
        return VType(list)
    if isinstance(o, OSet):
        return VType(frozenset if o.frozen else set)
    if isinstance(o, ODict):
        return VType(dict)
    if isinstance(o, OBytearray):
        return VType(bytearray)
    if isinstance(o, OInst):
        return o.cls
    if isinstance(v, VFunc):
        return VType(type(lambda: 0))
    return None


def exact_type(e, st, v):
    """type(v): the arguments in e.subclassed may belong to a subclass."""
    t = pytype(e, st, v)
    if t is None:
        return VUnknownType(v)
    if v in e.subclassed if isinstance(v, Ref) else isinstance(v, SSeq) and len(v.pieces) == 1 and any(
            not isinstance(v.pieces[0], GP) and not isinstance(x, Ref) and x.eq(v.pieces[0]) for x in e.subclassed):
        c = z3.Bool("exact type!%s" % (v.id if isinstance(v, Ref) else v.pieces[0]))
        return VUnion([(c, t), (z3.Not(c), VUnknownType(VObj("subclass")))])
    return t


# ------------------------------------------------------------------ comparison


def seq_eq(a, b):
    ta, tb = sterm(a), sterm(b)
    la, lb = len_of(a), len_of(b)
    if isinstance(la, int) and isinstance(lb, int) and la != lb:
        return False
    return T.mk_eq(ta, tb)


def eq_vals(e, st, a, b):
    """equality as bool / term."""
    if same(a, b):
        return True
    if isinstance(a, VUnion) or isinstance(b, VUnion):
        res = []
        for g, x in a.alts if isinstance(a, VUnion) else [(True, a)]:
            for h, y in b.alts if isinstance(b, VUnion) else [(True, b)]:
                res.append(T.mk_and(g, h, eq_vals(e, st, x, y)))
        return T.mk_or(res)
    if is_conc(a) and is_conc(b):
        return a == b
    if is_intish(a) and is_intish(b):
        ba, bb = tobits(a), tobits(b)
        if ba is not None and bb is not None:
            n = max(len(ba), len(bb))
            ba = list(ba) + [False] * (n - len(ba))
            bb = list(bb) + [False] * (n - len(bb))
            return T.mk_and([T.beq(x, y) for x, y in zip(ba, bb)])
        return T.mk_eq(T.simp(iterm(a)), T.simp(iterm(b)))
    if is_strish(a) and is_strish(b):
        return seq_eq(a, b)
    ca, cb = content(st, a), content(st, b)
    if ca is not None and cb is not None:
        return seq_eq(ca, cb)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return T.mk_and([eq_vals(e, st, x, y) for x, y in zip(a, b)])
    if isinstance(a, VObj) or isinstance(b, VObj):
        return False  # assumption: foreign objects are equal only to themselves
    if isinstance(a, (VOpaque,)) or isinstance(b, (VOpaque,)):
        raise Unsupported("comparison of %r and %r" % (a, b))
    oa, ob = obj(st, a), obj(st, b)
    if oa is not None and ob is not None and type(oa) is type(ob):
        if isinstance(oa, OList):
            if not oa.unordered and not ob.unordered and all(g is True for g, _ in oa.items + ob.items):
                if len(oa.items) != len(ob.items):
                    return False
                return T.mk_and([eq_vals(e, st, x[1], y[1]) for x, y in zip(oa.items, ob.items)])
            if not oa.items:
                return T.mk_not(truth(e, st, b))
            if not ob.items:
                return T.mk_not(truth(e, st, a))
            raise Unsupported("list comparison")
        if isinstance(oa, OSet) and not oa.sym and not ob.sym:
            ks = set(oa.elems) | set(ob.elems)
            return T.mk_and([T.beq(oa.elems.get(k, False), ob.elems.get(k, False)) for k in ks])
        if isinstance(oa, ODict) and not oa.others and not ob.others:
            res = []
            for k in set(oa.entries) | set(ob.entries):
                ga, va = oa.entries.get(k, (False, None))
                gb, vb = ob.entries.get(k, (False, None))
                res.append(T.beq(ga, gb))
                if ga is not False and gb is not False:
                    res.append(T.mk_implies(T.mk_and(ga, gb), eq_vals(e, st, va, vb)))
            return T.mk_and(res)
        if isinstance(oa, OInst):
            return False
    kinds = (VType, VClass, VTypeAttr, VUnknownType)
    if isinstance(a, kinds) or isinstance(b, kinds):
        return a is b or a == b
    ta, tb = pytype(e, st, a), pytype(e, st, b)
    if ta is not None and tb is not None and ta != tb:
        num = (bool, int, float)
        if not (isinstance(ta, VType) and isinstance(tb, VType) and ta.py in num and tb.py in num):
            if not (isinstance(oa, OSet) and isinstance(ob, OSet)):
                return False
    if a is None or b is None:
        return False
    raise Unsupported("comparison of %r and %r" % (a, b))


_contains_f = T.F("contains", T.S, T.S, T.B)


def contains(e, st, c, x):
    c = e.force(st, c)
    if isinstance(c, range):
        x = e.force(st, x)
        if is_conc(x):
            return x in c
        if is_intish(x):
            t = iterm(x)
            if not len(c):
                return False
            lo, hi = min(c[0], c[-1]), max(c[0], c[-1])
            r = T.mk_and(t >= lo, t <= hi)
            if abs(c.step) != 1:
                r = T.mk_and(r, (t - lo) % abs(c.step) == 0)
            return r
        return False
    if is_seq(c):
        x = e.force(st, x)
        if is_conc(c) and is_conc(x):
            return pycall(e, st, lambda: x in c)
        if isinstance(c, str) and is_strish(x) and len(pieces_of(x)) == 1 and T.FIXED_LEN.get(sterm(x).get_id()) is not None \
                and len_of(x) is not None and T.Len(sterm(x)).eq(z3.IntVal(1)):
            return T.mk_or([T.mk_eq(sterm(x), T.sv(k)) for k in dict.fromkeys(c)])
        if is_strish(c) and is_strish(x) or is_bytesish(c) and is_bytesish(x):
            return _contains_f(sterm(c), sterm(x))
        raise e.exc(st, TypeError, "in")
    if isinstance(c, tuple):
        return T.mk_or([eq_vals(e, st, v, x) for v in c])
    o = obj(st, c)
    if isinstance(o, ODict):
        return has_key(e, st, o, e.force(st, x))
    if isinstance(o, OSet):
        x = e.force(st, x)
        return set_has(e, st, o, x)
    if isinstance(o, OList):
        return T.mk_or([T.mk_and(g, eq_vals(e, st, v, x)) for g, v in o.items])
    if isinstance(c, VIter):
        return T.mk_or([T.mk_and(g, eq_vals(e, st, v, x)) for g, v in c.items])
    if isinstance(c, VObj) or c is None or is_intish(c):
        raise e.exc(st, TypeError, "not a container")
    raise Unsupported("in %r" % (c,))


def hashable(k):
    return is_conc(k) and not isinstance(k, range) or isinstance(k, (VType, VTypeAttr))


def set_has(e, st, o, x):
    if hashable(x):
        r = o.elems.get(x, False)
        return T.mk_or([r] + [T.mk_and(g, eq_vals(e, st, v, x)) for g, v in o.sym])
    return T.mk_or(
        [T.mk_and(g, eq_vals(e, st, k, x)) for k, g in o.elems.items()]
        + [T.mk_and(g, eq_vals(e, st, v, x)) for g, v in o.sym])


def check_hashable(e, st, k):
    if isinstance(obj(st, k), (OList, ODict, OBytearray)) or (
            isinstance(obj(st, k), OSet) and not obj(st, k).frozen):
        raise e.exc(st, TypeError, "unhashable")
    if isinstance(k, slice):
        raise e.exc(st, TypeError, "unhashable")


def has_key(e, st, o, k):
    check_hashable(e, st, k)
    if hashable(k):
        if k in o.entries:
            return o.entries[k][0]
        cs = [T.mk_and(x.guard, eq_vals(e, st, x.key, k)) for x in o.others]
        return T.mk_or([c for c in cs if c is not False and not e.prove(st, T.mk_not(c))])
    for x in o.others:
        if same(x.key, k):
            return x.guard
    return T.mk_or(
        [T.mk_and(g, eq_vals(e, st, kk, k)) for kk, (g, _) in o.entries.items()]
        + [T.mk_and(x.guard, eq_vals(e, st, x.key, k)) for x in o.others])


def compare(e, st, op, a, b):
    if isinstance(op, (ast.Is, ast.IsNot)):
        r = is_same(e, st, a, b)
        return mkbool(r if isinstance(op, ast.Is) else T.mk_not(r))
    if isinstance(op, (ast.Eq, ast.NotEq)):
        r = eq_vals(e, st, a, b)
        return mkbool(r if isinstance(op, ast.Eq) else T.mk_not(r))
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(e, st, b, a)
        return mkbool(r if isinstance(op, ast.In) else T.mk_not(r))
    a, b = e.force(st, a), e.force(st, b)
    if is_conc(a) and is_conc(b):
        f = {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]
        return pycall(e, st, f)
    if is_intish(a) and is_intish(b):
        x, y = iterm(a), iterm(b)
        for p, q, flip in ((a, b, False), (b, a, True)):
            if isinstance(q, int) and isinstance(p, SInt) and p.t.get_id() in EXTREMES:
                return mkbool(cmp_extreme(p.t, q, op, flip))
        bit_length_facts(x, y)
        t = {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
        return mkbool(canon_cmp(t))
    oa, ob = obj(st, a), obj(st, b)
    if isinstance(oa, OChars) and isinstance(op, ast.LtE):
        return chars_within(st, oa, b)
    if isinstance(ob, OChars) and isinstance(op, ast.GtE):
        return chars_within(st, ob, a)
    if isinstance(oa, OSet) and isinstance(ob, OSet):
        if isinstance(op, ast.LtE):
            return mkbool(subset(e, st, oa, ob))
        if isinstance(op, ast.GtE):
            return mkbool(subset(e, st, ob, oa))
    if is_strish(a) and is_strish(b):
        f = T.F("strlt", T.S, T.S, T.B)
        lt = lambda x, y: f(sterm(x), sterm(y))  # noqa: E731
        t = {ast.Lt: lambda: lt(a, b), ast.Gt: lambda: lt(b, a), ast.LtE: lambda: T.mk_not(lt(b, a)),
             ast.GtE: lambda: T.mk_not(lt(a, b))}[type(op)]()
        return mkbool(t)
    if isinstance(a, VObj) or isinstance(b, VObj) or a is None or b is None or (is_seq(a) != is_seq(b)):
        raise e.exc(st, TypeError, "not orderable")
    raise Unsupported("ordering of %r and %r" % (a, b))


EXTREMES = {}  # term of max/min of guarded integers -> ("max"/"min", [(guard, int)])


def cmp_extreme(t, c, op, flip):
    """max/min of a guarded non-empty collection compared with a constant."""
    which, alts = EXTREMES[t.get_id()]
    o = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
    if flip:
        o = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[o]
    neg = (which == "max") == (o in ("<", "<="))
    if neg:
        o = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[o]
    f = {"<": lambda k: k < c, "<=": lambda k: k <= c, ">": lambda k: k > c, ">=": lambda k: k >= c}[o]
    r = T.mk_or([g for g, k in alts if f(k)])
    return T.mk_not(r) if neg else r


def extreme(e, st, which, items, default):
    """max/min of guarded concrete integers."""
    some = T.mk_or([g for g, _ in items])
    if default is UNBOUND:
        if not e.branch(st, some):
            raise e.exc(st, ValueError, "empty sequence")
    elif not e.branch(st, some):
        return default
    items = sorted(items, key=lambda x: x[1], reverse=which == "max")
    if len(items) == 1:
        return items[0][1]
    t = z3.Int("%s!%d" % (which, next(_opq)))
    r = z3.IntVal(items[-1][1])
    for g, k in reversed(items[:-1]):
        r = T.mk_ite(g, z3.IntVal(k), r)
    T.fact(t, t == r)
    if all(k >= 0 for _, k in items):
        T.NONNEG_DECLS.add(t.decl().get_id())
    EXTREMES[t.get_id()] = (which, list(items))
    return SInt(t)


bitlen_f = T.F("bit_length", T.I, T.I)


def bit_length_facts(x, y):
    """bit lengths against whole numbers of bytes."""
    apps, ats = [], []
    todo = [x, y]
    while todo:
        t = todo.pop()
        if T.is_app(t, bitlen_f):
            apps.append(t)
        elif z3.is_app(t) and t.num_args() and not (z3.is_const(t)):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                ats.append(t)
            else:
                todo += [c for c in t.children() if z3.is_int(c)]
        elif z3.is_const(t) and not z3.is_int_value(t):
            ats.append(t)
    for b in apps:
        for w in ats:
            T.fact(b, z3.Implies(z3.And(w >= 0, b.arg(0) >= 0), (b <= 8 * w) == (b.arg(0) < T.t_pow256(w))))


def canon_cmp(t):
    """canonical form of a linear comparison, so that equal conditions get equal terms."""
    x, y = t.arg(0), t.arg(1)
    d = T.simp(x - y)
    k = t.decl().kind()
    if z3.is_int_value(d):
        v = d.as_long()
        return {z3.Z3_OP_LT: v < 0, z3.Z3_OP_LE: v <= 0, z3.Z3_OP_GT: v > 0, z3.Z3_OP_GE: v >= 0}[k]
    # to the form (x <= y) or its negation
    if k == z3.Z3_OP_LE:
        return x <= y
    if k == z3.Z3_OP_GE:
        return y <= x
    if k == z3.Z3_OP_GT:
        return z3.Not(x <= y)
    return z3.Not(y <= x)


def is_same(e, st, a, b):
    if isinstance(a, VUnion) or isinstance(b, VUnion):
        res = []
        for g, x in a.alts if isinstance(a, VUnion) else [(True, a)]:
            for h, y in b.alts if isinstance(b, VUnion) else [(True, b)]:
                res.append(T.mk_and(g, h, is_same(e, st, x, y)))
        return T.mk_or(res)
    if a is None or b is None or isinstance(a, bool) and isinstance(b, bool):
        return a is b
    if isinstance(a, Ref) or isinstance(b, Ref):
        return isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id
    if isinstance(a, (VType, VClass)) or isinstance(b, (VType, VClass)):
        return a == b
    if isinstance(a, SBool) and isinstance(b, bool):
        return a.t if b else T.mk_not(a.t)
    if isinstance(b, SBool) and isinstance(a, bool):
        return b.t if a else T.mk_not(b.t)
    if a is b:
        return True
    raise Unsupported("identity of %r and %r" % (a, b))


def subset(e, st, oa, ob):
    res = []
    for k, g in oa.elems.items():
        res.append(T.mk_implies(g, set_has(e, st, ob, k)))
    for g, v in oa.sym:
        res.append(T.mk_implies(g, set_has(e, st, ob, v)))
    return T.mk_and(res)


# ------------------------------------------------------------------ arithmetic


def unary(e, st, op, v):
    if is_conc(v):
        f = {ast.USub: lambda: -v, ast.UAdd: lambda: +v, ast.Invert: lambda: ~v}[type(op)]
        return pycall(e, st, f)
    if is_intish(v):
        if isinstance(op, ast.USub):
            return mkint(-iterm(v))
        if isinstance(op, ast.UAdd):
            return v
        return mkint(-iterm(v) - 1)
    raise e.exc(st, TypeError, "bad operand type")


def binop(e, st, op, a, b, inplace=False):
    if is_conc(a) and is_conc(b):
        f = {
            ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.FloorDiv: lambda: a // b,
            ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b, ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b,
            ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b, ast.BitXor: lambda: a ^ b, ast.Div: lambda: a / b,
        }.get(type(op))
        if f is None:
            raise Unsupported("operator")
        return pycall(e, st, f)
    if is_intish(a) and is_intish(b):
        return int_op(e, st, op, a, b)
    if isinstance(op, ast.Add):
        if is_strish(a) and is_strish(b):
            z = zero_filled(e, st, a, b)
            if z is not None:
                return z
            return mkseq("str", *pieces_of(a), *pieces_of(b))
        ca, cb = content(st, a), content(st, b)
        if ca is not None and cb is not None:
            r = mkseq("bytes", *pieces_of(ca), *pieces_of(cb))
            return r if is_bytesish(a) else st.new(OBytearray(r))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        oa, ob = obj(st, a), obj(st, b)
        if isinstance(oa, OList) and isinstance(ob, OList):
            return st.new(OList(oa.items + ob.items, oa.unordered or ob.unordered))
        raise e.exc(st, TypeError, "unsupported operand types for +")
    if isinstance(op, ast.Mult):
        if is_intish(a):
            a, b = b, a
        if is_intish(b):
            if isinstance(a, str) and len(a) == 1:
                n = iterm(b)
                if a == " ":
                    return mkseq("str", T.t_ljust(T.sv(""), n))
                f = T.F("repeat", T.S, T.I, T.S)
                return mkseq("str", f(T.sv(a), n))
            if isinstance(b, int) and is_seq(a) and b <= 64:
                return mkseq(kind_of(a), *(pieces_of(a) * max(b, 0)))
            o = obj(st, a)
            if isinstance(b, int) and isinstance(o, OList):
                return st.new(OList(o.items * b, o.unordered))
            if isinstance(b, int) and isinstance(a, tuple):
                return a * b
            if is_seq(a):
                f = T.F("repeat", T.S, T.I, T.S)
                return mkseq(kind_of(a), f(sterm(a), iterm(b)))
    if isinstance(op, ast.Mod) and isinstance(a, (str, bytes)):
        return percent(e, st, a, b)
    if isinstance(obj(st, a), OChars) and isinstance(op, ast.Sub) and char_set(st, b) is not None and not is_seq(b):
        o = obj(st, a)
        return st.new(OChars(o.seq, o.minus | char_set(st, b)))
    sa, sb = as_set(e, st, a), as_set(e, st, b)
    if sa is not None and sb is not None and isinstance(op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
        return set_op(e, st, {ast.BitAnd: "and", ast.BitOr: "or", ast.Sub: "sub", ast.BitXor: "xor"}[type(op)], sa, sb)
    if isinstance(op, ast.BitOr) and isinstance(obj(st, a), ODict) and isinstance(obj(st, b), ODict):
        o = obj(st, a)
        r = st.new(ODict(dict(o.entries), o.others, o.unordered))
        dict_update(e, st, r, b)
        return r
    raise e.exc(st, TypeError, "unsupported operand types")


repeat_f = T.F("repeat", T.S, T.I, T.S)


def zero_filled(e, st, a, b):
    """'0' * (w - len(digits)) + digits."""
    pa, pb = pieces_of(a), pieces_of(b)
    if len(pa) == 1 and len(pb) == 1 and T.is_app(pa[0], repeat_f) and T.is_lit(pa[0].arg(0)) and T.sval(
            pa[0].arg(0)) == "0" and T.is_app(pb[0], T.fmtd_f):
        n, w0 = pb[0].arg(0), pb[0].arg(1)
        if z3.is_int_value(w0) and w0.as_long() == 0:
            w = T.simp(pa[0].arg(1) + T.Len(pb[0]))
            if e.branch(st, canon_cmp(n >= 0)):
                if e.branch(st, canon_cmp(w >= 1)):
                    return mkseq("str", T.t_fmtd(n, w))
                return b
    return None


def percent(e, st, fmt, arg):
    """fmt % arg for conversions s, r, d, b with plain flags."""
    isb = isinstance(fmt, bytes)
    text = fmt.decode("latin-1") if isb else fmt
    arg = e.force(st, arg)
    args = list(arg) if isinstance(arg, tuple) else [arg]
    if isinstance(obj(st, arg), ODict):
        raise Unsupported("% with a mapping")
    out, pos = [], 0

    def take():
        if not args:
            raise e.exc(st, TypeError, "not enough arguments for format string")
        return e.force(st, args.pop(0))

    for m in re.finditer(r"%(0?)(\*|\d+)?([a-zA-Z%])", text):
        if "%" in text[pos:m.start()]:
            raise Unsupported("% format")
        out.append(text[pos:m.start()])
        pos = m.end()
        zero, width, ty = m.group(1), m.group(2), m.group(3)
        if ty == "%":
            out.append("%")
            continue
        w = None if width is None else take() if width == "*" else int(width)
        x = take()
        if isb and ty in ("b", "s") and w is None:
            c = content(st, x)
            if c is None:
                raise e.exc(st, TypeError, "a bytes-like object is required")
            out.append(mkseq("str", *pieces_of(c)))
        elif ty in ("s", "r") and w is None and not isb:
            out.append(py_str(e, st, x) if ty == "s" else py_repr(e, st, x))
        elif ty in ("d", "i", "u"):
            if not is_intish(x):
                if isinstance(x, float):
                    raise Unsupported("%d of a float")
                raise e.exc(st, TypeError, "%d format: a real number is required")
            if w is None:
                out.append(istr(x))
            elif zero and is_intish(w):
                if not e.branch(st, canon_cmp(z3.IntVal(0) <= iterm(w))):
                    raise Unsupported("negative width")
                out.append(mkseq("str", T.t_fmtd(T.simp(iterm(x)), T.simp(iterm(w)))))
            else:
                raise Unsupported("% width")
        elif ty in ("x", "X"):
            if w is None or not isinstance(w, int):
                raise Unsupported("%x without a width")
            out.append(format_value(e, st, x, "%s%d%s" % (zero, w, ty)))
        else:
            raise Unsupported("% conversion")
    if "%" in text[pos:]:
        raise Unsupported("% format")
    out.append(text[pos:])
    if args and (isinstance(arg, tuple) or is_seq(arg) or is_intish(arg) or arg is None):
        raise e.exc(st, TypeError, "not all arguments converted")
    r = concat_str(out)
    return mkseq("bytes", *pieces_of(r)) if isb else r


def as_set(e, st, v):
    o = obj(st, v)
    if isinstance(o, OSet):
        return o
    if isinstance(v, VIter) and v.unordered is None:  # keys view
        return OSet({k: g for g, k in v.items if hashable(k)}, [(g, k) for g, k in v.items if not hashable(k)])
    return None


def set_op(e, st, op, sa, sb):
    r = {}
    if op == "and":
        for k, g in sa.elems.items():
            h = T.mk_and(g, set_has(e, st, sb, k))
            if h is not False:
                r[k] = h
        sym = [(T.mk_and(g, set_has(e, st, sb, v)), v) for g, v in sa.sym]
    elif op == "or":
        r = dict(sa.elems)
        for k, g in sb.elems.items():
            r[k] = T.mk_or(r.get(k, False), g)
        sym = list(sa.sym) + [x for x in sb.sym if not any(same(x[1], y[1]) for y in sa.sym)]
    elif op == "sub":
        for k, g in sa.elems.items():
            h = T.mk_and(g, T.mk_not(set_has(e, st, sb, k)))
            if h is not False:
                r[k] = h
        sym = [(T.mk_and(g, T.mk_not(set_has(e, st, sb, v))), v) for g, v in sa.sym]
    else:
        if sa.sym or sb.sym:
            raise Unsupported("symmetric difference")
        for k in list(sa.elems) + [k for k in sb.elems if k not in sa.elems]:
            g, h = sa.elems.get(k, False), sb.elems.get(k, False)
            r[k] = T.mk_or(T.mk_and(g, T.mk_not(h)), T.mk_and(h, T.mk_not(g)))
        sym = []
    sym = [x for x in sym if x[0] is not False]
    return st.new(OSet(r, sym, sa.frozen))


def int_op(e, st, op, a, b):
    ba, bb = tobits(a), tobits(b)
    bitty = isinstance(a, (SBits, SBool)) or isinstance(b, (SBits, SBool))
    if isinstance(op, (ast.BitOr, ast.BitXor, ast.BitAnd)):
        ba, bb = ba if ba is not None else alt_bits(a), bb if bb is not None else alt_bits(b)
        bitty = bitty or isinstance(a, SInt) or isinstance(b, SInt)
    if bitty and ba is not None and bb is not None:
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            n = max(len(ba), len(bb))
            ba = list(ba) + [False] * (n - len(ba))
            bb = list(bb) + [False] * (n - len(bb))
            f = {ast.BitAnd: T.mk_and, ast.BitOr: T.mk_or,
                 ast.BitXor: lambda x, y: T.mk_not(T.beq(x, y))}[type(op)]
            return mkbits([f(x, y) for x, y in zip(ba, bb)])
        if isinstance(op, ast.RShift) and isinstance(b, int):
            return mkbits(ba[b:])
        if isinstance(op, ast.LShift) and isinstance(b, int):
            return mkbits([False] * b + list(ba))
        if isinstance(op, ast.Mod) and isinstance(b, int) and b > 0 and b & (b - 1) == 0:
            return mkbits(ba[:b.bit_length() - 1])
        if isinstance(op, ast.FloorDiv) and isinstance(b, int) and b > 0 and b & (b - 1) == 0:
            return mkbits(ba[b.bit_length() - 1:])
        if isinstance(op, ast.Mult) and isinstance(b, int) and b > 0 and b & (b - 1) == 0:
            return mkbits([False] * (b.bit_length() - 1) + list(ba))
        if isinstance(op, ast.Mult) and isinstance(a, int) and a > 0 and a & (a - 1) == 0:
            return mkbits([False] * (a.bit_length() - 1) + list(bb))
        if isinstance(op, ast.Add):
            # disjoint bits
            n = max(len(ba), len(bb))
            xa = list(ba) + [False] * (n - len(ba))
            xb = list(bb) + [False] * (n - len(bb))
            if all(x is False or y is False for x, y in zip(xa, xb)):
                return mkbits([T.mk_or(x, y) for x, y in zip(xa, xb)])
    x, y = iterm(a), iterm(b)
    if isinstance(op, ast.Add):
        return mkint(x + y)
    if isinstance(op, ast.Sub):
        return mkint(x - y)
    if isinstance(op, ast.Mult):
        if z3.is_int_value(T.simp(x)) or z3.is_int_value(T.simp(y)):
            return mkint(x * y)
        for p, q in ((x, y), (y, x)):
            al = int_alts(q)
            if al:
                return mkint(p * al[e.fork(st, [g for g, _ in al])][1])
        return mkint(T.F("imul", T.I, T.I, T.I)(x, y))
    c = b if isinstance(b, int) else None
    if isinstance(op, (ast.FloorDiv, ast.Mod)) and c is None and int_alts(y):
        al = int_alts(y)
        if len(al) > 1 and all(k > 0 for _, k in al):
            return int_op(e, st, op, a, al[e.fork(st, [g for g, _ in al])][1])
    if isinstance(op, (ast.FloorDiv, ast.Mod)):
        if c is not None and c > 0:
            return mkint(x / c if isinstance(op, ast.FloorDiv) else x % c)
        if c == 0:
            raise e.exc(st, ZeroDivisionError)
        if c is not None:
            raise Unsupported("division by a negative constant")
        if e.branch(st, T.mk_eq(y, z3.IntVal(0))):
            raise e.exc(st, ZeroDivisionError)
        return mkint(T.F("ifloordiv" if isinstance(op, ast.FloorDiv) else "imod", T.I, T.I, T.I)(x, y))
    if isinstance(op, ast.BitAnd):
        for p, q in ((a, b), (b, a)):
            if isinstance(q, int) and q >= 0 and (q & (q + 1)) == 0:
                return mkint(iterm(p) % (q + 1))
    if isinstance(op, ast.BitOr) and c is not None:
        return mkint(T.F("ior", T.I, T.I, T.I)(x, y))
    if isinstance(op, ast.RShift) and c is not None and c >= 0:
        return mkint(x / (1 << c))
    if isinstance(op, ast.LShift) and c is not None and c >= 0:
        return mkint(x * (1 << c))
    if isinstance(op, (ast.LShift, ast.RShift)) and c is None:
        w = eighth(y)
        if w is not None:
            if not e.branch(st, canon_cmp(y >= 0)):
                raise e.exc(st, ValueError, "negative shift count")
            p = T.t_pow256(w)
            if isinstance(op, ast.LShift) and isinstance(a, int) and a == 1:
                return mkint(p)
            if isinstance(op, ast.RShift):
                r = T.F("ishr8", T.I, T.I, T.I)(x, w)
                T.fact(r, z3.Implies(x >= 0, z3.And(r >= 0, r <= x, (r == 0) == (x < p))))
                T.fact(r, z3.Implies(x < 0, r < 0))
                return mkint(r)
    if isinstance(op, ast.Pow) and isinstance(a, int) and a in (10, 256) and e.prove(st, y >= 0):
        return mkint(T.t_pow10(y) if a == 10 else T.t_pow256(y))
    name = type(op).__name__
    if isinstance(op, (ast.BitAnd, ast.BitXor, ast.BitOr)):
        return mkint(T.F("i" + name, T.I, T.I, T.I)(x, y))
    if isinstance(op, ast.Pow) and isinstance(a, int) and a == 2 and eighth(y) is not None and e.prove(st, y >= 0):
        return mkint(T.t_pow256(eighth(y)))
    if isinstance(op, ast.Pow) and isinstance(a, int) and a == 2:
        raise Unsupported("2 ** n")
    raise Unsupported("integer operator %s" % name)


def eighth(y):
    """w when the term is 8 * w."""
    y = T.simp(y)
    if z3.is_app_of(y, z3.Z3_OP_MUL) and y.num_args() == 2 and z3.is_int_value(y.arg(0)) and y.arg(0).as_long() == 8:
        return y.arg(1)
    return None


def inplace(e, st, op, old, val):
    old = e.force(st, old)
    val = e.force(st, val)
    o = obj(st, old)
    if isinstance(o, OBytearray) and isinstance(op, ast.Add):
        c = content(st, val)
        if c is None:
            raise Unsupported("bytearray += %r" % (val,))
        st.set(old, OBytearray(mkseq("bytes", *pieces_of(ba_seq(o)), *pieces_of(c))))
        return old
    if isinstance(o, OList) and isinstance(op, ast.Add):
        v = materialize(e, st, val)
        st.set(old, OList(o.items + v.items, o.unordered or v.unordered))
        return old
    if isinstance(o, OSet) and not o.frozen and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        r = binop(e, st, op, old, val)
        st.set(old, st.get(r))
        return old
    if isinstance(o, ODict) and isinstance(op, ast.BitOr):
        dict_update(e, st, old, val)
        return old
    return binop(e, st, op, old, val)


# ------------------------------------------------------------------ items and slices


def slice_seq(e, st, x, sl):
    """x[a:b] of a str/bytes value."""
    if sl.step is not None and not (isinstance(sl.step, int) and sl.step == 1):
        if is_conc(x) and is_conc(sl):
            return x[sl]
        n = known_length(e, st, x)
        if n is not None and is_conc(sl):
            parts = [slice_seq(e, st, x, slice(i, i + 1)) for i in range(*sl.indices(n))]
            return mkseq(kind_of(x), *[p for y in parts for p in pieces_of(y)])
        f = T.F("stepslice", T.S, T.I, T.I, T.I, T.S)
        if all(is_intish(y) for y in (sl.start, sl.stop, sl.step)):
            return mkseq(kind_of(x), f(sterm(x), iterm(sl.start), iterm(sl.stop), iterm(sl.step)))
        if sl.start is None and sl.stop is None and is_intish(sl.step):
            return mkseq(kind_of(x), T.F("stepall", T.S, T.I, T.S)(sterm(x), iterm(sl.step)))
        raise Unsupported("slice step")
    if is_conc(x) and is_conc(sl):
        return pycall(e, st, lambda: x[sl])
    a, b = e.force(st, sl.start), e.force(st, sl.stop)
    for y in (a, b):
        if y is not None and not is_intish(y):
            raise e.exc(st, TypeError, "slice indices must be integers")
    n = len_of(x)
    nt = z3.IntVal(n) if isinstance(n, int) else n
    kind = kind_of(x)

    def norm(v, default):
        """non-negative start/stop term."""
        if v is None:
            return default
        if isinstance(v, int):
            if v >= 0:
                return z3.IntVal(v)
            if v == -1:
                # len-1, or for an empty sequence -1 (then the sub-sequence is empty anyway)
                return T.simp(nt - 1)
            t = nt + v
            if (e.lazy and e.prove(st, t >= 0)) or e.branch(st, canon_cmp(t >= 0)):
                return T.simp(t)
            return z3.IntVal(0)
        t = iterm(v)
        if T.nonneg(t) or (e.lazy and e.prove(st, t >= 0)) or e.branch(st, canon_cmp(t >= 0)):
            return t
        t2 = nt + t
        if e.branch(st, canon_cmp(t2 >= 0)):
            return T.simp(t2)
        return z3.IntVal(0)

    i = norm(a, z3.IntVal(0))
    if b is None:
        return sub_rope(e, st, x, i, T.simp(nt - i))
    j = norm(b, nt)
    return sub_rope(e, st, x, i, T.simp(j - i))


def sub_rope(e, st, x, i, n):
    """x[i:i+n], aligned with the pieces of x where the path condition allows."""
    kind = kind_of(x)
    ps = pieces_of(x)
    if z3.is_int_value(n) and n.as_long() <= 0:
        return "" if kind == "str" else b""
    if not any(isinstance(p, GP) for p in ps) and len(ps) <= 1:
        return mkseq(kind, T.t_sub(sterm(x), i, n))
    # boundaries
    offs = [z3.IntVal(0)]
    for p in ps:
        offs.append(T.simp(offs[-1] + (T.mk_ite(p.cond, plen(p.pieces), z3.IntVal(0)) if isinstance(p, GP) else T.Len(p))))
    end = T.simp(i + n)
    sk = None
    for k, o in enumerate(offs[:-1]):
        if e.prove(st, T.mk_eq(T.simp(o), T.simp(i))):
            sk = k
            break
    if sk is not None:
        for k in range(sk, len(offs)):
            if e.prove(st, T.mk_eq(T.simp(offs[k]), end)):
                return mkseq(kind, *ps[sk:k])
        # ends beyond the sequence
        if e.prove(st, offs[-1] <= end):
            return mkseq(kind, *ps[sk:])
        # inside one piece
        for k in range(sk, len(ps)):
            if not isinstance(ps[k], GP) and e.prove(st, end <= offs[k + 1]):
                if e.prove(st, offs[k] <= end):
                    return mkseq(kind, *ps[sk:k], T.t_sub(ps[k], z3.IntVal(0), T.simp(end - offs[k])))
                break
    else:
        for k, p in enumerate(ps):
            if isinstance(p, GP):
                continue
            if e.prove(st, z3.And(offs[k] <= i, i <= offs[k + 1])):
                if e.prove(st, end <= offs[k + 1]):
                    return mkseq(kind, T.t_sub(p, T.simp(i - offs[k]), n))
                for m in range(k + 1, len(offs)):
                    if e.prove(st, T.mk_eq(T.simp(offs[m]), end)):
                        return mkseq(kind, T.t_sub(p, T.simp(i - offs[k]), T.simp(offs[k + 1] - i)), *ps[k + 1:m])
                break
    return mkseq(kind, T.t_sub(sterm(x), i, n))


def getitem(e, st, v, idx):
    idx = e.force(st, idx)
    if isinstance(v, (VOpaque, VType, VClass)):
        return VOpaque("subscript")
    if is_seq(v):
        if isinstance(idx, slice):
            return slice_seq(e, st, v, idx)
        if is_conc(v) and is_conc(idx):
            return pycall(e, st, lambda: v[idx])
        if not is_intish(idx):
            raise e.exc(st, TypeError, "indices must be integers")
        n = len_of(v)
        nt = z3.IntVal(n) if isinstance(n, int) else n
        i = iterm(idx)
        if isinstance(idx, int) and idx < 0:
            i = T.simp(nt + idx)
        elif not isinstance(idx, int):
            if not e.branch(st, canon_cmp(i >= 0)):
                i = T.simp(nt + i)
        if not e.branch(st, T.mk_and(canon_cmp(i >= 0), canon_cmp(i < nt))):
            raise e.exc(st, IndexError, "index out of range")
        one = sub_rope(e, st, v, i, z3.IntVal(1))
        if is_strish(v):
            return one
        return byte_of(one)
    if isinstance(v, tuple):
        if isinstance(idx, (int, slice)) and is_conc(idx):
            return pycall(e, st, lambda: v[idx])
        raise Unsupported("tuple index")
    if isinstance(v, range) and is_conc(idx):
        return pycall(e, st, lambda: v[idx])
    o = obj(st, v)
    if isinstance(o, ODict):
        return dict_get(e, st, v, idx)
    if isinstance(o, OBytearray):
        if o.cells is not None and isinstance(idx, int):
            if -len(o.cells) <= idx < len(o.cells):
                return o.cells[idx]
            raise e.exc(st, IndexError, "bytearray index out of range")
        r = getitem(e, st, ba_seq(o), idx)
        return st.new(OBytearray(r)) if isinstance(idx, slice) else r
    if isinstance(o, OList):
        if o.unordered:
            raise Unsupported("index of an unordered list")
        if isinstance(idx, slice) and is_conc(idx):
            if all(g is True for g, _ in o.items):
                return st.new(OList(o.items[idx]))
            raise Unsupported("slice of a guarded list")
        if isinstance(idx, int):
            if all(g is True for g, _ in o.items):
                if -len(o.items) <= idx < len(o.items):
                    return o.items[idx][1]
                raise e.exc(st, IndexError, "list index out of range")
            if idx == 0 or idx == -1:
                its = o.items if idx == 0 else o.items[::-1]
                for g, x in its:
                    if e.branch(st, g):
                        return x
                raise e.exc(st, IndexError, "list index out of range")
        raise Unsupported("list index")
    if isinstance(v, VObj) or v is None or is_intish(v):
        raise e.exc(st, TypeError, "not subscriptable")
    raise Unsupported("subscript of %r" % (v,))


def byte_of(one):
    """integer value of a one-byte sequence."""
    if isinstance(one, bytes):
        return one[0]
    t = one.t
    return SBits([T.t_sbit(t, 0, k) for k in range(8)])


def lit_alts(t, cond=True, out=None, limit=8):
    """[(condition, literal term)] of a tree of conditionals over literals, or None."""
    out = [] if out is None else out
    if T.is_lit(t):
        out.append((cond, t))
    elif z3.is_app_of(t, z3.Z3_OP_ITE):
        if lit_alts(t.arg(1), T.mk_and(cond, t.arg(0)), out, limit) is None:
            return None
        if lit_alts(t.arg(2), T.mk_and(cond, T.mk_not(t.arg(0))), out, limit) is None:
            return None
    else:
        return None
    return out if len(out) <= limit else None


def conc_key(e, st, k):
    """a key chosen among literals: one case per literal."""
    k = e.force(st, k)
    if isinstance(k, SSeq):
        alts = lit_alts(k.t)
        if alts:
            alts = [(c, v) for c, v in alts if c is not False]
            if len(alts) > 1:
                alts2 = [(c, v) for c, v in alts if solver.feasible(list(st.pc) + [c])]
                alts = alts2 or alts
            i = e.fork(st, [c for c, _ in alts])
            return mkseq(k.kind, alts[i][1])
    return k


def dict_get(e, st, ref, k):
    k = conc_key(e, st, k)
    o = st.get(ref)
    check_hashable(e, st, k)
    if hashable(k) and k in o.entries:
        g, v = o.entries[k]
        if not e.branch(st, g):
            raise e.exc(st, KeyError, k)
        return v
    for x in o.others:
        if same(x.key, k):
            if not e.branch(st, x.guard):
                raise e.exc(st, KeyError)
            return x.value
    if hashable(k):
        for x in o.others:
            c = eq_vals(e, st, x.key, k)
            if c is not False and not e.prove(st, T.mk_not(c)) and e.branch(st, T.mk_and(x.guard, c)):
                return x.value
        raise e.exc(st, KeyError, k)
    # symbolic key
    cands = [(T.mk_and(g, eq_vals(e, st, kk, k)), v) for kk, (g, v) in o.entries.items()]
    cands += [(T.mk_and(x.guard, eq_vals(e, st, x.key, k)), x.value) for x in o.others]
    cands = [c for c in cands if c[0] is not False]
    if len(cands) > 40:
        raise Unsupported("lookup with a symbolic key")
    i = e.fork(st, [c for c, _ in cands] + [T.mk_not(T.mk_or([c for c, _ in cands]))])
    if i == len(cands):
        raise e.exc(st, KeyError)
    return cands[i][1]


def setitem(e, st, v, idx, val):
    idx = e.force(st, idx)
    o = obj(st, v)
    if isinstance(o, ODict):
        idx = conc_key(e, st, idx)
        check_hashable(e, st, idx)
        if hashable(idx):
            en = dict(o.entries)
            for x in o.others:
                c = eq_vals(e, st, x.key, idx)
                if c is not False and not e.prove(st, T.mk_not(c)):
                    raise Unsupported("store under a key that may equal a symbolic one")
            if idx in en and en[idx][0] is not True:
                # insertion position depends on the guard
                en[idx] = (True, val)
            else:
                en[idx] = (True, val)
            st.set(v, ODict(en, o.others, o.unordered, o.tag))
            return
        for i, x in enumerate(o.others):
            if same(x.key, idx):
                ot = list(o.others)
                ot[i] = Other(True, x.key, val, x.star)
                st.set(v, ODict(o.entries, ot, o.unordered, o.tag))
                return
        for k in list(o.entries) + [x.key for x in o.others]:
            c = eq_vals(e, st, k, idx)
            if c is not False and not e.prove(st, T.mk_not(c)):
                raise Unsupported("store under a symbolic key")
        st.set(v, ODict(o.entries, o.others + (Other(True, idx, val, False),), o.unordered, o.tag))
        return
    if isinstance(o, OBytearray):
        if isinstance(idx, slice):
            raise Unsupported("slice assignment")
        cells = o.cells
        if cells is None:
            n = known_length(e, st, o.seq)
            if n is None:
                raise Unsupported("item assignment in a bytearray of unknown length")
            if isinstance(o.seq, bytes):
                cells = tuple(o.seq)
            else:
                cells = tuple(byte_at(e, st, o.seq, i, n) for i in range(n))
        if not isinstance(idx, int):
            raise Unsupported("symbolic bytearray index")
        if not -len(cells) <= idx < len(cells):
            raise e.exc(st, IndexError, "bytearray index out of range")
        if isinstance(val, int) and not isinstance(val, bool):
            if not 0 <= val <= 255:
                raise e.exc(st, ValueError, "byte must be in range(0, 256)")
        else:
            b = tobits(val)
            if b is None:
                raise Unsupported("byte value %r" % (val,))
            if any(x is not False for x in b[8:]):
                if e.branch(st, T.mk_or(list(b[8:]))):
                    raise e.exc(st, ValueError, "byte must be in range(0, 256)")
                val = mkbits(b[:8])
        cs = list(cells)
        cs[idx] = val
        st.set(v, OBytearray(cells=cs))
        return
    if isinstance(o, OList) and isinstance(idx, int) and all(g is True for g, _ in o.items) and not o.unordered:
        if not -len(o.items) <= idx < len(o.items):
            raise e.exc(st, IndexError, "list assignment index out of range")
        its = list(o.items)
        its[idx] = (True, val)
        st.set(v, OList(its))
        return
    if is_conc(v) or isinstance(v, (SSeq, SInt, VObj)):
        raise e.exc(st, TypeError, "does not support item assignment")
    raise Unsupported("item assignment to %r[%r] %r" % (v, idx, o and getattr(o, "items", None)))


def byte_at(e, st, s, i, n):
    if isinstance(s, bytes):
        return s[i]
    t = s.t
    T.known_len(t, n)
    return mkbits([T.t_sbit(t, i, k) for k in range(8)])


def delitem(e, st, v, idx):
    v, idx = e.force(st, v), e.force(st, idx)
    o = obj(st, v)
    if isinstance(o, ODict):
        dict_pop(e, st, v, idx, None)
        return
    raise Unsupported("del item")


def dict_pop(e, st, ref, k, default):
    """default: None for none given, else (value,)."""
    o = st.get(ref)
    check_hashable(e, st, k)
    if hashable(k) and k in o.entries:
        g, v = o.entries[k]
        en = dict(o.entries)
        if default is None:
            if not e.branch(st, g):
                raise e.exc(st, KeyError, k)
            g = True
        del en[k]
        st.set(ref, ODict(en, o.others, o.unordered, o.tag))
        return v if g is True else merge_val(g, v, default[0])
    for i, x in enumerate(o.others):
        if same(x.key, k) and not x.star:
            if default is None and not e.branch(st, x.guard):
                raise e.exc(st, KeyError)
            st.set(ref, ODict(o.entries, o.others[:i] + o.others[i + 1:], o.unordered, o.tag))
            return x.value if default is None else merge_val(x.guard, x.value, default[0])
        c = eq_vals(e, st, x.key, k)
        if c is not False and not e.prove(st, T.mk_not(c)):
            if not hashable(k) or e.branch(st, T.mk_and(x.guard, c)):
                raise Unsupported("pop of a symbolic key")
    if not hashable(k) and o.entries:
        raise Unsupported("pop of a symbolic key")
    if default is None:
        raise e.exc(st, KeyError, k)
    return default[0]


def dict_update(e, st, ref, src):
    src = e.force(st, src)
    o = obj(st, src)
    if isinstance(o, ODict):
        d = st.get(ref)
        if o.others:
            raise Unsupported("update with symbolic keys")
        en = dict(d.entries)
        for k, (g, v) in o.entries.items():
            if g is True or k not in en:
                en[k] = (T.mk_or(g, en.get(k, (False,))[0]), v)
            else:
                g0, v0 = en[k]
                en[k] = (T.mk_or(g, g0), merge_val(g, v, v0))
        st.set(ref, ODict(en, d.others, d.unordered or o.unordered, d.tag))
        return
    it = as_iterable(e, st, src)
    if isinstance(it, VIter):
        for g, kv in it.items:
            if g is not True:
                raise Unsupported("dict update")
            k, v = e.unpack(st, kv, 2)
            setitem(e, st, ref, k, v)
        return
    raise Unsupported("dict update")


def set_add(e, st, ref, v, guard=True):
    v = e.force(st, v)
    check_hashable(e, st, v)
    o = st.get(ref)
    if hashable(v):
        el = dict(o.elems)
        el[v] = T.mk_or(el.get(v, False), guard)
        st.set(ref, OSet(el, o.sym, o.frozen))
    else:
        for g, x in o.sym:
            if same(x, v):
                if guard is True and g is not True:
                    st.set(ref, OSet(o.elems, [((True, y) if same(y, v) else (h, y)) for h, y in o.sym], o.frozen))
                return
        st.set(ref, OSet(o.elems, o.sym + ((guard, v),), o.frozen))


def make_set(e, st, it, frozen=False):
    r = st.new(OSet({}, (), frozen))
    for g, v in it.items:
        set_add(e, st, r, v, g)
    return r


# ------------------------------------------------------------------ iteration


def as_iterable(e, st, v):
    """VIter / VGen / VRange / SSeq / VUnion, or the value itself when it is not iterable."""
    if isinstance(v, (VIter, VGen, VUnion, VRange, VEnum)):
        return v
    if isinstance(v, tuple):
        return VIter([(True, x) for x in v])
    if isinstance(v, (str, bytes, range)):
        return VIter([(True, x) for x in v])
    o = obj(st, v)
    if isinstance(o, OList):
        return VIter(o.items, o.unordered)
    if isinstance(o, ODict):
        return VIter([(g, k) for k, (g, _) in o.entries.items()] + [(x.guard, x.key) for x in o.others], o.unordered)
    if isinstance(o, OSet):
        its = [(g, k) for k, g in sorted(o.elems.items(), key=lambda x: (str(type(x[0])), x[0]))]
        its += [(g, x) for g, x in o.sym if solver.feasible(list(st.pc) + [T.tb(g)], 3000)]
        return VIter(its, len(its) > 1)
    if isinstance(o, OBytearray):
        v = ba_seq(o)
        if o.cells is not None:
            return VIter([(True, x) for x in o.cells])
        if isinstance(v, bytes):
            return as_iterable(e, st, v)
    if isinstance(v, SSeq):
        n = known_length(e, st, v)
        if n is not None:
            if v.kind == "bytes":
                return VIter([(True, byte_at(e, st, v, i, n)) for i in range(n)])
            return VIter([(True, sub_rope(e, st, v, z3.IntVal(i), z3.IntVal(1))) for i in range(n)])
    return v


def iter_error(e, st, v):
    if v is None or is_intish(v) or isinstance(v, (VObj, VFunc, VClass, VType, float)) or isinstance(obj(st, v), OInst):
        raise e.exc(st, TypeError, "not iterable")
    raise Unsupported("iteration over %r" % (v,))


def materialize(e, st, v):
    """all elements of an iterable as a VIter."""
    v = e.force(st, v)
    it = as_iterable(e, st, v)
    if isinstance(it, VIter):
        return VIter(it.items, bool(it.unordered))
    if isinstance(it, VGen):
        acc, flag = collect(e, st, it)
        if isinstance(st.get(acc), OLines):
            raise Unsupported("sequence of unknown length")
        return VIter(st.get(acc).items, flag[0])
    if isinstance(it, (VRange, SSeq)):
        raise Unsupported("sequence of unknown length")
    iter_error(e, st, v)


def collect(e, st, it):
    """(list of everything a generator yields, [its order is unknown])."""
    acc = st.new(OList([]))
    flag = [False]

    def consume(s, x):
        list_method(e, s, acc, s.get(acc), "append", [x], {})
        return [Out("next", s)]

    def thunk(s):
        if it.genexp is not None:
            outs = e.iterate_comp(it.genexp[0], s, it.genexp[1], consume, flag)
        else:
            outs = e.iterate_gen(s, it, consume)
        return e.join_next(outs)

    e.call_outcomes(st, thunk)
    return acc, flag


def pre_obj(st, v):
    return st.get(v) if isinstance(v, Ref) else None


def check_commutes(e, pre, it, body, states, outs):
    """a for loop over an unordered collection was run in one order; run it in the opposite one
    and require the same effect (names assigned in the loop become unusable afterwards)."""
    if len(states) > 1 or any(o.kind != "raise" for o in outs):
        raise Unsupported("unordered loop with early exit")
    alt = e.iterate(pre, VIter(tuple(reversed(it.items)), False), body)
    if len(alt) > 1 and e.lazy:
        alt = [o for o in alt if o.kind == "next" or solver.feasible(o.st.pc, 5000)]
    ends = [o for o in alt if o.kind == "raise"]
    alt = [o for o in alt if o.kind != "raise"]
    if len(alt) != len(states) or any(o.kind != "next" for o in alt):
        raise Unsupported("unordered loop with early exit")
    if outs or ends:
        # an exception on the first offending element: raised in the same cases and of one class whatever the
        # order; which of several offending elements it reports depends on the order
        xs = [pre_obj(o.st, o.val) for o in outs + ends]
        if any(not isinstance(x, OInst) or x.cls != xs[0].cls for x in xs):
            raise Unsupported("unordered loop with early exit")
        if not states:
            return
        p, q = states[0].pc, alt[0].st.pc
        if not (e.prove_all(p, q) and e.prove_all(q, p)):
            raise Unsupported("unordered loop with early exit")
    a, b = states[0], alt[0].st
    for i in pre.heap:
        if not osame(a.heap[i], b.heap[i]):
            if isinstance(a.heap[i], ODict) and isinstance(b.heap[i], ODict):
                x, y = a.heap[i], b.heap[i]
                if osame(ODict(dict(sorted(x.entries.items(), key=str)), x.others, True),
                         ODict(dict(sorted(y.entries.items(), key=str)), y.others, True)):
                    a.heap[i] = ODict(x.entries, x.others, True, x.tag)
                    continue
            if isinstance(a.heap[i], OList) and isinstance(b.heap[i], OList):
                x, y = a.heap[i], b.heap[i]
                k = 0
                while k < min(len(x.items), len(y.items)) and csame(x.items[k][0], y.items[k][0]) and same(
                        x.items[k][1], y.items[k][1]):
                    k += 1
                rx, ry = list(x.items[k:]), list(y.items[k:])
                if gsame(rx, list(reversed(ry))):
                    a.heap[i] = OList(x.items, True)
                    continue
            raise Unsupported("loop over an unordered collection depends on the order")
    for f in pre.frames:
        for k in list(a.frames[f]):
            if not same(a.frames[f][k], b.frames[f].get(k, UNBOUND)):
                a.frames[f][k] = VOpaque("order-dependent variable")
    e.unordered_loops = getattr(e, "unordered_loops", 0) + 1


def unit_of(kind):
    """one arbitrary character, or the integer value of one arbitrary byte."""
    u = z3.Const("unit!%d" % next(_opq), T.S)
    T.fix_len(u, 1)
    T.known_len(u, 1)
    if kind == "bytes":
        return mkbits([T.t_sbit(u, 0, k) for k in range(8)])
    return SSeq("str", [u])


def unit_map(e, st, gen):
    """(sequence, unit, value) of a generator that computes one value from every unit of a sequence of unknown
    length, the value being the same expression of every unit; or None."""
    if not isinstance(gen, VGen) or gen.genexp is None or len(gen.genexp[0].generators) != 1 or gen.genexp[0].generators[
            0].ifs or e.unit is not None:
        return None
    vals = []
    e.unit = {}
    pre = st.clone()

    def consume(s, x):
        vals.append((s, x))
        return [Out("next", s)]

    try:
        outs = e.iterate_comp(gen.genexp[0], st.clone(), gen.genexp[1], consume, [False])
        got = e.unit
    except Unsupported:
        return None
    finally:
        e.unit = None
    if "seq" in got and not vals and len(outs) == 1 and outs[0].kind == "raise" and len(outs[0].st.pc) == len(pre.pc):
        # every unit raises: the generator raises unless the sequence is empty
        x = outs[0].val
        o = outs[0].st.get(x) if isinstance(x, Ref) else None
        if isinstance(o, OInst) and not o.attrs and all(is_conc(a) for a in o.args or ()):
            if e.branch(st, T.mk_eq(sterm(got["seq"]), T.sv(""))):
                return got["seq"], got["u"], None
            raise PyExc(st.new(o))
        return None
    if "seq" not in got or len(vals) != 1 or len(outs) != 1 or outs[0].kind != "next":
        return None
    s, x = vals[0]
    if len(s.pc) != len(pre.pc) or any(s.heap.get(i) is not pre.heap[i] for i in pre.heap):
        return None
    return got["seq"], got["u"], x


def unit_term(u):
    return u.pieces[0] if isinstance(u, SSeq) else u.bits[0].arg(0)


def all_units(seq, u, p):
    """term: p(u) holds for every unit u of the sequence; None when p is not of a known form."""
    if isinstance(p, bool):
        return True if p else T.mk_eq(seq, T.sv(""))
    if z3.is_and(p):
        rs = [all_units(seq, u, c) for c in p.children()]
        return None if any(r is None for r in rs) else T.mk_and(rs)
    for n in ("isdigit", "isdecimal", "isnumeric", "isascii", "isalnum", "isalpha", "isspace"):
        if T.is_app(p, T.PRED[n]) and p.arg(0).eq(u):
            return T.mk_or(T.mk_eq(seq, T.sv("")), T.t_pred(n, seq))
    cs = []
    for q in p.children() if z3.is_or(p) else [p]:
        if not z3.is_eq(q):
            return None
        a, b = q.arg(0), q.arg(1)
        if a.eq(u):
            a, b = b, a
        if not b.eq(u) or not T.is_lit(a) or len(T.sval(a)) != 1:
            return None
        cs.append(T.sval(a))
    return T.t_allin(seq, cs)


def join_units(e, st, o, gen):
    """''.join(f(u) for u in sequence) where f is the hex text of a byte, or the unit itself."""
    if o not in ("", b""):
        return None
    m = unit_map(e, st, gen)
    if m is None:
        return None
    seq, u, x = m
    if x is None:
        return "" if is_strish(o) else b""
    ut = unit_term(u)
    if is_strish(x) and is_strish(o) and len(pieces_of(x)) == 1:
        h = hex_of(pieces_of(x)[0])
        if h is not None and h[0].eq(ut):
            t = T.t_hexl(sterm(seq))
            return mkseq("str", T.t_upper(t) if h[1] else t)
        if pieces_of(x)[0].eq(ut) and is_strish(seq):
            return seq
    return None


class OChars:
    """set(text) minus some characters."""

    __slots__ = ("seq", "minus")

    def __init__(self, seq, minus=frozenset()):
        self.seq, self.minus = seq, minus


def char_set(st, v):
    """characters of a concrete set or text, or None."""
    if isinstance(v, str):
        return frozenset(v)
    o = obj(st, v)
    if isinstance(o, OSet) and not o.sym and all(g is True and isinstance(k, str) for k, g in o.elems.items()):
        return frozenset(o.elems)
    return None


def chars_within(st, o, v):
    cs = char_set(st, v)
    if cs is None or o.seq.kind != "str":
        raise Unsupported("set of the characters of a text")
    return mkbool(T.t_allin(sterm(o.seq), frozenset(c for c in cs | o.minus if len(c) == 1)))


# ------------------------------------------------------------------ strings and formatting


def istr(v):
    """str(int)."""
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, int):
        return str(v)
    return mkseq("str", T.t_fmtd(iterm(v), z3.IntVal(0)))


def py_str(e, st, v):
    v = e.force(st, v)
    if is_strish(v):
        return v
    if is_conc(v):
        return str(v)
    if isinstance(v, (SInt, SBits)):
        return istr(v)
    o = obj(st, v)
    if isinstance(o, OInst):
        if isinstance(o.cls, VClass):
            f, c = o.cls.lookup("__str__")
            if isinstance(c, VClass):
                return e.call(st, f, [v], {})
        if isinstance(o.args, tuple):
            if not o.args:
                return ""
            if len(o.args) == 1 and not (isinstance(o.cls, VType) and issubclass(o.cls.py, KeyError)):
                return py_str(e, st, o.args[0])
        return opaque_text()
    return py_repr(e, st, v)


_unknown = {}
_reprs = {}


def py_repr(e, st, v):
    v = e.force(st, v)
    if is_conc(v):
        return repr(v)
    if isinstance(v, SSeq):
        return mkseq("str", T.t_repr(v.t, v.kind == "bytes"))
    if isinstance(v, (SInt, SBits)):
        return istr(v)
    if isinstance(v, VObj):
        return SSeq("str", [T.F("repr_obj", T.Obj, T.S)(z3.Const("obj!" + v.name, T.Obj))])
    o = obj(st, v)
    if isinstance(o, OBytearray):
        return mkseq("str", T.sv("bytearray("), *(pieces_of(py_repr(e, st, ba_seq(o))) + (T.sv(")"),)))
    if isinstance(o, OList) and not any(isinstance(x, (Ref, VUnion)) for _, x in o.items):
        # one text for one contents
        return _reprs.setdefault(id(o), (o, opaque_text()))[1]
    return opaque_text()


def concat_str(parts):
    ps = []
    for p in parts:
        ps += list(pieces_of(p))
    return mkseq("str", *ps)


def parse_spec(spec):
    """format specification -> (fill, align, zero, width, type) with width int / SInt / None; or None."""
    if isinstance(spec, str):
        m = re.fullmatch(r"(?:(.)?([<>=^]))?(0)?(\d+)?([a-zA-Z])?", spec)
        if not m:
            return None
        return (m.group(1), m.group(2), bool(m.group(3)), None if m.group(4) is None else int(m.group(4)), m.group(5))
    ps = spec.pieces
    k = [i for i, p in enumerate(ps) if not isinstance(p, GP) and T.is_app(p, T.fmtd_f)]
    if len(k) != 1 or any(isinstance(p, GP) for p in ps):
        return None
    k = k[0]
    w = ps[k]
    if not (z3.is_int_value(w.arg(1)) and w.arg(1).as_long() == 0):
        return None
    if any(not T.is_lit(p) for i, p in enumerate(ps) if i != k):
        return None
    pre = "".join(T.sval(p) for p in ps[:k])
    post = "".join(T.sval(p) for p in ps[k + 1:])
    m = re.fullmatch(r"(?:(.)?([<>=^]))?(0)?", pre)
    m2 = re.fullmatch(r"([a-zA-Z])?", post)
    if not m or not m2:
        return None
    return (m.group(1), m.group(2), bool(m.group(3)), SInt(w.arg(0)), m2.group(1))


def format_value(e, st, x, spec):
    """format(x, spec)."""
    x = e.force(st, x)
    if isinstance(spec, str) and spec == "":
        return py_str(e, st, x)
    if is_conc(x) and isinstance(spec, str):
        return pycall(e, st, format, x, spec)
    p = parse_spec(spec)
    if p is None:
        raise Unsupported("format specification")
    fill, align, zero, width, ty = p
    if isinstance(width, SInt):
        if not e.branch(st, canon_cmp(width.t >= 0)):
            raise e.exc(st, ValueError, "Invalid format specifier")
    wt = None if width is None else iterm(width)
    if isinstance(x, (int, SInt, SBits)) and not isinstance(x, bool):
        if ty in ("d", None) and align is None and fill is None:
            if width is None:
                return istr(x)
            if zero:
                return mkseq("str", T.t_fmtd(iterm(x), wt))
        if ty in ("d", None) and zero is False and fill == "0" and align in (">", "=") and width is not None:
            if e.branch(st, canon_cmp(iterm(x) >= 0)):
                return mkseq("str", T.t_fmtd(iterm(x), wt))
        if ty in ("s",):
            raise e.exc(st, ValueError, "Unknown format code 's'")
        bits = tobits(x)
        if ty in ("b", "x", "X") and bits is None and isinstance(x, SInt):
            raise Unsupported("integer format")
        if ty in ("b", "x", "X") and isinstance(width, (int, type(None))) and align in (None, "=", ">") and (
                zero or fill == "0" or width is None):
            if ty == "b":
                if width is not None and width >= len(bits):
                    return bit_chars(bits, width)
                if width is None:
                    return mkseq("str", bin_text(bits))
            elif width is not None and width % 2 == 0 and width * 4 >= len(bits) and width > 0:
                b = list(bits) + [False] * (width * 4 - len(bits))
                h = T.t_hexl(T.t_mkbytes([b[8 * i:8 * i + 8] for i in reversed(range(width // 2))]))
                return mkseq("str", T.t_upper(h) if ty == "X" else h)
        raise Unsupported("integer format")
    if is_strish(x):
        if ty not in ("s", None):
            raise e.exc(st, ValueError, "Unknown format code")
        if align in (None, "<") and fill in (None, " ") and not zero and wt is not None:
            return mkseq("str", T.t_ljust(sterm(x), wt))
        if wt is None:
            return x
        f = T.F("format_%s_%s" % (fill, align), T.S, T.I, T.S)
        return mkseq("str", f(sterm(x), wt))
    raise Unsupported("format of %r" % (x,))


def str_format(e, st, fmt, args, kw):
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        name = field
        if not re.fullmatch(r"\w*", name):
            raise Unsupported("format field %s" % field)
        if name == "":
            name = str(auto)
            auto += 1
        if name.isdigit():
            if int(name) >= len(args):
                raise e.exc(st, IndexError, "format")
            x = args[int(name)]
        else:
            if name not in kw:
                raise e.exc(st, KeyError, name)
            x = kw[name]
        if conv == "r":
            x = py_repr(e, st, x)
        elif conv == "s":
            x = py_str(e, st, x)
        elif conv == "a":
            x = opaque_text()
        if spec and "{" in spec:
            # nested fields continue the automatic numbering
            sub = []
            for l2, f2, s2, c2 in string.Formatter().parse(spec):
                if l2:
                    sub.append(l2)
                if f2 is not None:
                    if f2 == "":
                        y = args[auto]
                        auto += 1
                    elif f2.isdigit():
                        y = args[int(f2)]
                    elif f2 in kw:
                        y = kw[f2]
                    else:
                        raise e.exc(st, KeyError, f2)
                    sub.append(py_str(e, st, y))
            spec = concat_str(sub)
        out.append(format_value(e, st, x, spec or ""))
    return concat_str(out)


def codec_decode(e, st, data, enc, errors):
    enc, errors = e.force(st, enc), e.force(st, errors)
    if not is_strish(enc) or not is_strish(errors):
        raise e.exc(st, TypeError, "encoding must be str")
    if is_conc(data) and is_conc(enc) and is_conc(errors):
        return pycall(e, st, lambda: data.decode(enc, errors))
    c, b = sterm(enc), sterm(data)
    empty = T.mk_eq(b, T.sv(""))
    known = T.t_known(c)
    if errors != "strict":
        if not isinstance(errors, str):
            raise Unsupported("symbolic error handler")
        k = e.fork(st, [T.mk_or(empty, known), T.mk_and(T.mk_not(empty), T.mk_not(known))])
        if k == 1:
            raise e.exc(st, LookupError, "unknown encoding")
        return mkseq("str", T.F("dec_" + errors, T.S, T.S, T.S)(c, b))
    ok = T.t_dec_ok(c, b)
    k = e.fork(st, [T.mk_or(empty, T.mk_and(known, ok)), T.mk_and(T.mk_not(empty), T.mk_not(known)),
                    T.mk_and(T.mk_not(empty), known, T.mk_not(ok))])
    if k == 1:
        raise e.exc(st, LookupError, "unknown encoding")
    if k == 2:
        raise e.exc(st, UnicodeError, "undecodable")
    # definitions used by round trips
    if "codec" in solver.GROUPS and T.is_app(b, T.enc_f) and b.arg(0).eq(c) and e.prove(st, T.t_enc_ok(c, b.arg(1))):
        return mkseq("str", b.arg(1))
    return mkseq("str", T.t_dec(c, b))


def codec_encode(e, st, s, enc, errors):
    enc, errors = e.force(st, enc), e.force(st, errors)
    if not is_strish(enc) or not is_strish(errors):
        raise e.exc(st, TypeError, "encoding must be str")
    if is_conc(s) and is_conc(enc) and is_conc(errors):
        return pycall(e, st, lambda: s.encode(enc, errors))
    c, x = sterm(enc), sterm(s)
    known = T.t_known(c)
    if errors != "strict":
        if not isinstance(errors, str):
            raise Unsupported("symbolic error handler")
        if e.fork(st, [known, T.mk_not(known)]) == 1:
            raise e.exc(st, LookupError, "unknown encoding")
        return mkseq("bytes", T.F("enc_" + errors, T.S, T.S, T.S)(c, x))
    ok = T.t_enc_ok(c, x)
    k = e.fork(st, [T.mk_and(known, ok), T.mk_not(known), T.mk_and(known, T.mk_not(ok))])
    if k == 1:
        raise e.exc(st, LookupError, "unknown encoding")
    if k == 2:
        raise e.exc(st, UnicodeError, "unencodable")
    if "codec" in solver.GROUPS and T.is_app(x, T.dec_f) and x.arg(0).eq(c) and e.prove(st, T.t_dec_ok(c, x.arg(1))):
        return mkseq("bytes", x.arg(1))
    return mkseq("bytes", T.t_enc(c, x))


def unhexlify(e, st, x):
    x = e.force(st, x)
    c = x if is_seq(x) else content(st, x)
    if c is None:
        if isinstance(x, (VObj,)) or x is None or is_intish(x) or isinstance(x, tuple) or isinstance(
                obj(st, x), (OList, ODict, OSet)):
            raise e.exc(st, TypeError, "argument should be bytes, buffer or ASCII string")
        raise Unsupported("a2b_hex(%r)" % (x,))
    if is_conc(c):
        return pycall(e, st, binascii.a2b_hex, c)
    t = sterm(c)
    ok = T.t_unhex_ok(t)
    if is_strish(c):
        asc = T.t_pred("isascii", t)
        k = e.fork(st, [ok, T.mk_and(T.mk_not(ok), asc), T.mk_and(T.mk_not(ok), T.mk_not(asc))])
    else:
        k = e.fork(st, [ok, T.mk_not(ok)])
    if k == 1:
        raise e.exc(st, binascii.Error, "Non-hexadecimal digit found")
    if k == 2:
        raise e.exc(st, ValueError, "string argument should contain only ASCII characters")
    return mkseq("bytes", T.t_unhex(t))


BINOF = {}  # term of the binary digits of an integer -> its bits


def bin_text(bits):
    t = z3.Const("bin!%d" % next(_opq), T.S)
    T.fact(t, z3.And(T.Len(t) >= 1, T.Len(t) <= max(len(bits), 1)))
    BINOF[t.get_id()] = list(bits)
    return t


def bit_chars(bits, width):
    """binary digits, most significant first, of fixed width >= len(bits)."""
    bits = list(bits) + [False] * (width - len(bits))
    return mkseq("str", *[T.sv("01"[b]) if isinstance(b, bool) else T.mk_ite(b, T.sv("1"), T.sv("0"))
                          for b in reversed(bits)])


def leaves(t):
    return leaves(t.arg(1)) + leaves(t.arg(2)) if z3.is_app_of(t, z3.Z3_OP_ITE) else [t]


def digit_bits(v):
    """[truth of 'the digit is 1'] of text made of binary digits, or None."""
    out = []
    for p in pieces_of(v):
        if isinstance(p, GP):
            return None
        if T.is_lit(p):
            if any(c not in "01" for c in T.sval(p)):
                return None
            out += [c == "1" for c in T.sval(p)]
        elif z3.is_app_of(p, z3.Z3_OP_ITE) and T.lit_leaves(p) and z3.is_int_value(T.Len(p)) and T.Len(p).as_long() == 1:
            if any(T.sval(x) not in ("0", "1") for x in leaves(p)):
                return None
            out.append(T.mk_eq(p, T.sv("1")))
        elif p.get_id() in BINOF:
            return list(reversed(BINOF[p.get_id()])) if len(pieces_of(v)) == 1 else None
        else:
            return None
    return out


def to_int(e, st, args, kw):
    if not args:
        return 0
    x = e.force(st, args[0])
    base = e.force(st, args[1]) if len(args) > 1 else kw.get("base", 10)
    if is_conc(x) and is_conc(base):
        return pycall(e, st, lambda: int(x) if len(args) < 2 and "base" not in kw else int(x, base))
    if isinstance(x, (SInt, SBits)):
        return x
    if isinstance(x, SBool):
        return mkbits([x.t])
    c = x if is_seq(x) else content(st, x)
    if c is not None:
        t = sterm(c)
        if base == 2:
            bits = digit_bits(c)
            if bits is not None and bits:
                return mkbits(list(reversed(bits)))
        if base == 10:
            bits = digit_bits(c)
            if bits is not None and len(bits) == 1:
                return mkbits(bits)
            if not e.branch(st, T.t_int_ok(t)):
                raise e.exc(st, ValueError, "invalid literal for int()")
            return mkint(T.t_int(t))
        if base == 16:
            if e.branch(st, T.t_unhex_ok(t)):
                if e.branch(st, T.mk_not(T.mk_eq(t, T.sv("")))):
                    return mkint(T.t_frombe(T.t_unhex(t)))
                raise e.exc(st, ValueError, "invalid literal for int()")
            ok = T.F("int16_ok", T.S, T.B)(t)
            if not e.branch(st, ok):
                raise e.exc(st, ValueError, "invalid literal for int()")
            return mkint(T.F("int16", T.S, T.I)(t))
        if isinstance(base, int):
            ok = T.F("int%d_ok" % base, T.S, T.B)(t)
            if not e.branch(st, ok):
                raise e.exc(st, ValueError, "invalid literal for int()")
            return mkint(T.F("int%d_of" % base, T.S, T.I)(t))
        raise Unsupported("int base")
    if isinstance(x, VObj) or isinstance(x, tuple) or isinstance(obj(st, x), (OList, ODict, OSet)):
        raise e.exc(st, TypeError, "int() argument")
    raise Unsupported("int(%r)" % (x,))


def int_from_bytes(e, st, args, kw):
    b = e.force(st, args[0])
    order = args[1] if len(args) > 1 else kw.get("byteorder", "big")
    signed = kw.get("signed", False)
    c = content(st, b)
    if c is None:
        if isinstance(b, VIter) or isinstance(obj(st, b), OList):
            raise Unsupported("from_bytes of a list")
        raise e.exc(st, TypeError, "cannot convert to bytes")
    if is_conc(c) and is_conc(order) and is_conc(signed):
        return pycall(e, st, lambda: int.from_bytes(c, order, signed=signed))
    if order == "big" and signed is False:
        n = len_of(c)
        n = n if isinstance(n, int) else T.simp(n)
        if isinstance(n, int) or z3.is_int_value(n) or True:
            k = known_length(e, st, c)
            if k is not None and k >= 8:
                bits = []
                for i in reversed(range(k)):
                    x = byte_at(e, st, c, i, k)
                    xb = list(tobits(x))[:8]
                    bits += xb + [False] * (8 - len(xb))
                return mkbits(bits)
        return mkint(T.t_frombe(sterm(c)))
    if not is_conc(order) or not is_conc(signed):
        raise Unsupported("from_bytes")
    if order not in ("big", "little"):
        raise e.exc(st, ValueError, "byteorder")
    return mkint(T.F("frombytes_%s_%s" % (order, signed), T.S, T.I)(sterm(c)))


def int_to_bytes(e, st, x, args, kw):
    length = e.force(st, args[0] if args else kw.get("length", 1))
    order = args[1] if len(args) > 1 else kw.get("byteorder", "big")
    signed = kw.get("signed", False)
    if is_conc(x) and is_conc(length) and is_conc(order) and is_conc(signed):
        return pycall(e, st, lambda: x.to_bytes(length, order, signed=signed))
    if not is_conc(order) or not is_conc(signed):
        raise Unsupported("to_bytes")
    if not is_intish(length):
        raise e.exc(st, TypeError, "length")
    if isinstance(length, int) and order == "big" and signed is False:
        b = tobits(x)
        if b is not None:
            if any(y is not False for y in b[8 * length:]):
                if e.branch(st, T.mk_or(list(b[8 * length:]))):
                    raise e.exc(st, OverflowError, "int too big to convert")
            b = list(b[:8 * length]) + [False] * (8 * length - len(b))
            return mkseq("bytes", T.t_mkbytes([b[8 * i:8 * i + 8] for i in reversed(range(length))]))
    n, w = iterm(x), iterm(length)
    if not e.branch(st, canon_cmp(w >= 0)):
        raise e.exc(st, ValueError, "length argument must be non-negative")
    if signed is False:
        if not e.branch(st, T.mk_and(canon_cmp(n >= 0), canon_cmp(n < T.t_pow256(w)))):
            raise e.exc(st, OverflowError, "int too big to convert")
        if order == "big":
            return mkseq("bytes", T.t_tobe(n, w))
        if order == "little":
            t = T.F("tole", T.I, T.I, T.S)(n, w)
            T.fact(t, T.Len(t) == w)
            return mkseq("bytes", t)
    else:
        ok = T.F("fits_signed", T.I, T.I, T.B)(n, w)
        if not e.branch(st, ok):
            raise e.exc(st, OverflowError, "int too big to convert")
        t = T.F("tosigned_" + order, T.I, T.I, T.S)(n, w)
        T.fact(t, T.Len(t) == w)
        return mkseq("bytes", t)
    raise e.exc(st, ValueError, "byteorder")


# ------------------------------------------------------------------ methods


PRED_METHODS = ("isnumeric", "isdigit", "isdecimal", "isascii", "isalnum", "isalpha", "isspace", "isupper",
                "islower", "isprintable", "isidentifier")
OPAQUE_STR = ("strip", "lstrip", "rstrip", "replace", "title", "capitalize", "casefold", "swapcase", "expandtabs",
              "center", "removeprefix", "removesuffix", "translate")


def call_method(e, st, o, name, args, kw):
    args = list(args)
    if isinstance(o, (VModule, VClass, VFunc, VType, VSuper, VTypeAttr, VBuiltin)) or isinstance(
            obj(st, o), (OInst,)):
        return e.call(st, get_attr(e, st, o, name), args, kw)
    if is_seq(o):
        return seq_method(e, st, o, name, [e.force(st, a) for a in args], {k: e.force(st, v) for k, v in kw.items()})
    if is_intish(o):
        if name == "to_bytes":
            return int_to_bytes(e, st, o, args, kw)
        if name == "from_bytes":
            return int_from_bytes(e, st, args, kw)
        if is_conc(o) and all(is_conc(a) for a in args) and hasattr(o, name):
            return pycall(e, st, lambda: getattr(o, name)(*args, **kw))
        if name == "bit_length":
            return mkint(T.F("bit_length", T.I, T.I)(iterm(o)))
        if not hasattr(int, name):
            raise e.exc(st, AttributeError, name)
        raise Unsupported("int.%s" % name)
    if isinstance(o, tuple):
        if name == "index" or name == "count":
            if is_conc(o) and is_conc(args[0]):
                return pycall(e, st, lambda: getattr(o, name)(*args))
            raise Unsupported("tuple.%s" % name)
        raise e.exc(st, AttributeError, name)
    x = obj(st, o)
    if isinstance(x, OChars):
        a = e.force(st, args[0]) if args else None
        if name == "issubset":
            return chars_within(st, x, a)
        if name == "difference" and len(args) == 1 and char_set(st, a) is not None:
            return st.new(OChars(x.seq, x.minus | char_set(st, a)))
        raise Unsupported("set.%s of the characters of a text" % name)
    if isinstance(x, ODict):
        return dict_method(e, st, o, x, name, args, kw)
    if isinstance(x, OSet):
        return set_method(e, st, o, x, name, args, kw)
    if isinstance(x, (OList, OLines)):
        return list_method(e, st, o, x, name, args, kw)
    if isinstance(x, OBytearray):
        return bytearray_method(e, st, o, x, name, args, kw)
    if isinstance(x, OStream):
        return e.stream_method(st, o, x, name, args, kw)
    if isinstance(o, VObj):
        raise e.exc(st, AttributeError, name)
    if o is None or isinstance(o, (float, range)):
        if is_conc(o) and hasattr(o, name) and all(is_conc(a) for a in args):
            return pycall(e, st, lambda: getattr(o, name)(*args, **kw))
        raise e.exc(st, AttributeError, name)
    if isinstance(o, VGen):
        raise Unsupported("generator method")
    if isinstance(o, VIter):
        if name in ("__iter__",):
            return o
        s = as_set(e, st, o)
        if s is not None and name in ("isdisjoint",):
            return set_method(e, st, st.new(s), s, name, args, kw)
        raise Unsupported("method %s of a view" % name)
    raise Unsupported("method %s of %r" % (name, o))


def seq_method(e, st, o, name, args, kw):
    py = str if is_strish(o) else bytes
    if not hasattr(py, name):
        raise e.exc(st, AttributeError, "%s has no attribute %s" % (py.__name__, name))
    if name == "join":
        arg = e.force(st, args[0])
        if isinstance(arg, VGen):
            r = join_units(e, st, o, arg)
            if r is not None:
                return r
            arg, flag = collect(e, st, arg)
            if flag[0]:
                st.set(arg, OList(st.get(arg).items, True))
        x = obj(st, arg)
        if isinstance(x, OLines) and same(x.sep, o) and all(is_strish(v) for v in x.items):
            return mkseq("str", *[p for v in (x.head,) + tuple(y for v in x.items for y in (x.sep, v)) for p in pieces_of(v)])
        it = materialize(e, st, arg)
        if it.unordered and len(it.items) > 1:
            return opaque_text() if py is str else _no("join of an unordered collection")
        ps = []
        if o not in ("", b"") and any(g is not True for g, _ in it.items):
            if py is str:
                return opaque_text()
            raise Unsupported("join of guarded elements")
        for i, (g, v) in enumerate(it.items):
            v = e.force(st, v)
            c = v if is_strish(v) else content(st, v)
            if c is None or (is_strish(c) != (py is str)):
                raise e.exc(st, TypeError, "sequence item")
            if i and o not in ("", b""):
                ps += list(pieces_of(o))
            ps += list(pieces_of(c)) if g is True else [GP(g, pieces_of(c))]
        if py is str:
            ps = join_hex(ps)
        return mkseq("str" if py is str else "bytes", *ps)
    if name == "format" and isinstance(o, str):
        if all(is_conc(a) for a in args) and all(is_conc(v) for v in kw.values()):
            return pycall(e, st, lambda: o.format(*args, **kw))
        return str_format(e, st, o, args, kw)
    if name == "encode":
        return codec_encode(e, st, o, args[0] if args else kw.get("encoding", "utf-8"),
                            args[1] if len(args) > 1 else kw.get("errors", "strict"))
    if name == "decode":
        return codec_decode(e, st, o, args[0] if args else kw.get("encoding", "utf-8"),
                            args[1] if len(args) > 1 else kw.get("errors", "strict"))
    if name == "fromhex":
        return fromhex(e, st, args[0])
    if is_conc(o) and all(is_conc(a) for a in args) and all(is_conc(v) for v in kw.values()):
        r = pycall(e, st, lambda: getattr(o, name)(*args, **kw))
        if isinstance(r, list):
            return st.new(OList([(True, x) for x in r]))
        return r
    t = sterm(o)
    if name == "hex":
        if args or kw:
            raise Unsupported("hex with a separator")
        return mkseq("str", T.t_hexl(t))
    if py is str and name == "upper" or py is bytes and name == "upper":
        if py is bytes:
            return mkseq("bytes", T.t_upper(t)) if T.is_app(t, T.hexl_f) else mkseq(
                "bytes", T.F("bytes_upper", T.S, T.S)(t))
        return mkseq("str", T.t_upper(t))
    if name == "lower" and py is str:
        return mkseq("str", T.t_lower(t))
    if name in PRED_METHODS:
        if py is bytes and name == "isdigit":
            return mkbool(T.mk_and(T.t_pred("isascii", t), T.t_pred("isdigit", t)))
        if py is bytes and name == "isascii":
            return mkbool(T.t_pred("isascii", t))
        if py is bytes:
            return mkbool(T.F("bytes_" + name, T.S, T.B)(t))
        return mkbool(T.t_pred(name, t))
    if name in ("zfill", "rjust") and py is str and (name == "zfill" or args[1:] == ["0"]) and len(
            pieces_of(o)) == 1 and t.get_id() in BINOF:
        if isinstance(args[0], int) and args[0] >= len(BINOF[t.get_id()]):
            return bit_chars(BINOF[t.get_id()], args[0])
    if name in ("ljust", "rjust") and not kw and (
            py is bytes or not (len(args) < 2 or args[1] == " " and name == "ljust" or args[1] == "0")):
        r = justify(e, st, o, py, name, args)
        if r is not None:
            return r
    if name in ("zfill", "rjust") and py is str:
        w = args[0]
        if name == "zfill" or (len(args) > 1 and args[1] == "0"):
            if T.is_app(t, T.fmtd_f) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == 0:
                if e.branch(st, canon_cmp(t.arg(0) >= 0)):
                    if e.branch(st, canon_cmp(iterm(w) >= 1)):
                        return mkseq("str", T.t_fmtd(t.arg(0), iterm(w)))
                    return o
        return mkseq("str", T.F("str_" + name, T.S, T.I, T.S)(t, iterm(w)))
    if name == "ljust" and py is str and (len(args) < 2 or args[1] == " "):
        return mkseq("str", T.t_ljust(t, iterm(args[0])))
    if name in ("startswith", "endswith") and len(args) == 1:
        p = args[0]
        if isinstance(p, tuple):
            return mkbool(T.mk_or([bterm(seq_method(e, st, o, name, [x], {})) for x in p]))
        if not is_seq(p) or is_strish(p) != (py is str):
            raise e.exc(st, TypeError, name)
        n = len_of(p)
        nt = z3.IntVal(n) if isinstance(n, int) else n
        if name == "startswith":
            part = sub_rope(e, st, o, z3.IntVal(0), T.simp(nt))
            return mkbool(T.mk_or(seq_eq(part, p), T.mk_eq(sterm(p), T.sv(""))))
        L = len_of(o)
        L = z3.IntVal(L) if isinstance(L, int) else L
        part = sub_rope(e, st, o, T.simp(L - nt), T.simp(nt))
        return mkbool(T.mk_or(seq_eq(part, p), T.mk_eq(sterm(p), T.sv(""))))
    if name in ("strip", "lstrip", "rstrip") and len(args) == 1 and isinstance(args[0], (str, bytes)) and not kw:
        if isinstance(args[0], py):
            cs = args[0] if py is str else args[0].decode("latin-1")
            return mkseq("str" if py is str else "bytes", T.t_strip(t, cs, name))
        raise e.exc(st, TypeError, name)
    if name in ("removeprefix", "removesuffix") and len(args) == 1 and not kw:
        p = e.force(st, args[0])
        c = p if is_strish(p) else content(st, p)
        if c is None or is_strish(c) != (py is str):
            raise e.exc(st, TypeError, name)
        if e.branch(st, bterm(seq_method(e, st, o, "startswith" if name == "removeprefix" else "endswith", [c], {}))):
            n, L = len_of(c), len_of(o)
            n = z3.IntVal(n) if isinstance(n, int) else n
            L = z3.IntVal(L) if isinstance(L, int) else L
            if name == "removeprefix":
                return sub_rope(e, st, o, T.simp(n), T.simp(L - n))
            return sub_rope(e, st, o, z3.IntVal(0), T.simp(L - n))
        return o
    if name in OPAQUE_STR and not kw:
        if any(is_seq(a) and is_strish(a) != (py is str) for a in args):
            raise e.exc(st, TypeError, name)
        sorts, ts = [], []
        for a in [o] + args:
            if is_seq(a):
                sorts.append(T.S)
                ts.append(sterm(a))
            elif is_intish(a):
                sorts.append(T.I)
                ts.append(iterm(a))
            elif a is None:
                continue
            else:
                raise Unsupported("argument of %s" % name)
        f = T.F("%s_%s%d" % (py.__name__, name, len(ts)), *(sorts + [T.S]))
        return mkseq("str" if py is str else "bytes", f(*ts))
    if name in ("count", "find", "index", "rfind") and len(args) == 1 and is_seq(args[0]):
        if name == "index":
            raise Unsupported("index")
        return mkint(T.F("%s_%s" % (py.__name__, name), T.S, T.S, T.I)(t, sterm(args[0])))
    if name == "__len__":
        return py_len(e, st, o)
    if name in ("__add__",):
        return binop(e, st, ast.Add(), o, args[0])
    if name == "__repr__":
        return py_repr(e, st, o)
    raise Unsupported("%s.%s" % (py.__name__, name))


def hex_of(p):
    """(bytes term, upper?) of a piece that is hex text."""
    if isinstance(p, GP):
        return None
    if T.is_app(p, T.hexl_f):
        return p.arg(0), False
    if T.is_app(p, T.upper_f) and T.is_app(p.arg(0), T.hexl_f):
        return p.arg(0).arg(0), True
    return None


def join_hex(ps):
    """hex text of consecutive byte sequences as the hex text of their concatenation."""
    hs = [hex_of(p) for p in ps]
    if len(ps) < 2 or any(h is None for h in hs) or len({u for _, u in hs}) != 1:
        return ps
    bs = [h[0] for h in hs]
    cells = [T.MKBYTES.get(b.get_id()) for b in bs]
    if all(c is not None for c in cells):
        whole = T.t_mkbytes([x for c in cells for x in c])
    elif all(c is not None or T.is_app(b, T.sub_f) for b, c in zip(bs, cells)):
        return ps
    else:
        return ps
    h = T.t_hexl(whole)
    return [T.t_upper(h) if hs[0][1] else h]


def _no(msg):
    raise Unsupported(msg)


def fromhex(e, st, x):
    x = e.force(st, x)
    if not is_strish(x):
        raise e.exc(st, TypeError, "fromhex() argument must be str")
    if is_conc(x):
        return pycall(e, st, bytes.fromhex, x)
    t = sterm(x)
    if T.t_unhex_ok(t) is True:
        return mkseq("bytes", T.t_unhex(t))
    if not e.branch(st, T.t_fromhex_ok(t)):
        raise e.exc(st, ValueError, "non-hexadecimal number found in fromhex() arg")
    return mkseq("bytes", T.t_fromhex(t))


def dict_method(e, st, ref, o, name, args, kw):
    if name == "get":
        k = e.force(st, args[0])
        d = args[1] if len(args) > 1 else kw.get("default")
        check_hashable(e, st, k)
        if hashable(k) and k in o.entries:
            g, v = o.entries[k]
            return v if g is True else merge_val(g, v, d)
        r = d
        for x in o.others:
            c = T.mk_and(x.guard, eq_vals(e, st, x.key, k))
            if c is not False:
                r = x.value if c is True else merge_val(c, x.value, r)
        if not hashable(k):
            for kk, (g, v) in o.entries.items():
                c = T.mk_and(g, eq_vals(e, st, kk, k))
                if c is not False:
                    r = merge_val(c, v, r)
        return r
    if name == "pop":
        k = e.force(st, args[0])
        return dict_pop(e, st, ref, k, (args[1],) if len(args) > 1 else None)
    if name == "keys":
        it = as_iterable(e, st, ref)
        return VIter(it.items, None if not o.unordered and False else it.unordered) if it.unordered else VIter(
            it.items, False)
    if name == "values":
        return VIter([(g, v) for g, v in o.entries.values()] + [(x.guard, x.value) for x in o.others], o.unordered)
    if name == "items":
        return VIter([(g, (k, v)) for k, (g, v) in o.entries.items()]
                     + [(x.guard, (x.key, x.value)) for x in o.others], o.unordered)
    if name == "setdefault":
        k = e.force(st, args[0])
        d = args[1] if len(args) > 1 else None
        if hashable(k) and k in o.entries:
            g, v = o.entries[k]
            nv = v if g is True else merge_val(g, v, d)
        elif not o.others:
            nv = d
        else:
            raise Unsupported("setdefault")
        en = dict(o.entries)
        en[k] = (True, nv)
        st.set(ref, ODict(en, o.others, o.unordered, o.tag))
        return nv
    if name == "update":
        for a in args:
            dict_update(e, st, ref, a)
        for k, v in kw.items():
            setitem(e, st, ref, k, v)
        return None
    if name in ("copy", "__copy__"):
        return st.new(ODict(dict(o.entries), o.others, o.unordered))
    if name == "clear":
        st.set(ref, ODict({}, (), False, o.tag))
        return None
    if name == "__contains__":
        return mkbool(has_key(e, st, o, e.force(st, args[0])))
    if name == "__getitem__":
        return dict_get(e, st, ref, e.force(st, args[0]))
    if name == "__setitem__":
        return setitem(e, st, ref, args[0], args[1])
    if name == "__len__":
        return py_len(e, st, ref)
    if not hasattr(dict, name):
        raise e.exc(st, AttributeError, name)
    raise Unsupported("dict.%s" % name)


def to_oset(e, st, v):
    v = e.force(st, v)
    o = obj(st, v)
    if isinstance(o, OSet):
        return o
    if isinstance(v, range):
        return OSet({x: True for x in v})
    it = materialize(e, st, v)
    r = make_set(e, st, it)
    return st.get(r)


def set_method(e, st, ref, o, name, args, kw):
    if name == "add":
        set_add(e, st, ref, args[0])
        return None
    if name in ("remove", "discard"):
        k = e.force(st, args[0])
        if not hashable(k):
            raise Unsupported("remove of a symbolic element")
        g, sym = o.elems.get(k, False), []
        for h, x in o.sym:
            q = eq_vals(e, st, x, k)
            g = T.mk_or(g, T.mk_and(h, q))
            sym.append((T.mk_and(h, T.mk_not(q)), x))
        if name == "remove" and not e.branch(st, g):
            raise e.exc(st, KeyError, k)
        el = dict(o.elems)
        el.pop(k, None)
        st.set(ref, OSet(el, tuple(s for s in sym if s[0] is not False), o.frozen))
        return None
    if name == "update":
        for a in args:
            s = to_oset(e, st, a)
            r = set_op(e, st, "or", st.get(ref), s)
            st.set(ref, st.get(r))
        return None
    if name in ("intersection", "difference", "union", "symmetric_difference"):
        op = {"intersection": "and", "difference": "sub", "union": "or", "symmetric_difference": "xor"}[name]
        cur = o
        r = st.new(OSet(dict(o.elems), o.sym, o.frozen))
        for a in args:
            if isinstance(a, range) and op in ("and", "sub"):
                el, sym = {}, []
                for k, g in cur.elems.items():
                    if (k in a) == (op == "and"):
                        el[k] = g
                for g, v in cur.sym:
                    c = contains(e, st, a, v)
                    c = T.mk_and(g, c if op == "and" else T.mk_not(c))
                    if c is not False:
                        sym.append((c, v))
                r = st.new(OSet(el, sym, o.frozen))
            else:
                r = set_op(e, st, op, cur, to_oset(e, st, a))
            cur = st.get(r)
        return r
    if name in ("intersection_update", "difference_update"):
        r = set_method(e, st, ref, o, name[:-7], args, kw)
        st.set(ref, st.get(r))
        return None
    if name == "issubset":
        a = args[0]
        if isinstance(a, range):
            return mkbool(T.mk_and(
                [T.mk_implies(g, k in a) for k, g in o.elems.items()]
                + [T.mk_implies(g, contains(e, st, a, v)) for g, v in o.sym]))
        return mkbool(subset(e, st, o, to_oset(e, st, a)))
    if name == "issuperset" and isinstance(obj(st, e.force(st, args[0])), OChars):
        return chars_within(st, obj(st, e.force(st, args[0])), ref)
    if name == "issuperset" and isinstance(e.force(st, args[0]), SSeq) and char_set(st, ref) is not None:
        return chars_within(st, OChars(e.force(st, args[0])), ref)
    if name == "issuperset":
        return mkbool(subset(e, st, to_oset(e, st, args[0]), o))
    if name == "isdisjoint":
        r = set_op(e, st, "and", o, to_oset(e, st, args[0]))
        return mkbool(T.mk_not(truth(e, st, r)))
    if name == "copy":
        return st.new(OSet(dict(o.elems), o.sym, o.frozen))
    if name == "clear":
        st.set(ref, OSet({}))
        return None
    if name == "__contains__":
        return mkbool(set_has(e, st, o, e.force(st, args[0])))
    if not hasattr(set, name):
        raise e.exc(st, AttributeError, name)
    raise Unsupported("set.%s" % name)


def justify(e, st, o, py, name, args):
    """str/bytes ljust and rjust with a fill of one unit."""
    w = e.force(st, args[0])
    f = e.force(st, args[1]) if len(args) > 1 else (" " if py is str else b" ")
    c = f if is_strish(f) else content(st, f)
    if not is_intish(w) or c is None or is_strish(c) != (py is str):
        raise e.exc(st, TypeError, name)
    n = len_of(c)
    if not (n == 1 if isinstance(n, int) else e.branch(st, T.mk_eq(T.simp(n), z3.IntVal(1)))):
        raise e.exc(st, TypeError, "The fill character must be exactly one character long")
    L = len_of(o)
    d = T.simp(iterm(w) - (z3.IntVal(L) if isinstance(L, int) else L))
    kind = kind_of(o)
    if not (d.as_long() > 0 if z3.is_int_value(d) else e.branch(st, canon_cmp(d > 0))):
        return o
    if z3.is_int_value(d):
        if d.as_long() > 64:
            return None
        fill = mkseq(kind, *(pieces_of(c) * d.as_long()))
    else:
        k = int_alts(d) if z3.is_app_of(d, z3.Z3_OP_ITE) else None
        if e.branch(st, T.mk_eq(d, z3.IntVal(1))):
            fill = mkseq(kind, *pieces_of(c))
        elif k is not None and all(v <= 1 for _, v in k):
            raise Infeasible()
        else:
            fill = mkseq(kind, repeat_f(sterm(c), d))
            T.fact(fill.t, T.Len(fill.t) == d)
    ps = pieces_of(o) + pieces_of(fill) if name == "ljust" else pieces_of(fill) + pieces_of(o)
    return mkseq(kind, *ps)


def list_method(e, st, ref, o, name, args, kw):
    if isinstance(o, OLines):
        if name != "append":
            raise Unsupported("list.%s of lines" % name)
        st.set(ref, OLines(o.head, o.sep, o.items + (args[0],)))
        return None
    if name == "append":
        st.set(ref, OList(o.items + ((True, args[0]),), o.unordered))
        return None
    if name == "extend":
        v = materialize(e, st, args[0])
        st.set(ref, OList(o.items + v.items, o.unordered or v.unordered))
        return None
    if name == "insert" and isinstance(args[0], int) and args[0] == 0:
        st.set(ref, OList(((True, args[1]),) + o.items, o.unordered))
        return None
    if name == "copy":
        return st.new(OList(o.items, o.unordered))
    if name == "sort":
        r = py_sorted(e, st, [ref], kw)
        st.set(ref, st.get(r))
        return None
    if name == "reverse":
        st.set(ref, OList(tuple(reversed(o.items)), o.unordered))
        return None
    if name == "clear":
        st.set(ref, OList([]))
        return None
    if name == "pop" and all(g is True for g, _ in o.items) and not o.unordered:
        i = args[0] if args else -1
        if isinstance(i, int) and -len(o.items) <= i < len(o.items):
            its = list(o.items)
            v = its.pop(i)[1]
            st.set(ref, OList(its))
            return v
        if isinstance(i, int):
            raise e.exc(st, IndexError, "pop")
    if name == "pop" and not o.unordered and (not args or args[0] in (0, -1)):
        its = list(o.items)
        front = bool(args) and args[0] == 0
        skipped = []
        while its:
            g, v = its.pop(0) if front else its.pop()
            if e.branch(st, g):
                st.set(ref, OList(its))
                return v
        raise e.exc(st, IndexError, "pop from empty list")
    if not hasattr(list, name):
        raise e.exc(st, AttributeError, name)
    raise Unsupported("list.%s" % name)


def bytearray_method(e, st, ref, o, name, args, kw):
    if name == "extend":
        a = e.force(st, args[0])
        c = content(st, a)
        if c is None:
            raise Unsupported("bytearray.extend")
        st.set(ref, OBytearray(mkseq("bytes", *pieces_of(ba_seq(o)), *pieces_of(c))))
        return None
    if name == "append":
        b = tobits(e.force(st, args[0]))
        if b is None or any(x is not False for x in b[8:]):
            raise Unsupported("bytearray.append")
        b = list(b) + [False] * (8 - len(b))
        st.set(ref, OBytearray(mkseq("bytes", *pieces_of(ba_seq(o)), T.t_mkbytes([b]))))
        return None
    if name == "copy":
        return st.new(OBytearray(o.seq, o.cells))
    if name == "clear":
        st.set(ref, OBytearray(b""))
        return None
    if not hasattr(bytearray, name):
        raise e.exc(st, AttributeError, name)
    if not hasattr(bytes, name):
        raise Unsupported("bytearray.%s" % name)
    r = seq_method(e, st, ba_seq(o), name, [e.force(st, a) for a in args], kw)
    if is_bytesish(r):
        return st.new(OBytearray(r))
    return r


# ------------------------------------------------------------------ attributes


def get_attr(e, st, v, name):
    if isinstance(v, VModule):
        r = e.module_attr(st, v, name)
        if r is UNBOUND:
            raise e.exc(st, AttributeError, name)
        return r
    if isinstance(v, VOpaque):
        return VOpaque(v.name + "." + name)
    o = obj(st, v)
    if isinstance(o, OInst):
        if name in o.attrs:
            return o.attrs[name]
        if name == "args" and o.args is not None:
            return o.args
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            return st.new(ODict({k: (True, x) for k, x in o.attrs.items()}, tag="__dict__"))
        if name in ("__cause__", "__context__", "__traceback__"):
            return None
        if isinstance(o.cls, VClass):
            x, c = o.cls.lookup(name)
        else:
            x, c = (VTypeAttr(o.cls.py, name), o.cls) if hasattr(o.cls.py, name) else (None, None)
        if c is None:
            raise e.exc(st, AttributeError, name)
        if isinstance(x, VFunc):
            if x.kind == "property":
                return e.call(st, x, [v], {})
            if x.kind == "static":
                return x
            if x.kind == "class":
                return VBound(x, o.cls)
            return VBound(x, v)
        if isinstance(x, VTypeAttr):
            return VBound(x, v)
        return x
    if isinstance(v, VSuper):
        o = st.get(v.obj) if isinstance(v.obj, Ref) else None
        cls = o.cls if isinstance(o, OInst) else v.obj
        mro = cls.mro()
        k = mro.index(v.cls)
        for c in mro[k + 1:]:
            if isinstance(c, VClass):
                if name in c.ns:
                    return VBound(c.ns[name], v.obj)
            elif name in vars(c.py):
                return VBound(VTypeAttr(c.py, name), v.obj)
        raise e.exc(st, AttributeError, name)
    if isinstance(v, VClass):
        if name == "__name__" or name == "__qualname__":
            return v.name
        x, c = v.lookup(name)
        if c is None:
            if hasattr(type, name):
                return VTypeAttr(type, name)
            raise e.exc(st, AttributeError, name)
        if isinstance(x, VFunc) and x.kind == "class":
            return VBound(x, v)
        return x
    if isinstance(v, VType):
        if name in ("__name__", "__qualname__"):
            return v.py.__name__
        if not hasattr(v.py, name):
            raise e.exc(st, AttributeError, name)
        return VTypeAttr(v.py, name)
    if isinstance(v, VTypeAttr):
        if name == "__name__":
            return v.name
        raise Unsupported("attribute of a type attribute")
    if isinstance(v, VFunc):
        if name in ("__name__", "__qualname__"):
            return v.name.split(".")[-1]
        raise Unsupported("function attribute %s" % name)
    if name == "__class__":
        t = exact_type(e, st, v)
        if not isinstance(t, VUnknownType) or isinstance(v, VObj):
            return t
    if isinstance(v, VUnknownType):
        if name in ("__name__", "__qualname__"):
            return opaque_text()
        if name in ("__repr__", "__str__", "__format__"):  # no type known by name has the same
            return VTypeAttr(_unknown.setdefault(v.obj.name, type("unknown", (), {})), name)
        raise Unsupported("attribute of an unknown type")
    if isinstance(v, VObj):
        raise e.exc(st, AttributeError, name)
    t = pytype(e, st, v)
    if isinstance(t, VType):
        if not hasattr(t.py, name):
            raise e.exc(st, AttributeError, "'%s' object has no attribute '%s'" % (t.py.__name__, name))
        return VMeth(v, name)
    if isinstance(o, (OStream, OLines)) or isinstance(v, VIter):
        return VMeth(v, name)
    raise Unsupported("attribute %s of %r" % (name, v))


class VUnknownType:
    __slots__ = ("obj",)

    def __init__(self, o):
        self.obj = o


def call_type_attr(e, st, f, args, kw):
    """methods looked up on a built-in type: f.py.name(args)."""
    py, name = f.py, f.name
    if isinstance(py, type) and issubclass(py, BaseException):
        if name == "__init__":
            o = st.get(args[0])
            st.set(args[0], OInst(o.cls, o.attrs, tuple(args[1:])))
            return None
        if name == "__reduce__" or name == "__reduce_ex__":
            o = st.get(args[0])
            d = st.new(ODict({k: (True, x) for k, x in o.attrs.items()}))
            return (o.cls, o.args, d) if o.attrs else (o.cls, o.args)
        if name == "__str__":
            o = st.get(args[0])
            if len(o.args) == 1:
                return py_str(e, st, o.args[0])
            return "" if not o.args else opaque_text()
        if name == "with_traceback":
            return args[0]
    if py is object and name == "__init__":
        return None
    if py in (int,) and name == "from_bytes":
        return int_from_bytes(e, st, args, kw)
    if py in (bytes, bytearray) and name == "fromhex":
        r = fromhex(e, st, args[0])
        return r if py is bytes else st.new(OBytearray(r))
    if py is dict and name == "fromkeys":
        it = materialize(e, st, args[0])
        v = args[1] if len(args) > 1 else None
        en = {}
        for g, k in it.items:
            if not hashable(k):
                raise Unsupported("fromkeys")
            en[k] = (T.mk_or(en[k][0], g) if k in en else g, v)
        return st.new(ODict(en, (), it.unordered))
    if py is str and name == "maketrans":
        raise Unsupported("maketrans")
    if not args:
        raise e.exc(st, TypeError, "descriptor needs an argument")
    self = e.force(st, args[0])
    t = pytype(e, st, self)
    ok = t is not None and (t == VType(py) or (isinstance(t, VType) and issubclass(t.py, py)) or isinstance(t, VClass))
    if not ok:
        if py is object and name in ("__repr__", "__str__"):
            return opaque_text()
        raise e.exc(st, TypeError, "descriptor '%s' requires a '%s' object" % (name, py.__name__))
    if name in ("__repr__",):
        return py_repr(e, st, self)
    if name in ("__str__",):
        return py_str(e, st, self)
    return call_method(e, st, self, name, args[1:], kw)


# ------------------------------------------------------------------ constructors and functions


def call_type(e, st, f, args, kw):
    py = f.py
    if py is int:
        return to_int(e, st, args, kw)
    if py is str:
        if not args and not kw:
            return ""
        if len(args) > 1 or kw:
            c = content(st, e.force(st, args[0]))
            if c is None:
                raise e.exc(st, TypeError, "decoding to str")
            return codec_decode(e, st, c, args[1] if len(args) > 1 else kw.get("encoding", "utf-8"),
                                args[2] if len(args) > 2 else kw.get("errors", "strict"))
        return py_str(e, st, args[0])
    if py in (bytes, bytearray):
        r = make_bytes(e, st, py, args, kw)
        return r if py is bytes else st.new(OBytearray(r))
    if py is bool:
        if not args:
            return False
        return mkbool(e.truth(st, args[0]))
    if py in (list, tuple):
        if not args:
            return () if py is tuple else st.new(OList([]))
        if py is list and isinstance(e.force(st, args[0]), VGen):
            acc, flag = collect(e, st, e.force(st, args[0]))
            if flag[0]:
                st.set(acc, OList(st.get(acc).items, True))
            return acc
        it = materialize(e, st, args[0])
        if py is list:
            return st.new(OList(it.items, it.unordered))
        if any(g is not True for g, _ in it.items) or it.unordered:
            return VIter(it.items, it.unordered)
        return tuple(v for _, v in it.items)
    if py in (set, frozenset):
        if not args:
            return st.new(OSet({}, (), py is frozenset))
        x = e.force(st, args[0])
        if isinstance(x, SSeq) and x.kind == "str" and as_iterable(e, st, x) is x:
            return st.new(OChars(x))
        return make_set(e, st, materialize(e, st, args[0]), py is frozenset)
    if py is dict:
        r = st.new(ODict())
        if args:
            dict_update(e, st, r, args[0])
            o = obj(st, e.force(st, args[0]))
            if isinstance(o, ODict):
                d = st.get(r)
                st.set(r, ODict(d.entries, o.others, o.unordered))
        for k, v in kw.items():
            setitem(e, st, r, k, v)
        return r
    if py is range:
        a = [e.force(st, x) for x in args]
        if all(is_conc(x) for x in a):
            return pycall(e, st, range, *a)
        if len(a) == 1:
            a = [0, a[0]]
        if len(a) == 2:
            a = a + [1]
        if not all(is_intish(x) for x in a):
            raise e.exc(st, TypeError, "range")
        return VRange(*a)
    if py is type:
        return exact_type(e, st, e.force(st, args[0]))
    if py is enumerate:
        v = e.force(st, args[0])
        start = args[1] if len(args) > 1 else kw.get("start", 0)
        it = as_iterable(e, st, v)
        if isinstance(it, (VGen, VRange)) and e.loop_handler is not None and isinstance(start, int):
            return VEnum(it, start)
        if isinstance(it, VGen):
            it = materialize(e, st, v)
        if isinstance(it, VIter) and not it.unordered:
            if all(g is True for g, _ in it.items) and isinstance(start, int):
                return VIter([(True, (i + start, x)) for i, (_, x) in enumerate(it.items)])
        raise Unsupported("enumerate")
    if py is zip:
        its = []
        lim = None
        for a in args:
            it = as_iterable(e, st, e.force(st, a))
            if isinstance(it, VGen):
                it = materialize(e, st, a)
            if not isinstance(it, VIter) or it.unordered or any(g is not True for g, _ in it.items):
                raise Unsupported("zip")
            its.append([v for _, v in it.items])
        return VIter([(True, t) for t in zip(*its)])
    if py in (map, filter):
        it = materialize(e, st, args[1])
        if len(args) > 2:
            raise Unsupported("map of several iterables")
        acc = st.new(OList([]))

        def body(s, x):
            def go(s1):
                if py is map:
                    r = e.call(s1, args[0], [x], {})
                    o = s1.get(acc)
                    s1.set(acc, OList(o.items + ((True, r),)))
                else:
                    t = e.truth(s1, x if args[0] is None else e.call(s1, args[0], [x], {}))
                    if e.branch(s1, t):
                        o = s1.get(acc)
                        s1.set(acc, OList(o.items + ((True, x),)))

            return e.simple(s, go)

        e.call_outcomes(st, lambda s: e.join_next(e.iterate(s, VIter(it.items, False), body)))
        return VIter(st.get(acc).items, it.unordered)
    if py is reversed:
        it = as_iterable(e, st, e.force(st, args[0]))
        if isinstance(it, VIter):
            return VIter(tuple(reversed(it.items)), it.unordered)
        raise Unsupported("reversed")
    if py is float and all(is_conc(a) for a in args):
        return pycall(e, st, float, *args)
    if py is slice and all(is_conc(a) for a in args):
        return slice(*args)
    if py is object:
        return VObj("object!%d" % next(_opq))
    if issubclass(py, BaseException):
        return st.new(OInst(f, {}, tuple(args)))
    if py is memoryview:
        c = content(st, e.force(st, args[0]))
        if c is not None:
            raise Unsupported("memoryview")
    raise Unsupported("call of %s" % py.__name__)


def make_bytes(e, st, py, args, kw):
    if not args and not kw:
        return b""
    x = e.force(st, args[0]) if args else e.force(st, kw.get("source"))
    if is_strish(x):
        if len(args) > 1 or "encoding" in kw:
            return codec_encode(e, st, x, args[1] if len(args) > 1 else kw["encoding"],
                                args[2] if len(args) > 2 else kw.get("errors", "strict"))
        raise e.exc(st, TypeError, "string argument without an encoding")
    c = content(st, x)
    if len(args) > 1 or "encoding" in kw or "errors" in kw:
        raise e.exc(st, TypeError, "encoding without a string argument")
    if c is not None:
        return c
    if isinstance(x, int):
        return pycall(e, st, bytes, int(x))
    if isinstance(x, SInt):
        raise Unsupported("bytes(n)")
    if x is None or isinstance(x, (VObj,)):
        raise e.exc(st, TypeError, "cannot convert to bytes")
    it = materialize(e, st, x)
    if it.unordered or any(g is not True for g, _ in it.items):
        raise Unsupported("bytes of a guarded list")
    cells = []
    for _, v in it.items:
        v = e.force(st, v)
        if isinstance(v, SInt):
            raise Unsupported("bytes of symbolic integers")
        if not is_intish(v):
            raise e.exc(st, TypeError, "not an integer")
        if isinstance(v, int) and not 0 <= v <= 255:
            raise e.exc(st, ValueError, "bytes must be in range(0, 256)")
        b = tobits(v)
        if any(y is not False for y in b[8:]):
            if e.branch(st, T.mk_or(list(b[8:]))):
                raise e.exc(st, ValueError, "bytes must be in range(0, 256)")
            v = mkbits(b[:8])
        cells.append(v)
    return ba_seq(OBytearray(cells=cells))


def py_len(e, st, v):
    v = e.force(st, v)
    if is_seq(v):
        n = len_of(v)
        return n if isinstance(n, int) else mkint(n)
    if isinstance(v, (tuple, range)):
        return len(v)
    o = obj(st, v)
    if isinstance(o, OBytearray):
        return len(o.cells) if o.cells is not None else py_len(e, st, o.seq)
    gs = None
    if isinstance(o, OList):
        gs = [g for g, _ in o.items]
    elif isinstance(o, OSet):
        if o.sym:
            raise Unsupported("size of a set with symbolic elements")
        gs = list(o.elems.values())
    elif isinstance(o, ODict):
        if o.others:
            raise Unsupported("size of a dict with symbolic keys")
        gs = [g for g, _ in o.entries.values()]
    elif isinstance(v, VIter):
        gs = [g for g, _ in v.items]
    if isinstance(o, OList) and any(id(x) in e.star_ids for _, x in o.items):
        raise Unsupported("size of a list with any number of elements")
    if gs is not None:
        if all(isinstance(g, bool) for g in gs):
            return sum(gs)
        return mkint(z3.Sum([T.mk_ite(g, z3.IntVal(1), z3.IntVal(0)) for g in gs]))
    if isinstance(v, VObj):
        if e.branch(st, v.has_len):
            return SInt(v.length)
        raise e.exc(st, TypeError, "object has no len()")
    if v is None or is_intish(v) or isinstance(v, (VFunc, VClass, VType, VGen)) or isinstance(o, OInst):
        raise e.exc(st, TypeError, "object has no len()")
    raise Unsupported("len of %r" % (v,))


def b_isinstance(e, st, args, kw):
    v = e.force(st, args[0])
    ts = args[1] if isinstance(args[1], tuple) else (args[1],)
    flat = []
    for t in ts:
        flat += list(t) if isinstance(t, tuple) else [t]
    if isinstance(v, VObj):
        for t in flat:
            if isinstance(t, VType) and t.py is object:
                return True
        return False
    vt = pytype(e, st, v)
    for t in flat:
        if not isinstance(t, (VType, VClass)):
            if isinstance(t, VOpaque) and t.name.rsplit(".", 1)[-1] in ("Mapping", "MutableMapping"):
                if vt == VType(dict):
                    return True
                continue
            raise Unsupported("isinstance with %r" % (t,))
        if vt is None:
            raise Unsupported("type of %r" % (v,))
        if e.subclass(vt, t):
            return True
    return False


def py_sorted(e, st, args, kw):
    it = materialize(e, st, args[0])
    key = e.force(st, kw.get("key"))
    rev = kw.get("reverse", False)
    items = list(it.items)
    if all(g is not True and False for g, _ in items):
        pass
    if any(not hashable(v) and not isinstance(v, tuple) for _, v in items):
        if len(items) <= 1:
            return st.new(OList(items))
        # symbolic elements: the order is unknown
        return st.new(OList(items, True))
    keys = []
    for g, v in items:
        if key is None:
            keys.append(v)
        elif g is True or True:
            k = e.force(st, e.call(st, key, [v], {}))
            if not is_conc(k):
                raise Unsupported("symbolic sort key")
            keys.append(k)
    try:
        order = sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(rev))
    except TypeError as err:
        if all(g is True for g, _ in items):
            raise wrap_exc(e, st, err)
        raise Unsupported("sort of mixed types")
    if it.unordered and len(set(keys)) != len(keys):
        if key is None:
            pass
        else:
            raise Unsupported("sort with equal keys of an unordered collection")
    return st.new(OList([items[i] for i in order]))


def b_anyall(which):
    def f(e, st, args, kw):
        v = e.force(st, args[0])
        b = content(st, v)
        if isinstance(b, SSeq) and b.kind == "bytes":
            if which == "any":  # some byte is not zero
                return mkbool(T.mk_not(T.t_allin(b.t, "\0")))
            return mkbool(T.mk_not(_contains_f(b.t, T.sv("\0"))))
        if isinstance(v, SSeq):  # characters are true
            return True if which == "all" else mkbool(T.mk_not(T.mk_eq(b.t, T.sv(""))))
        m = unit_map(e, st, v)
        if m is not None and m[2] is None:
            return which == "all"
        if m is not None and isinstance(m[2], (bool, SBool)):
            p = bterm(m[2]) if isinstance(m[2], SBool) else m[2]
            r = all_units(sterm(m[0]), unit_term(m[1]), p if which == "all" else T.mk_not(p))
            if r is not None:
                return mkbool(r if which == "all" else T.mk_not(r))
        fid = -1 - next(_opq)

        def body(s, x):
            outs = []
            for o in e.run(s, lambda s1: e.branch(s1, e.truth(s1, x))):
                if o.kind == "raise":
                    outs.append(o)
                elif o.val == (which == "any"):
                    outs.append(Out("break", o.st))
                else:
                    outs.append(Out("next", o.st))
            return outs

        def thunk(s):
            it = as_iterable(e, s, v)
            if isinstance(it, VIter):
                it = VIter(it.items, False)
                if all(not isinstance(x, VUnion) for _, x in it.items):
                    ts = [(g, truth(e, s, x)) for g, x in it.items]
                    if which == "any":
                        r = T.mk_or([T.mk_and(g, t) for g, t in ts])
                    else:
                        r = T.mk_and([T.mk_implies(g, t) for g, t in ts])
                    return [Out("next", s, mkbool(r))]
            if isinstance(it, VGen) and it.genexp is not None:
                outs = e.iterate_comp(it.genexp[0], s, it.genexp[1], body, [False])
            else:
                outs = e.iterate(s, it, body)
            res, fin = [], []
            for o in outs:
                if o.kind == "raise":
                    res.append(o)
                else:
                    o.st.frames[fid] = {"r": (o.kind == "break") == (which == "any")}
                    fin.append(o.st)
            for m in merge_all(fin) if len(fin) > 1 else fin:
                r = m.frames.pop(fid)["r"]
                res.append(Out("next", m, r))
            return res

        return e.call_outcomes(st, thunk)

    return f


def b_minmax(which):
    def f(e, st, args, kw):
        vs = args
        if len(args) == 1:
            it = materialize(e, st, args[0])
            if any(g is not True for g, _ in it.items):
                if kw.get("key") is None and all(isinstance(v, int) and not isinstance(v, bool) for _, v in it.items):
                    return extreme(e, st, which, it.items, kw.get("default", UNBOUND))
                raise Unsupported(which)
            vs = [v for _, v in it.items]
            if not vs and "default" in kw:
                return kw["default"]
        vs = [e.force(st, v) for v in vs]
        key = kw.get("key")
        if all(is_conc(v) for v in vs) and key is None:
            return pycall(e, st, {"min": min, "max": max}[which], vs)
        if key is None and all(is_intish(v) for v in vs) and vs:
            r = vs[0]
            for v in vs[1:]:
                a, b = iterm(r), iterm(v)
                c = canon_cmp(b < a) if which == "min" else canon_cmp(b > a)
                r = mkint(T.mk_ite(c, b, a)) if not isinstance(c, bool) else (v if c else r)
            return r
        raise Unsupported(which)

    return f


def b_sum(e, st, args, kw):
    it = materialize(e, st, args[0])
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    r = start
    for g, v in it.items:
        v = e.force(st, v)
        if not is_intish(v):
            raise Unsupported("sum")
        x = v if g is True else mkint(T.mk_ite(g, iterm(v), z3.IntVal(0)))
        if g is not True and (isinstance(v, int) and v > 0 and v & (v - 1) == 0):
            x = mkbits([False] * (v.bit_length() - 1) + [g])
        r = binop(e, st, ast.Add(), r, x)
    return r


def b_getattr(e, st, args, kw):
    name = e.force(st, args[1])
    if not isinstance(name, str):
        raise Unsupported("getattr")
    if len(args) > 2:
        outs = e.run(st, lambda s: e.getattr(s, args[0], name))
        if len(outs) == 1 and outs[0].kind == "raise":
            return args[2]
        if len(outs) == 1:
            st.become(outs[0].st)
            return outs[0].val
        raise Unsupported("getattr with several outcomes")
    return e.getattr(st, args[0], name)


def b_hasattr(e, st, args, kw):
    v = e.force(st, args[0])
    if isinstance(v, VObj):
        return mkbool(False)
    outs = e.run(st, lambda s: e.getattr(s, v, args[1]))
    return len(outs) == 1 and outs[0].kind == "next"


def b_divmod(e, st, args, kw):
    a, b = e.force(st, args[0]), e.force(st, args[1])
    return (binop(e, st, ast.FloorDiv(), a, b), binop(e, st, ast.Mod(), a, b))


def b_next(e, st, args, kw):
    v = e.force(st, args[0])
    it = as_iterable(e, st, v)
    if isinstance(it, VGen):
        it = materialize(e, st, v)  # consumed once: only meaningful for one-shot generators
        if isinstance(v, VGen) and v.genexp is None:
            raise Unsupported("next of a generator function")
    if isinstance(it, VIter) and not it.unordered:
        for g, x in it.items:
            if e.branch(st, g):
                return x
        if len(args) > 1:
            return args[1]
        raise e.exc(st, StopIteration)
    raise Unsupported("next")


def make_builtins(e):
    B = {}

    def reg(name, fn):
        B[name] = VBuiltin(name, fn)

    reg("len", lambda e, st, a, k: py_len(e, st, a[0]))
    reg("isinstance", b_isinstance)
    reg("repr", lambda e, st, a, k: py_repr(e, st, a[0]))
    reg("sorted", py_sorted)
    reg("any", b_anyall("any"))
    reg("all", b_anyall("all"))
    reg("min", b_minmax("min"))
    reg("max", b_minmax("max"))
    reg("sum", b_sum)
    reg("getattr", b_getattr)
    reg("hasattr", b_hasattr)
    reg("divmod", b_divmod)
    reg("next", b_next)
    reg("iter", lambda e, st, a, k: _iter(e, st, a))
    reg("abs", lambda e, st, a, k: _abs(e, st, a[0]))
    reg("format", lambda e, st, a, k: format_value(e, st, a[0], a[1] if len(a) > 1 else ""))
    reg("chr", lambda e, st, a, k: _conc1(e, st, chr, a))
    reg("ord", lambda e, st, a, k: _conc1(e, st, ord, a))
    reg("hex", lambda e, st, a, k: _conc1(e, st, hex, a))
    reg("bin", lambda e, st, a, k: _conc1(e, st, bin, a))
    reg("callable", lambda e, st, a, k: isinstance(
        a[0], (VFunc, VBound, VMeth, VBuiltin, VType, VClass, VTypeAttr)))
    reg("issubclass", lambda e, st, a, k: any(
        e.subclass(a[0], t) for t in (a[1] if isinstance(a[1], tuple) else (a[1],))))
    for d, kind in (("property", "property"), ("staticmethod", "static"), ("classmethod", "class")):
        B[d] = VBuiltin(d, lambda e, st, a, k, kind=kind: _kind(a[0], kind))
    return B


def _kind(f, kind):
    if not isinstance(f, VFunc):
        raise Unsupported("decorator")
    f.kind = kind
    return f


def _iter(e, st, a):
    it = as_iterable(e, st, e.force(st, a[0]))
    if isinstance(it, (VIter, VGen)):
        return it
    raise Unsupported("iter")


def _abs(e, st, v):
    v = e.force(st, v)
    if is_conc(v):
        return pycall(e, st, abs, v)
    t = iterm(v)
    return mkint(T.mk_ite(canon_cmp(t >= 0), t, -t))


def _conc1(e, st, f, a):
    v = e.force(st, a[0])
    if is_conc(v):
        return pycall(e, st, f, v)
    if f is bin and tobits(v) is not None:
        return mkseq("str", T.sv("0b"), bin_text(tobits(v)))
    if f is ord and is_seq(v) and kind_of(v) == "bytes":
        return byte_of(v)
    raise Unsupported(f.__name__)


def decorate(e, st, d, f):
    if isinstance(d, VBuiltin) and d.name in ("property", "staticmethod", "classmethod", "contextmanager"):
        return e.call(st, d, [f], {})
    if isinstance(d, VOpaque) and d.name.startswith("typing."):
        return f
    if isinstance(d, VBuiltin) and d.name in ("wraps",):
        return f
    raise Unsupported("decorator")


def stdlib_module(e, name):
    if name in ("typing", "typing_extensions", "__future__", "collections.abc", "types", "collections"):
        return VModule(name, {})
    if name == "binascii":
        m = {}

        def reg(n, f):
            m[n] = VBuiltin("binascii." + n, f)

        reg("a2b_hex", lambda e, st, a, k: unhexlify(e, st, a[0]))
        reg("unhexlify", lambda e, st, a, k: unhexlify(e, st, a[0]))

        def hexlify(e, st, a, k):
            c = content(st, e.force(st, a[0]))
            if c is None or len(a) > 1:
                raise Unsupported("hexlify")
            return mkseq("bytes", T.t_hexl(sterm(c)))

        reg("b2a_hex", hexlify)
        reg("hexlify", hexlify)
        m["Error"] = VType(binascii.Error)
        m["Incomplete"] = VType(binascii.Incomplete)
        return VModule(name, m)
    if name == "sys":
        return VModule(name, {"stdout": VOpaque("sys.stdout"), "maxsize": 2 ** 63 - 1, "version_info": (3, 12, 3)})
    if name == "itertools":
        def chain(e, st, a, k):
            items = []
            uo = False
            for x in a:
                it = materialize(e, st, x)
                items += list(it.items)
                uo = uo or (it.unordered and len(it.items) > 1)
            return VIter(items, uo)

        return VModule(name, {"chain": VBuiltin("chain", chain)})
    if name == "contextlib":
        return VModule(name, {"suppress": VBuiltin("suppress", lambda e, st, a, k: ("suppress",) + tuple(a))})
    if name == "math":
        def ceil(e, st, a, k):
            raise Unsupported("math.ceil")

        return VModule(name, {"ceil": VBuiltin("ceil", ceil)})
    if name == "operator":
        return VModule(name, {})
    if name == "codecs":
        return VModule(name, {
            "decode": VBuiltin("codecs.decode", lambda e, st, a, k: _no("codecs.decode")),
            "encode": VBuiltin("codecs.encode", lambda e, st, a, k: _no("codecs.encode")),
        })
    return None
