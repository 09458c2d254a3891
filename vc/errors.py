"""C15: the exceptions of the package survive pickling and copying.

The copy protocol of CPython (pickle._reconstruct / copy._reconstruct over __reduce_ex__, __reduce__,
__setstate__, __copy__, __deepcopy__) is a trusted model here; the class bodies are the real ones.
"""
import z3

from pyvc import terms as T
from pyvc.engine import Engine
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import Other, Unsupported

from .core import val_eq2
from .world import S, World, bytes_val, describe, str_val

CLASSES = {
    "DecodeError": ("decoder", ("msg", "s", "doc_dec", "doc_enc", "pos", "field")),
    "EncodeError": ("encoder", ("msg", "doc_dec", "doc_enc", "field")),
}
SPECIAL = ("__copy__", "__deepcopy__", "__reduce_ex__", "__setstate__", "__getattr__", "__getattribute__",
           "__getnewargs__", "__getnewargs_ex__", "__slots__", "__eq__", "__hash__", "__new__", "__class_getitem__",
           "__init_subclass__", "__del__", "__str__", "__repr__")


def some_dict(st, name, nested):
    """an arbitrary dictionary: any number of entries with keys and values nobody looks at."""
    if nested:
        v = st.new(ODict({"len": (True, bytes_val(name + ".len")), "data": (True, bytes_val(name + ".data"))}))
    else:
        v = str_val(name + ".value")
    return st.new(ODict({"2": (z3.Bool(name + ".has2"), v)}, (Other(z3.Bool(name + ".more"), str_val(name + ".key"), str_val(name + ".other"), True),), tag=name))


def arguments(st, names, s_kind):
    out = []
    for n in names:
        if n in ("doc_dec", "doc_enc"):
            out.append(some_dict(st, n, n == "doc_enc"))
        elif n == "pos":
            out.append(SInt(z3.Int("pos")))
        elif n == "s":
            v = bytes_val("s")
            out.append(v if s_kind == "bytes" else st.new(OBytearray(v)))
        else:
            out.append(str_val(n))
    return out


def deep(st, v, memo):
    """what pickle or deepcopy makes of a value: equal, with fresh mutable objects."""
    if isinstance(v, Ref):
        if v.id in memo:
            return memo[v.id]
        o = st.get(v)
        r = memo[v.id] = st.new(o)
        if isinstance(o, ODict):
            st.set(r, ODict({k: (g, deep(st, x, memo)) for k, (g, x) in o.entries.items()},
                            [Other(x.guard, x.key, deep(st, x.value, memo), x.star) for x in o.others], o.unordered, o.tag))
        elif isinstance(o, OList):
            st.set(r, OList([(g, deep(st, x, memo)) for g, x in o.items], o.unordered))
        elif not isinstance(o, OBytearray):
            raise Unsupported("copy of %r" % (o,))
        return r
    if isinstance(v, tuple):
        return tuple(deep(st, x, memo) for x in v)
    if isinstance(v, VUnion):
        return VUnion([(g, deep(st, x, memo)) for g, x in v.alts])
    return v


def methods(cls):
    out = {}
    for n in SPECIAL + ("__reduce__", "__getstate__"):
        v, c = cls.lookup(n)
        if isinstance(c, VClass):
            out[n] = v
    return out


def reduced(e, st, x, own, protocol):
    """the value of x.__reduce_ex__(protocol)."""
    if "__reduce_ex__" in own:
        return e.call_method(st, x, "__reduce_ex__", [protocol], {})
    return e.call_method(st, x, "__reduce__", [], {})


def reconstruct(e, st, rv, is_deep, world):
    rv = e.force(st, rv)
    if not isinstance(rv, tuple) or not 2 <= len(rv) <= 6 or any(v is not None for v in rv[3:]):
        raise Unsupported("__reduce__ returned %r" % (rv,))
    if is_deep:
        memo = {}
        rv = (rv[0],) + tuple(deep(st, v, memo) for v in rv[1:])
    f = e.force(st, rv[0])
    if isinstance(f, VFunc) and (f.closure or "<" in f.name):
        raise Unsupported("__reduce__ returned a local function")
    if not isinstance(f, (VFunc, VClass)) or not isinstance(rv[1], tuple):
        raise Unsupported("__reduce__ returned %r" % (rv,))
    # pickle stores functions and classes by name
    m = world.e.modules.get(f.module)
    if m is None or st.frames[m.fid].get(f.name) is not f:
        raise Unsupported("%s is not reachable under its name" % f.name)
    y = e.call(st, f, list(rv[1]), {})
    if len(rv) > 2 and rv[2] is not None:
        o = st.get(y)
        if not isinstance(o, OInst):
            raise Unsupported("state of %r" % (o,))
        v, c = o.cls.lookup("__setstate__")
        if isinstance(c, VClass):
            e.call_method(st, y, "__setstate__", [rv[2]], {})
        else:
            d = st.get(rv[2]) if isinstance(rv[2], Ref) else None
            if not isinstance(d, ODict) or d.others or any(g is not True or not isinstance(k, str) for k, (g, _) in d.entries.items()):
                raise Unsupported("state %r" % (rv[2],))
            for k, (_, x) in d.entries.items():
                e.setattr(st, y, k, x)
    return y


def text_of(e, st, x):
    from pyvc import models as M
    return M.py_str(e, st, x)


def check_instance(ck, name, o, x, cls, names, vals, st0):
    """attributes and args of a new instance are what it was made of."""
    st = o.st
    i = st.get(x)
    ck.oblige(name + ":class", st.pc, isinstance(i, OInst) and i.cls is cls)
    for n, v in zip(names, vals):
        ck.oblige("%s:attribute:%s" % (name, n), st.pc, n in i.attrs and (
            (isinstance(v, Ref) and isinstance(i.attrs[n], Ref) and i.attrs[n].id == v.id) or val_eq2(st, i.attrs[n], st0, v)))


def exceptions(prop, ck, cname, s_kind):
    mod, names = CLASSES[cname]
    w = World(merge=False)
    e = w.e
    cls = w.cls("iso8583." + mod, cname)
    tag = "exceptions:%s:%s:%s" % (prop, cname, s_kind)
    if not isinstance(cls, VClass):
        raise Unsupported("%s is no class" % cname)
    ck.oblige(tag + ":is-ValueError", [], any(isinstance(c, VType) and c.py is ValueError for c in cls.mro()))
    m = e.modules["iso8583." + mod]
    for n in ("__module__", "__qualname__", "__name__", "__getattribute__", "__class__"):
        if n in cls.ns and not (isinstance(cls.ns[n], str) and cls.ns[n] == (cls.name if "name__" in n else m.name)):
            raise Unsupported("class attribute " + n)
    ck.oblige(tag + ":reachable-by-name", [], w.base.frames[m.fid].get(cname) is cls and cls.name == cname)
    own = methods(cls)
    for n in own:
        if n in ("__getattr__", "__getattribute__", "__slots__", "__new__", "__init_subclass__", "__del__"):
            raise Unsupported(n)
    st = w.state()
    # a subclass that adds nothing behaves like its base
    sub = VClass(cname + "Sub", [cls], {}, m.name)
    st.frames[m.fid] = dict(st.frames[m.fid])
    st.frames[m.fid][sub.name] = sub
    for c in (cls, sub):
        instances(ck, w, st, c, names, s_kind, own, "%s:%s" % (tag, c.name))
    ck.functions |= e.trace_funcs


def instances(ck, w, st, cls, names, s_kind, own, tag):
    st = st.clone()
    vals = arguments(st, names, s_kind)
    st0 = st.clone()
    made = w.run(st, cls, vals)
    ck.oblige(tag + ":has-outcome", st.pc, bool(made))
    for i, o in enumerate(made):
        t = "%s:new%d" % (tag, i)
        ck.oblige(t + ":constructed", o.st.pc, o.kind == "next", lambda: describe(o))
        if o.kind != "next":
            continue
        x = o.val
        check_instance(ck, t, o, x, cls, names, vals, st0)
        for how in ("copy", "deepcopy", "pickle"):
            copies(ck, "%s:%s" % (t, how), w, o.st, x, own, how)


def copies(ck, tag, w, st, x, own, how, generation=1):
    e = w.e

    def go(s):
        special = {"copy": "__copy__", "deepcopy": "__deepcopy__"}.get(how)
        if special in own:
            args = [s.new(ODict())] if how == "deepcopy" else []
            return e.call_method(s, x, special, args, {})
        p = SInt(z3.Int("protocol"))
        s.assume(p.t >= 0)
        s.assume(p.t <= 5)
        if how != "pickle":
            p = 4
        return reconstruct(e, s, reduced(e, s, x, own, p), how != "copy", w)

    outs = e.run(st, go)
    ck.oblige(tag + ":has-outcome", st.pc, bool(outs))
    for j, o in enumerate(outs):
        t = "%s:path%d" % (tag, j)
        ck.oblige(t + ":no-exception", o.st.pc, o.kind == "next", lambda: describe(o))
        if o.kind != "next":
            continue
        y = o.val
        a = o.st.get(x)
        b = o.st.get(y) if isinstance(y, Ref) else None
        ck.oblige(t + ":class", o.st.pc, isinstance(b, OInst) and b.cls is a.cls)
        if not isinstance(b, OInst):
            continue
        ck.oblige(t + ":same-attributes", o.st.pc, set(a.attrs) == set(b.attrs))
        for k in a.attrs:
            if k in b.attrs:
                ck.oblige("%s:attribute:%s" % (t, k), o.st.pc, val_eq2(o.st, a.attrs[k], o.st, b.attrs[k]))
        ck.oblige(t + ":args", o.st.pc, val_eq2(o.st, a.args, o.st, b.args))
        # the original is left alone
        a0 = st.get(x)
        ck.oblige(t + ":original", o.st.pc, [a0.cls is a.cls, set(a0.attrs) == set(a.attrs), val_eq2(st, a0.args, o.st, a.args)]
                  + [val_eq2(st, a0.attrs[k], o.st, a.attrs[k]) for k in a0.attrs if k in a.attrs])
        if how != "copy":
            for k in a.attrs:
                if isinstance(a.attrs[k], Ref) and k in b.attrs:
                    ck.oblige("%s:not-shared:%s" % (t, k), o.st.pc, not isinstance(b.attrs[k], Ref) or b.attrs[k].id != a.attrs[k].id)
        # text, by the (possibly overridden) __str__
        for ta in e.run(o.st, lambda s: (text_of(e, s, x), text_of(e, s, y))):
            ck.oblige(t + ":text", ta.st.pc, ta.kind == "next" and val_eq2(ta.st, ta.val[0], ta.st, ta.val[1]))
        if generation == 1:
            copies(ck, tag + ":again", w, o.st, y, own, how, 2)
