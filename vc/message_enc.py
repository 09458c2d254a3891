"""encode of /repo for every document and every well-formed specification; _encode_field by contract."""
import z3

from pyvc import models as M
from pyvc import solver
from pyvc import terms as T
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import Other, Out, Unsupported

from .core import dict_entries, seq_eq
from .field import DEC, ENC, ENC_ROLES, roles_of, text_of_error, unmodified
from .message import FIELDS, ORDER, Call, globals_unchanged, is_z3, make_spec, part
from .world import KEYS, S, World, bytes_val, describe, raised, str_val

z = z3.IntVal


def odd_value(st, kind, name):
    """a value of another type than the documented one."""
    if kind == "list":
        return st.new(OList([(True, bytes_val(name + "0"))]))
    if kind == "dict":
        return st.new(ODict({"a": (True, str_val(name + "0"))}))
    if kind == "bytearray":
        return st.new(OBytearray(bytes_val(name)))
    return {"bytes": bytes_val(name), "object": VObj(name), "none": None, "int": SInt(z3.Int(name)),
            "str": str_val(name)}[kind]


def wrong_argument(prop, ck, side):
    """C11/C12: a first argument of the wrong type raises TypeError, nothing else happens."""
    for kind in ("none", "int", "list", "object") + (("str", "dict") if side == "decode" else
                                                     ("str", "bytes", "bytearray")):
        w = World(merge=True, lazy=True, deadline=ck.deadline)
        st = w.state()
        _, _, spec = make_spec(w, st)
        arg = odd_value(st, kind, "arg")
        for i, o in enumerate(w.run(st.clone(), w.fn(DEC if side == "decode" else ENC, side), [arg, spec])):
            n = "%s:%s:wrong-argument:%s:path%d" % (side, prop, kind, i)
            good = o.kind == "raise" and raised(o)[0] == VType(TypeError)
            ck.oblige(n, o.st.pc, good, lambda: describe(o))
            ck.oblige(n + ":unmodified", o.st.pc, all(osame(st.heap[r], o.st.heap[r]) for r in st.heap))
        ck.functions |= w.e.trace_funcs


class EncodeMessage:
    """other: what further keys the document may have ("text", "numeric", "object")."""

    def __init__(self, other="text", tkind="str", deadline=None, groups=(), reordered=True):
        solver.GROUPS = groups or (("smalldec",) if other == "numeric" else ())
        self.w = World(merge=True, lazy=True, deadline=deadline)
        w = self.w
        w.e.prune = other == "numeric"
        st = w.state()
        self.other = other
        self.ents, self.defd, self.spec = make_spec(w, st)
        st.get(self.spec).unordered = True
        self.has = {k: z3.Bool("has!" + k) for k in KEYS}
        self.val = {k: str_val("v!" + k) for k in KEYS}
        self.tkind = tkind
        if tkind != "str":
            self.val["t"] = odd_value(st, tkind, "v!t")
        self.hasother = other != "text"
        self.starkey, self.starval = str_val("textkey"), str_val("v!text")
        w.e.star_ids[id(self.starkey)] = self.starkey
        st.assume(T.mk_not(T.t_pred("isnumeric", self.starkey.t)))
        for c in ("h", "t", "p"):
            st.assume(T.mk_not(T.mk_eq(self.starkey.t, T.sv(c))))
        # any number of keys that are text but not numeric
        others = [Other(z3.Bool("has!text"), self.starkey, self.starval, True)]
        if other != "text":  # and a bad one
            self.okey = VObj("otherkey") if other == "object" else str_val("otherkey")
            self.oval = str_val("v!other")
            if other == "numeric":
                st.assume(T.t_pred("isnumeric", self.okey.t))
                for c in KEYS:
                    st.assume(T.mk_not(T.mk_eq(self.okey.t, T.sv(c))))
                st.assume(T.mk_not(T.mk_eq(self.okey.t, self.starkey.t)))
            others.insert(0, Other(self.hasother, self.okey, self.oval, False))
        en = {k: (self.has[k], self.val[k]) for k in KEYS}
        self.doc = w.argument(st.new(ODict(en, others, unordered=True, tag="doc")))
        self.calls = []
        self.field_fn = w.fn(ENC, "_encode_field")
        self.roles = roles_of(self.field_fn, ENC_ROLES)
        self.err = w.cls(ENC, "EncodeError")
        w.e.contracts[ENC + ":_encode_field"] = self.contract
        self.ex = Expected(self)
        self.st0 = st
        self.f = w.fn(ENC, "encode")
        self.outs = w.run(st.clone(), self.f, [self.doc, self.spec])

    ok = staticmethod(lambda k: z3.Bool("EF_ok!" + k))
    L = staticmethod(lambda k: S("EF_L!" + k))
    D = staticmethod(lambda k: S("EF_D!" + k))

    def contract(self, e, st, f, b):
        a = {self.roles[n]: e.force(st, v) for n, v in b.items()}
        key = M.conc_key(e, st, a["key"])
        if not isinstance(key, str) or key not in KEYS:
            raise Unsupported("field key %r" % (key,))

        def thunk(st):
            d = st.get(a["dec"]).entries.get(key) if isinstance(a["dec"], Ref) else None
            self.calls.append(Call(key, st.pc, entry=a["entry"], dec=a["dec"], enc=a["enc"], slot=d))
            s1 = st.clone()
            s1.assume(self.ok(key))
            L, D = SSeq("bytes", [self.L(key)]), SSeq("bytes", [self.D(key)])
            e.setitem(s1, a["enc"], key, s1.new(ODict({"len": (True, L), "data": (True, D)})))
            s2 = st.clone()
            s2.assume(T.mk_not(self.ok(key)))
            e.setitem(s2, a["enc"], key, s2.new(ODict({"len": (True, SSeq("bytes", [S("EF_eL!" + key)])),
                                                       "data": (True, SSeq("bytes", [S("EF_eD!" + key)]))})))
            msg = str_val("EF_msg!" + key)
            x = s2.new(OInst(self.err, {"msg": msg, "doc_dec": a["dec"], "doc_enc": a["enc"], "field": key},
                             (text_of_error(msg, key),)))
            return [Out("next", s1, mkseq("bytes", self.L(key), self.D(key))), Out("raise", s2, x)]

        return e.call_outcomes(st, thunk)


class Expected:
    """What encode must produce, from the document and the specification alone."""

    def __init__(self, em):
        has, ents = em.has, em.ents
        b = T.sv("b")
        self.flag, self.fails, self.bits = {}, [], {}
        hdr = T.mk_not(M.canon_cmp(ents["h"].max_len <= z(0)))
        self.flag["h"] = hdr
        self.fails.append(("h", T.mk_and(hdr, T.mk_not(has["h"])), False))
        self.fails.append(("h", T.mk_and(hdr, has["h"], T.mk_not(em.ok("h"))), True))
        # message type
        self.flag["t"] = True
        t, en = (em.val["t"].t if em.tkind == "str" else S("v!t")), ents["t"].data_enc
        isb = T.mk_eq(en, b)
        self.fails.append(("t", T.mk_not(has["t"]), False))
        img_ok = T.mk_and(T.mk_implies(isb, T.t_unhex_ok(t)),
                          T.mk_implies(T.mk_not(isb), T.mk_and(T.t_known(en), T.t_enc_ok(en, t))))
        self.tdata = T.mk_ite(isb, T.t_unhex(t), T.t_enc(en, t))
        size = T.mk_ite(isb, z(2), z(4))
        self.fails.append(("t", T.mk_and(has["t"], T.mk_not(T.mk_and(img_ok, T.mk_eq(T.Len(self.tdata), size)))), True))
        # keys
        self.badkeys = T.mk_and(em.hasother, T.tb(em.other != "text"))
        self.fails.append(("p", self.badkeys, False))
        # bitmaps
        self.third = T.mk_or([has[str(i)] for i in range(129, 193)])
        self.second = T.mk_or([has[str(i)] for i in range(66, 193)])
        if getattr(em, "case", None) is not None:  # a case of a proof: which bitmaps there are
            self.second, self.third = em.case
        p = [self.second] + [has[str(i)] for i in range(2, 65)]
        q = [self.third] + [has[str(i)] for i in range(66, 129)]
        r = [has[str(i)] for i in range(129, 193)]
        self.raw = {"p": self.image(p), "1": self.image(q), "65": self.image(r)}
        self.hex = {k: T.t_upper(T.t_hexl(v)) for k, v in self.raw.items()}
        self.data = {}
        for k, entry, cond in (("p", "p", True), ("1", "1", self.second), ("65", "1", self.third)):
            en = ents[entry].data_enc
            isb = T.mk_eq(en, b)
            h = self.hex[k]
            self.data[k] = T.mk_ite(isb, self.raw[k], T.t_enc(en, h))
            self.fails.append((entry, T.mk_and(cond, T.mk_not(isb), T.mk_not(T.mk_and(
                T.t_known(en), T.t_enc_ok(en, h)))), True))
        self.flag["p"], self.flag["1"] = True, self.second
        for k in FIELDS:
            self.flag[k] = has[k]
            self.fails.append((k, T.mk_and(has[k], T.mk_not(em.defd[k])), False))
            self.fails.append((k, T.mk_and(has[k], em.defd[k], T.mk_not(em.ok(k))), True))

    @staticmethod
    def image(bits):
        """the eight bytes with these bits, left to right."""
        return T.t_mkbytes([[bits[8 * j + 7 - k] for k in range(8)] for j in range(8)])


def encode_message(prop, ck, em):
    """obligations of one property over all outcomes of encode."""
    w, ex = em.w, em.ex
    ck.functions |= w.e.trace_funcs
    if em.other == "text" and em.tkind == "str" and not any(o.kind == "next" for o in em.outs):
        ck.fail("encode:reachable", "no successful path: the contract would hold vacuously")
    tag = "encode:%s:%s" % (prop, em.other if em.tkind == "str" else "type-is-" + em.tkind)
    if em.tkind != "str" and prop not in ("C12", "C16", "C17"):
        raise Unsupported("type of another kind")
    if prop in ("C03", "C07", "C10", "C14"):
        encode_calls(ck, tag, em)
    for i, o in enumerate(em.outs):
        n = "%s:path%d" % (tag, i)
        ok = o.kind == "next"
        if ok:
            res = returned(em, o)
            if res is None:
                ck.oblige(n + ":returns-bytearray-and-dictionary", o.st.pc, False, lambda: describe(o))
                continue
        if prop == "C12":
            if ok:
                ck.oblige(n + ":keys-are-canonical", o.st.pc, T.mk_not(ex.badkeys))
            else:
                c = raised(o)[0]
                ck.oblige(n + ":raises-EncodeError", o.st.pc, w.e.subclass(c, em.err), lambda: describe(o))
        elif prop == "accepts":
            if ok:
                ck.oblige_each(o.st.pc, [("%s:accepted:%s:%d" % (n, q[0], j), T.mk_not(q[1])) for j, q in enumerate(ex.fails)])
        elif prop == "C16":
            encode_frame(ck, n, em, o, res if ok else None)
        elif prop == "C17":
            ck.oblige(n + ":no-global-state", o.st.pc, globals_unchanged(em, o.st))
        elif prop == "C14":
            if ok:
                ck.oblige(n + ":accepted", o.st.pc, True)
            else:
                encode_failure(ck, n, em, o)
        elif ok and prop == "C03":
            encode_parts(ck, n, em, o, res)
        elif ok and prop == "C05":
            encode_bitmaps(ck, n, em, o, res)
        elif ok and prop == "C07":
            p = part(o.st, res[1], "t")
            isb = T.mk_eq(em.ents["t"].data_enc, T.sv("b"))
            ck.oblige(n + ":type-size", o.st.pc, p is not None and T.mk_and(seq_eq(p[0], b""), T.mk_eq(
                T.Len(sterm(p[1])), T.mk_ite(isb, z(2), z(4)))))
            field_parts_kept(ck, n, em, o, res)
        elif not ok and prop == "C07":
            c, x = raised(o)
            if x.attrs.get("field") == "t":
                ck.oblige(n + ":only-bad-types-rejected", o.st.pc, T.mk_or([q[1] for q in ex.fails if q[0] == "t"]),
                          lambda: describe(o))
        elif ok and prop == "C10":
            p = part(o.st, res[1], "t")
            t, en = em.val["t"].t, em.ents["t"].data_enc
            isb = T.mk_eq(en, T.sv("b"))
            ck.oblige(n + ":type-image", o.st.pc, p is not None and T.mk_and(
                T.mk_implies(isb, T.mk_and(T.t_unhex_ok(t), T.mk_eq(sterm(p[1]), T.t_unhex(t)))),
                T.mk_implies(T.mk_not(isb), T.mk_and(T.t_known(en), T.t_enc_ok(en, t),
                                                     T.mk_eq(sterm(p[1]), T.t_enc(en, t))))))
            field_parts_kept(ck, n, em, o, res)


def returned(em, o):
    v = o.val
    if not isinstance(v, tuple) or len(v) != 2 or not all(isinstance(x, Ref) for x in v):
        return None
    s, d = o.st.get(v[0]), o.st.get(v[1])
    if not isinstance(s, OBytearray) or not isinstance(d, ODict):
        return None
    return s, d


def encode_calls(ck, tag, em):
    """every call of _encode_field: the right entry, and the document's value in place."""
    for c in em.calls:
        n = "%s:call-of-_encode_field:%s" % (tag, c.key)
        ck.oblige(n + ":entry", c.pc, isinstance(c.entry, Ref) and c.entry.id == em.ents[c.key].ref.id)
        ck.oblige(n + ":document", c.pc, isinstance(c.dec, Ref) and c.dec.id == em.doc.id)
        v = c.slot
        good = v is not None and same(v[1], em.val[c.key])
        ck.oblige(n + ":value", c.pc, good)
        if good:
            ck.oblige_each(c.pc, [(n + ":present", T.tb(v[0]))])


def field_parts_kept(ck, n, em, o, res):
    """the parts of every field are those its contract gives."""
    goals = []
    for k in ["h"] + FIELDS:
        g = res[1].entries.get(k, (False, None))[0]
        if g is False:
            goals.append(("%s:parts:%s" % (n, k), T.mk_not(em.ex.flag[k])))
            continue
        p = part(o.st, res[1], k)
        goals.append(("%s:parts:%s" % (n, k), p is not None and T.mk_implies(g, T.mk_and(
            T.mk_eq(sterm(p[0]), em.L(k)), T.mk_eq(sterm(p[1]), em.D(k))))))
    ck.oblige_each(o.st.pc, goals)


def encode_parts(ck, n, em, o, res):
    """C03: the bytes are the parts in order; the dictionary has exactly the emitted elements."""
    ex, pc = em.ex, o.st.pc
    s, d = res
    ck.oblige(n + ":no-other-keys", pc, not d.others and set(d.entries) <= set(KEYS))
    goals = []
    want = []  # (guard, term), as listed in the dictionary
    for k in ORDER:
        g = d.entries.get(k, (False, None))[0]
        goals.append(("%s:listed:%s" % (n, k), T.beq(g, ex.flag.get(k, False))))
        if g is False:
            continue
        p = part(o.st, d, k)
        if p is None:
            ck.oblige("%s:parts:%s" % (n, k), list(pc) + [T.tb(g)], False)
            continue
        if k == "1":
            goals.append((n + ":parts:1:len", T.mk_implies(g, seq_eq(p[0], b""))))
            # the two bitmaps that make up entry 1
            two, three = ex.data["1"], mkseq("bytes", ex.data["1"], ex.data["65"])
            q = list(pc) + [T.join_fact(ex.data["1"], ex.data["65"])]
            goals2 = [(n + ":parts:1:two", T.mk_implies(T.mk_and(g, T.mk_not(ex.third)), T.mk_eq(sterm(p[1]), two))),
                      (n + ":parts:1:three", T.mk_implies(ex.third, T.mk_eq(sterm(p[1]), sterm(three))))]
            ck.oblige_each(q, goals2)
            want.append((ex.second, [ex.data["1"]]))
            want.append((ex.third, [ex.data["65"]]))
            continue
        want.append((g, [sterm(p[0]), sterm(p[1])]))
    ck.oblige_each(pc, goals)
    rope_obligations(ck, n, pc, ba_seq(s), want)


def norm_piece(p):
    """[(guard, [terms])] of a piece of a rope."""
    if not isinstance(p, GP):
        return [(True, [pterm(p)])]
    out = []
    for q in p.pieces:
        for g, ts in norm_piece(q):
            g = T.mk_and(p.cond, g)
            if out and csame(out[-1][0], g):
                out[-1] = (g, out[-1][1] + ts)
            else:
                out.append((g, ts))
    return out


def rope_obligations(ck, n, pc, seq, want):
    """the rope of the result is the sequence of guarded parts."""
    lit0 = T.sv("")
    have = []
    for p in pieces_of(seq):
        have += [(g, [t for t in ts if not t.eq(lit0)]) for g, ts in norm_piece(p)]
    want = [(g, [t for t in ts if not t.eq(lit0)]) for g, ts in want]
    have, want = glue(have), glue(want)
    i = 0
    ix = solver.Index(pc)
    for j, (g, ts) in enumerate(want):
        while i < len(have) and not have[i][1]:
            i += 1
        ok = i < len(have) and len(have[i][1]) == len(ts)
        if not ok:
            return ck.oblige(n + ":bytes-are-the-parts", pc, T.mk_eq(sterm(seq), cat_of(want)))
        h, us = have[i]
        goals = [("%s:byte-part:%d" % (n, j), T.mk_and([T.beq(h, g)] + [
            T.mk_implies(T.tb(g), T.mk_eq(a, b)) for a, b in zip(us, ts)]))]
        ck.oblige_each(pc, goals)
        i += 1
    while i < len(have) and not have[i][1]:
        i += 1
    ck.oblige(n + ":no-further-bytes", pc, T.mk_and([T.mk_not(g) for g, _ in have[i:]]))


def glue(parts):
    """adjacent unconditional parts joined."""
    out = []
    for g, ts in parts:
        if g is True and out and out[-1][0] is True:
            out[-1] = (True, out[-1][1] + ts)
        else:
            out.append((g, list(ts)))
    return [p for p in out if p[1]]


def cat_of(parts):
    return sterm(mkseq("bytes", *[t if g is True else T.mk_ite(g, sterm(mkseq("bytes", *t)), T.sv("")) for g, ts in parts
                                  for t in (ts if g is True else [ts])]))


def encode_bitmaps(ck, n, em, o, res):
    """C05"""
    ex, pc = em.ex, o.st.pc
    doc = o.st.get(em.doc)
    p = part(o.st, res[1], "p")
    goals = [(n + ":p:data", p is not None and T.mk_and(seq_eq(p[0], b""), T.mk_eq(sterm(p[1]), ex.data["p"])))]
    g, v = doc.entries.get("p", (False, None))
    goals.append((n + ":p:document", T.mk_and(g, is_strish(v) and T.mk_eq(sterm(v), ex.hex["p"]))))
    e = res[1].entries.get("1", (False, None))
    goals.append((n + ":1:emitted", T.beq(e[0], ex.second)))
    g, v = doc.entries.get("1", (False, None))
    goals.append((n + ":1:document", T.beq(g, ex.second)))
    g65 = doc.entries.get("65", (False, None))[0]
    goals.append((n + ":65:removed", T.mk_not(g65)))
    goals.append((n + ":65:not-a-field", T.mk_not(res[1].entries.get("65", (False, None))[0])))
    ck.oblige_each(pc, goals)
    if e[0] is not False:
        q = list(pc) + [T.join_fact(ex.data["1"], ex.data["65"]), T.join_fact(ex.hex["1"], ex.hex["65"])]
        p = part(o.st, res[1], "1")
        two, three = ex.data["1"], mkseq("bytes", ex.data["1"], ex.data["65"])
        t2, t3 = ex.hex["1"], mkseq("str", ex.hex["1"], ex.hex["65"])
        nt = T.mk_and(ex.second, T.mk_not(ex.third))
        ck.oblige_each(q, [
            (n + ":1:data:two", p is not None and T.mk_implies(nt, T.mk_eq(sterm(p[1]), two))),
            (n + ":1:data:three", p is not None and T.mk_implies(ex.third, T.mk_eq(sterm(p[1]), sterm(three)))),
            (n + ":1:text:two", is_strish(v) and T.mk_implies(nt, T.mk_eq(sterm(v), t2))),
            (n + ":1:text:three", is_strish(v) and T.mk_implies(ex.third, T.mk_eq(sterm(v), sterm(t3))))])
    # the bits that were asked for are the bits of the image (definition of the image)
    for key, first in (("p", 1), ("1", 65), ("65", 129)):
        for j in range(64):
            f = str(first + j)
            want = {"1": ex.second, "65": ex.third}.get(f, em.has[f])
            ck.oblige("%s:bit:%s" % (n, f), [], T.beq(T.t_sbit(ex.raw[key], j // 8, 7 - j % 8), want))


def encode_frame(ck, n, em, o, res):
    st, pc = o.st, o.st.pc
    refs = [em.spec] + [e.ref for e in em.ents.values()]
    ck.oblige(n + ":specification-unmodified", pc, all(unmodified(em.st0, st, r) for r in refs))
    ck.oblige(n + ":no-global-state", pc, globals_unchanged(em, st))
    a, b = em.st0.get(em.doc), st.get(em.doc)
    good = isinstance(b, ODict) and len(a.others) == len(b.others) and all(
        same(x.key, y.key) and same(x.value, y.value) and x.star == y.star for x, y in zip(a.others, b.others))
    ck.oblige(n + ":document:keys", pc, good and set(b.entries) <= set(a.entries))
    if not good:
        return
    ck.oblige_each(pc, [(n + ":document:other", T.beq(x.guard, y.guard)) for x, y in zip(a.others, b.others)])
    goals = []
    for k in KEYS:
        g, v = b.entries.get(k, (False, None))
        if k in ("p", "1"):
            # replaced by text or removed
            if g is not False:
                ck.oblige("%s:document:%s-is-str" % (n, k), pc, is_strish(v))
            continue
        if k == "65":
            goals.append((n + ":document:65", T.mk_implies(g, em.has[k])))
            continue
        goals.append(("%s:document:%s" % (n, k), T.mk_and(T.beq(g, em.has[k]), g is False or same(v, em.val[k]))))
    ck.oblige_each(pc, goals)
    if res is None:
        return
    old = em.st0.heap
    ids = [o.val[0].id, o.val[1].id]
    ck.oblige(n + ":fresh-results", pc, ids[0] != ids[1] and all(i not in old for i in ids))
    for k, (g, v) in res[1].entries.items():
        p = part(st, res[1], k)
        ok = p is not None and v.id not in old
        if ok:
            ids.append(v.id)
        ck.oblige("%s:parts-are-new:%s" % (n, k), pc, ok)
    ck.oblige(n + ":parts-not-shared", pc, len(set(ids)) == len(ids))


def encode_failure(ck, n, em, o):
    """C14: what was raised is the first element that cannot be encoded."""
    ex, pc = em.ex, o.st.pc
    c, x = raised(o)
    if not em.w.e.subclass(c, em.err):
        return  # C12
    a = x.attrs
    f = a.get("field")
    det = lambda: describe(o)  # noqa: E731
    if not isinstance(f, str):
        ck.oblige(n + ":field", pc, False, det)
        return
    ix = solver.Index(pc)
    for i, (k, cond, has) in enumerate(ex.fails):
        if k == f and (ix.quick(cond) or (k not in FIELDS and solver.prove(pc, cond))):
            break
    else:
        ck.oblige(n + ":is-an-error", pc, T.mk_or([q[1] for q in ex.fails if q[0] == f]), det)
        return
    goals = [("%s:no-earlier-error:%d" % (n, j), T.mk_not(q[1])) for j, q in enumerate(ex.fails[:i])]
    good = is_strish(a.get("msg"))
    ck.oblige(n + ":text", pc, good and len(x.args or ()) == 1 and is_strish(x.args[0]) and seq_eq(
        x.args[0], text_of_error(a["msg"], f)))
    ck.oblige(n + ":carries-document", pc, isinstance(a.get("doc_dec"), Ref) and a["doc_dec"].id == em.doc.id)
    d = dict_entries(o.st, a.get("doc_enc"))
    ck.oblige(n + ":partial", pc, d is not None and not d.others and set(d.entries) <= set(KEYS))
    if d is None:
        return
    want = {}
    for q in ORDER:
        if q == k:
            break
        if q in ex.flag:
            want[q] = ex.flag[q]
    for q in KEYS:
        g = d.entries.get(q, (False, None))[0]
        if q == k:
            if g is not False:
                ck.oblige("%s:partial:failing" % n, pc, part(o.st, d, q) is not None)
            continue
        goals.append(("%s:partial:%s" % (n, q), T.beq(g, want.get(q, False))))
        if want.get(q, False) is False or g is False:
            continue
        p = part(o.st, d, q)
        if p is None:
            v = False
        elif q == "t":
            v = T.mk_and(seq_eq(p[0], b""), T.mk_eq(sterm(p[1]), ex.tdata))
        elif q == "p":
            v = T.mk_and(seq_eq(p[0], b""), T.mk_eq(sterm(p[1]), ex.data["p"]))
        elif q == "1":
            v = T.mk_and(seq_eq(p[0], b""), T.mk_implies(T.mk_not(ex.third), T.mk_eq(sterm(p[1]), ex.data["1"])),
                         T.mk_implies(ex.third, seq_eq(p[1], mkseq("bytes", ex.data["1"], ex.data["65"]))))
        else:
            v = T.mk_and(T.mk_eq(sterm(p[0]), em.L(q)), T.mk_eq(sterm(p[1]), em.D(q)))
        goals.append(("%s:partial-value:%s" % (n, q), T.mk_implies(g, v)))
    ck.oblige_each(pc, goals, det)
