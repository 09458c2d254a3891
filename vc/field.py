"""Contracts of the field functions _decode_field and _encode_field, checked on their bodies for
arbitrary arguments (helpers they call are executed too)."""
import time

import z3

from pyvc import solver
from pyvc import terms as T
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import Other, Unsupported

from .core import dict_entries, int_eq, obj_eq, seq_eq, val_eq, val_eq2
from .world import S, Entry, World, bytes_val, describe, raised, str_val

DEC = "iso8583.decoder"
ENC = "iso8583.encoder"

# parameter roles by usual name, then by position
DEC_ROLES = ["s", "dec", "enc", "idx", "key", "entry"]
ENC_ROLES = ["dec", "enc", "key", "entry"]


def roles_of(f, roles):
    """{parameter name: role} of a field function."""
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg or a.kwarg:
        raise Unsupported("signature of %s" % f.qual)
    std = {"s": "s", "doc_dec": "dec", "doc_enc": "enc", "idx": "idx", "field_key": "key", "field_spec": "entry"}
    out = {}
    for n in names:
        if n in std and std[n] in roles and std[n] not in out.values():
            out[n] = std[n]
    rest = [n for n in names if n not in out]
    left = [r for r in roles if r not in out.values()]
    if len(rest) == len(left) and len(rest) <= 1:
        out.update(zip(rest, left))
        return out
    guess = [("s", ("data", "raw", "buf", "msg", "message")), ("dec", ("dec",)), ("enc", ("enc",)),
             ("idx", ("idx", "index", "pos", "offset", "start", "i")), ("key", ("key", "field", "name")),
             ("entry", ("spec",))]
    for n in rest:
        for r, words in guess:
            if r in left and any(w in n for w in words):
                out[n] = r
                left.remove(r)
                break
    if set(out) != set(names) or left:
        raise Unsupported("signature of %s" % f.qual)
    return out


class DecodeField:
    """all paths of _decode_field(s, doc_dec, doc_enc, idx, key, spec entry)."""

    def __init__(self, kind="bytes", groups=(), wf_pad=False, deadline=None):
        solver.GROUPS = groups
        self.w = World(deadline=deadline)
        self.w.load_spec()
        w = self.w
        st = w.state()
        self.entry = Entry(st, "fs")
        for c in self.entry.wf() + self.entry.wf_codec() + (self.entry.wf_pad() + self.entry.wf_known() if wf_pad else []):
            st.assume(c)
        self.seq = bytes_val("s")
        self.s = w.argument(self.seq if kind == "bytes" else st.new(OBytearray(self.seq)))
        self.idx = SInt(z3.Int("idx"))
        st.assume(z3.Int("idx") >= 0)
        st.assume(z3.Int("idx") <= T.Len(self.seq.t))
        self.key = str_val("key")
        self.okey = str_val("otherkey")
        st.assume(T.mk_not(T.mk_eq(self.key.t, self.okey.t)))
        self.mark = st.new(ODict({"len": (True, bytes_val("o.len")), "data": (True, bytes_val("o.data"))}))
        self.dd = st.new(ODict({}, [Other(True, self.okey, str_val("o.dec"), False)]))
        self.de = st.new(ODict({}, [Other(True, self.okey, self.mark, False)]))
        self.st0 = st
        self.f = w.fn(DEC, "_decode_field")
        self.roles = roles_of(self.f, DEC_ROLES)
        self.outs = self.call(st)
        self.refs = {}

    def args(self, **over):
        v = {"s": self.s, "dec": self.dd, "enc": self.de, "idx": self.idx, "key": self.key, "entry": self.entry.ref}
        v.update(over)
        return {n: v[r] for n, r in self.roles.items()}

    def call(self, st, **over):
        a = self.args(**over)
        return self.w.e.run(st, lambda s: self.w.e.call(s, self.f, [], a))

    def ref(self, i):
        """specified outcomes on the path of outcome i: [(state, (tag, pos, L, D, text, end))]."""
        r = self.refs.get(i)
        if r is None:
            outs = self.w.spec_call(self.outs[i].st, "decode_field", [self.seq, self.idx, self.entry.ref])
            r = [(o.st, o.val) for o in outs]
            self.refs[i] = r
        return r

    def parts(self, o):
        """(text, length part, data part) recorded for the key, or None."""
        return field_parts(o.st, self.dd, self.de, self.key)


def lookup(o, key):
    """(guard, value) of a key in a dict object."""
    if isinstance(key, str):
        return o.entries.get(key)
    for x in o.others:
        if same(x.key, key):
            return (x.guard, x.value)
    return None


def enc_parts(st, de, key):
    """(L, D, dict object) recorded in doc_enc under key, or None if not a {len, data} dict."""
    o = dict_entries(st, de)
    if o is None:
        return None
    e = lookup(o, key)
    if e is None or e[0] is not True or not isinstance(e[1], Ref):
        return None
    p = dict_entries(st, e[1])
    if p is None or set(p.entries) != {"len", "data"} or p.others:
        return None
    if any(g is not True for g, _ in p.entries.values()):
        return None
    L, D = p.entries["len"][1], p.entries["data"][1]
    return (L, D, e[1])


def field_parts(st, dd, de, key):
    ep = enc_parts(st, de, key)
    o = dict_entries(st, dd)
    if ep is None or o is None:
        return None
    d = lookup(o, key)
    if d is None or d[0] is not True:
        return None
    return (d[1], ep[0], ep[1])


def text_of_error(msg, key, pos=None):
    from pyvc import models as M

    parts = [msg, ": field ", key]
    if pos is not None:
        parts += [" pos ", M.istr(pos)]
    return M.concat_str(parts)


LEN_TAGS = ("len_short", "len_bad", "over", "data_short")


def decode_field(prop, ck, df):
    """obligations of one property over all outcomes of _decode_field."""
    w, en = df.w, df.entry
    nibbles = en.nibbles()
    binary = T.mk_eq(en.data_enc, T.sv("b"))
    err = w.cls(DEC, "DecodeError")
    ck.functions |= w.e.trace_funcs
    if not any(o.kind == "next" for o in df.outs):
        ck.fail("decode_field:reachable", "no successful path: the contract would hold vacuously")
    for i, o in enumerate(df.outs):
        n = "decode_field:%s:path%d" % (prop, i)
        st = o.st
        ok = o.kind == "next"
        p = df.parts(o) if ok else None
        seqs = p is not None and all(is_bytesish(x) for x in p[1:])
        if prop == "C11":
            if not ok:
                ck.oblige(n + ":raises-DecodeError", st.pc, w.e.subclass(raised(o)[0], err), lambda: describe(o))
            continue
        if prop == "C04":
            if ok:
                if not seqs or not is_intish(o.val):
                    ck.oblige(n + ":parts-recorded", st.pc, False, "parts %r, result %r" % (p, o.val))
                    continue
                end = iterm(o.val)
                ck.oblige(n + ":advances", st.pc, [iterm(df.idx) <= end, end <= T.Len(df.seq.t)])
                ck.oblige(n + ":len+data==s[idx:end]", st.pc, seq_eq(
                    mkseq("bytes", sterm(p[1]), sterm(p[2])),
                    mkseq("bytes", T.t_sub(df.seq.t, iterm(df.idx), T.simp(end - iterm(df.idx))))))
            continue
        if prop == "C16":
            frame_decode(ck, n, df, o, ok)
            continue
        if prop == "C17":
            ck.oblige(n + ":no-global-state", st.pc, globals_same(df, st))
            continue
        if prop == "C13":
            if not ok:
                decode_error_shape(ck, n, df, o, err)
        for rs, (tag, pos, L, D, text, end) in df.ref(i):
            m = "%s:%s" % (n, tag)
            if prop == "C08":
                if ok:
                    if tag in LEN_TAGS:
                        ck.oblige(m + ":must-be-rejected", rs.pc, False)
                    elif tag in ("ok", "pad", "codec", "odd_text"):
                        if not seqs:
                            ck.oblige(m + ":parts-recorded", rs.pc, False)
                            continue
                        if tag != "odd_text":
                            ck.oblige(m + ":end", rs.pc, int_eq(o.val, end))
                            ck.oblige(m + ":parts", rs.pc, [seq_eq(p[1], L), seq_eq(p[2], D)])
                        else:
                            ck.oblige(m + ":must-be-rejected", rs.pc, False)
                elif tag == "ok":
                    odd = T.mk_and(binary, nibbles, odd_count(D, text))
                    ck.oblige(m + ":must-be-accepted", rs.pc, odd, lambda: describe(o))
            elif prop == "C09":
                odd = T.mk_and(binary, nibbles)
                if tag in ("ok", "pad"):
                    if ok:
                        if not seqs or not is_strish(p[0]):
                            ck.oblige(m + ":value-recorded", rs.pc, False)
                        elif tag == "pad":
                            ck.oblige(m + ":must-be-rejected", rs.pc, False)
                        else:
                            # the specified number of digits; odd: exactly the specified one is gone
                            ck.oblige(m + ":stripped", rs.pc, T.mk_implies(odd, seq_eq(p[0], text)))
                            full = T.mk_implies(T.mk_and(binary, T.mk_not(nibbles)),
                                                T.mk_eq(T.Len(sterm(p[0])), T.simp(2 * T.Len(sterm(p[2])))))
                            ck.oblige(m + ":not-stripped", rs.pc, full)
                    elif tag == "ok":
                        ck.oblige(m + ":must-be-accepted", rs.pc, T.mk_not(T.mk_and(odd, odd_count(D, text))),
                                  describe(o))
            elif prop == "C10":
                if ok:
                    if tag == "codec":
                        ck.oblige(m + ":must-be-rejected", rs.pc, False)
            elif prop == "C13":
                if not ok and tag != "ok":
                    c, x = raised(o)
                    ck.oblige(m + ":pos", rs.pc, int_eq(x.attrs.get("pos"), pos), lambda: describe(o))
        if prop == "C10" and ok:
            if not seqs or not is_strish(p[0]):
                ck.oblige(n + ":value-recorded", st.pc, False)
                continue
            text, L, D = p
            h = mkseq("str", T.t_upper(T.t_hexl(sterm(D))))
            hl = T.Len(sterm(h))
            bin_img = T.mk_or(
                seq_eq(text, h),
                T.mk_and(nibbles, T.mk_or(
                    seq_eq(text, mkseq("str", T.t_sub(sterm(h), z3.IntVal(1), T.simp(hl - 1)))),
                    seq_eq(text, mkseq("str", T.t_sub(sterm(h), z3.IntVal(0), T.simp(hl - 1)))))))
            txt_img = T.mk_or(T.mk_and(T.mk_eq(sterm(D), T.sv("")), T.mk_eq(sterm(text), T.sv(""))),
                              T.mk_and(T.t_known(en.data_enc), T.t_dec_ok(en.data_enc, sterm(D)),
                                       T.mk_eq(sterm(text), T.t_dec(en.data_enc, sterm(D)))))
            ck.oblige(n + ":image", st.pc, [T.mk_implies(binary, bin_img),
                                           T.mk_implies(T.mk_not(binary), txt_img)])


def odd_count(D, text):
    """the text has an odd number of digits."""
    return T.mk_not(T.mk_eq(T.Len(sterm(text)), T.simp(2 * T.Len(sterm(D)))))


def frame_decode(ck, n, df, o, ok):
    st, st0 = o.st, df.st0
    ck.oblige(n + ":entry-unmodified", st.pc, unmodified(st0, st, df.entry.ref))
    if isinstance(df.s, Ref):
        ck.oblige(n + ":input-unmodified", st.pc, unmodified(st0, st, df.s))
    ck.oblige(n + ":other-parts-unmodified", st.pc, unmodified(st0, st, df.mark))
    for nm, ref in (("dec", df.dd), ("enc", df.de)):
        a, b = st0.get(ref), st.get(ref)
        good = isinstance(b, ODict) and not b.entries and all(
            any(same(x.key, y.key) and x.guard is True and same(x.value, y.value) for y in b.others)
            for x in a.others) and all(same(y.key, df.key) or same(y.key, df.okey) for y in b.others)
        ck.oblige(n + ":%s-frame" % nm, st.pc, good)
    ck.oblige(n + ":no-global-state", st.pc, globals_same(df, st))
    if ok:
        p = df.parts(o)
        ck.oblige(n + ":types", st.pc, p is not None and is_strish(p[0]) and is_bytesish(p[1]) and is_bytesish(p[2]),
                  "%r" % (p,))
        if p is not None:
            r = enc_parts(st, df.de, df.key)[2]
            ck.oblige(n + ":fresh", st.pc, r.id not in st0.heap)


def decode_error_shape(ck, n, df, o, err):
    c, x = raised(o)
    st = o.st
    if not df.w.e.subclass(c, err):
        return  # C11
    a = x.attrs
    ck.oblige(n + ":carries-input", st.pc, same(a.get("s"), df.s) or same(a.get("s"), df.seq))
    ck.oblige(n + ":carries-documents", st.pc, same(a.get("doc_dec"), df.dd) and same(a.get("doc_enc"), df.de))
    ck.oblige(n + ":field", st.pc, is_strish(a.get("field")) and seq_eq(a.get("field"), df.key))
    ck.oblige(n + ":msg", st.pc, is_strish(a.get("msg")))
    pos = a.get("pos")
    if is_strish(a.get("msg")) and is_intish(pos) and is_strish(a.get("field")):
        ck.oblige(n + ":text", st.pc, len(x.args or ()) == 1 and is_strish(x.args[0]) and seq_eq(
            x.args[0], text_of_error(a["msg"], a["field"], pos)))
    else:
        ck.oblige(n + ":pos", st.pc, False)
    for nm, ref in (("dec", df.dd), ("enc", df.de)):
        ob = st.get(ref)
        e = lookup(ob, df.key) if isinstance(ob, ODict) else None
        ck.oblige(n + ":%s-has-failing-field" % nm, st.pc, e is not None and e[0] is True)


def unmodified(st0, st, ref):
    a, b = st0.get(ref), st.heap.get(ref.id)
    if a is b or (b is not None and osame(a, b)):
        return True
    return False


def globals_same(df, st):
    """module globals, default arguments and closures are as they were."""
    base = df.st0
    for m in df.w.e.modules.values():
        if m.fid is None:
            continue
        x, y = base.frames.get(m.fid), st.frames.get(m.fid)
        if x is y:
            continue
        if set(x) != set(y) or not all(same(x[k], y[k]) for k in x):
            return False
    mod = df.w.base
    for i in mod.heap:
        if st.heap.get(i) is not mod.heap[i] and not osame(st.heap[i], mod.heap[i]):
            return False
    return True


# ------------------------------------------------------------------ encoding


class EncodeField:
    """all paths of _encode_field(doc_dec, doc_enc, key, spec entry); value: str / bytes / object."""

    def __init__(self, value="str", groups=(), wf_pad=False, deadline=None):
        solver.GROUPS = groups
        self.w = World(deadline=deadline)
        self.w.load_spec()
        w = self.w
        st = w.state()
        self.kind = value
        self.entry = Entry(st, "fs")
        for c in self.entry.wf() + self.entry.wf_codec() + (self.entry.wf_pad() + self.entry.wf_known() if wf_pad else []):
            st.assume(c)
        self.key = str_val("key")
        self.okey = str_val("otherkey")
        st.assume(T.mk_not(T.mk_eq(self.key.t, self.okey.t)))
        self.value = {"str": str_val("v"), "bytes": bytes_val("v"), "object": VObj("v"), "none": None,
                      "int": SInt(z3.Int("v")), "list": None, "dict": None, "bytearray": None}[value]
        if value == "list":
            self.value = st.new(OList([(True, bytes_val("v0"))]))
        elif value == "dict":
            self.value = st.new(ODict({"a": (True, str_val("v0"))}))
        elif value == "bytearray":
            self.value = st.new(OBytearray(bytes_val("v")))
        self.mark = st.new(ODict({"len": (True, bytes_val("o.len")), "data": (True, bytes_val("o.data"))}))
        self.dd = st.new(ODict({}, [Other(True, self.key, self.value, False), Other(True, self.okey, str_val("o.dec"),
                                                                                    False)]))
        self.de = st.new(ODict({}, [Other(True, self.okey, self.mark, False)]))
        self.st0 = st
        self.f = w.fn(ENC, "_encode_field")
        self.roles = roles_of(self.f, ENC_ROLES)
        self.outs = self.call(st)
        self.refs = {}

    def call(self, st, **over):
        v = {"dec": self.dd, "enc": self.de, "key": self.key, "entry": self.entry.ref}
        v.update(over)
        a = {n: v[r] for n, r in self.roles.items()}
        return self.w.e.run(st, lambda s: self.w.e.call(s, self.f, [], a))

    def ref(self, i):
        r = self.refs.get(i)
        if r is None:
            outs = self.w.spec_call(self.outs[i].st, "encode_field", [self.value, self.entry.ref])
            r = [(o.st, o.val) for o in outs]
            self.refs[i] = r
        return r


def encode_field(prop, ck, ef):
    w, en = ef.w, ef.entry
    nibbles = en.nibbles()
    binary = T.mk_eq(en.data_enc, T.sv("b"))
    err = w.cls(ENC, "EncodeError")
    ck.functions |= w.e.trace_funcs
    if ef.kind == "str" and not any(o.kind == "next" for o in ef.outs):
        ck.fail("encode_field:reachable", "no successful path: the contract would hold vacuously")
    for i, o in enumerate(ef.outs):
        n = "encode_field:%s:%s:path%d" % (prop, ef.kind, i)
        st = o.st
        ok = o.kind == "next"
        ep = enc_parts(st, ef.de, ef.key) if ok else None
        seqs = ep is not None and is_bytesish(ep[0]) and is_bytesish(ep[1])
        if prop == "C12":
            if not ok:
                ck.oblige(n + ":raises-EncodeError", st.pc, w.e.subclass(raised(o)[0], err), lambda: describe(o))
            else:
                ck.oblige(n + ":returns-bytes", st.pc, is_bytesish(o.val), lambda: describe(o))
            continue
        if prop == "C16":
            frame_encode(ck, n, ef, o, ok)
            continue
        if prop == "C17":
            ck.oblige(n + ":no-global-state", st.pc, globals_same(ef, st))
            continue
        if prop == "C14":
            if not ok:
                encode_error_shape(ck, n, ef, o, err)
            continue
        if prop == "C03":
            if ok:
                ck.oblige(n + ":returns-its-parts", st.pc, seqs and is_bytesish(o.val) and seq_eq(
                    o.val, mkseq("bytes", sterm(ep[0]), sterm(ep[1]))), lambda: describe(o))
            continue
        if ef.kind != "str":
            continue
        if prop in ("C07", "C09", "C10"):
            for rs, (tag, L, D, cnt) in ef.ref(i):
                m = "%s:%s" % (n, tag)
                if ok and not seqs:
                    ck.oblige(m + ":parts-recorded", rs.pc, False)
                    continue
                if prop == "C07":
                    if ok and tag == "length":
                        ck.oblige(m + ":must-be-rejected", rs.pc, False)
                    elif ok and tag == "ok":
                        ck.oblige(m + ":length-part", rs.pc, seq_eq(ep[0], L))
                        ck.oblige(m + ":data-size", rs.pc, T.mk_eq(T.Len(sterm(ep[1])), T.Len(sterm(D))))
                    elif not ok and tag == "ok":
                        ck.oblige(m + ":must-be-accepted", rs.pc, False, lambda: describe(o))
                elif prop == "C09":
                    reg = T.mk_and(binary, nibbles)
                    oddv = T.mk_not(T.mk_eq(T.simp(T.Len(ef.value.t) % 2), z3.IntVal(0)))
                    if ok and tag == "image":
                        ck.oblige(m + ":must-be-rejected", rs.pc, T.mk_not(T.mk_and(reg, oddv)))
                    elif ok and tag == "ok":
                        ck.oblige(m + ":padded", rs.pc, T.mk_implies(T.mk_and(reg, oddv), T.mk_and(
                            seq_eq(ep[1], D), seq_eq(ep[0], L))))
                        ck.oblige(m + ":not-padded", rs.pc, T.mk_implies(
                            T.mk_and(binary, T.mk_not(T.mk_and(reg, oddv))),
                            T.mk_eq(T.simp(2 * T.Len(sterm(ep[1]))), T.Len(ef.value.t))))
                        ck.oblige(m + ":text-not-padded", rs.pc, T.mk_implies(T.mk_not(binary), T.mk_eq(
                            T.Len(sterm(ep[1])), T.Len(sterm(D)))))
                    elif not ok and tag == "ok":
                        ck.oblige(m + ":must-be-accepted", rs.pc, T.mk_not(T.mk_and(reg, oddv)), lambda: describe(o))
                elif prop == "C10":
                    if ok and tag == "image":
                        ck.oblige(m + ":must-be-rejected", rs.pc, False)
                    elif ok:
                        ck.oblige(m + ":image", rs.pc, seq_eq(ep[1], D))


def frame_encode(ck, n, ef, o, ok):
    st, st0 = o.st, ef.st0
    ck.oblige(n + ":entry-unmodified", st.pc, unmodified(st0, st, ef.entry.ref))
    ck.oblige(n + ":document-unmodified", st.pc, unmodified(st0, st, ef.dd))
    if isinstance(ef.value, Ref):
        ck.oblige(n + ":value-unmodified", st.pc, unmodified(st0, st, ef.value))
    ck.oblige(n + ":other-parts-unmodified", st.pc, unmodified(st0, st, ef.mark))
    a, b = st0.get(ef.de), st.get(ef.de)
    good = isinstance(b, ODict) and not b.entries and all(
        any(same(x.key, y.key) and x.guard is True and same(x.value, y.value) for y in b.others)
        for x in a.others) and all(same(y.key, ef.key) or same(y.key, ef.okey) for y in b.others)
    ck.oblige(n + ":enc-frame", st.pc, good)
    ck.oblige(n + ":no-global-state", st.pc, globals_same(ef, st))
    if ok:
        p = enc_parts(st, ef.de, ef.key)
        ck.oblige(n + ":types", st.pc, p is not None and is_bytesish(p[0]) and is_bytesish(p[1]), "%r" % (p,))
        if p is not None:
            ck.oblige(n + ":fresh", st.pc, p[2].id not in st0.heap)


def encode_error_shape(ck, n, ef, o, err):
    c, x = raised(o)
    st = o.st
    if not ef.w.e.subclass(c, err):
        return  # C12
    a = x.attrs
    ck.oblige(n + ":carries-documents", st.pc, same(a.get("doc_dec"), ef.dd) and same(a.get("doc_enc"), ef.de))
    ck.oblige(n + ":field", st.pc, is_strish(a.get("field")) and seq_eq(a.get("field"), ef.key))
    ck.oblige(n + ":msg", st.pc, is_strish(a.get("msg")))
    if is_strish(a.get("msg")) and is_strish(a.get("field")):
        ck.oblige(n + ":text", st.pc, len(x.args or ()) == 1 and is_strish(x.args[0]) and seq_eq(
            x.args[0], text_of_error(a["msg"], a["field"])))


# ------------------------------------------------------------------ round trips of one field


def field_roundtrip_encode(ck, deadline=None):
    """C01: what _encode_field emits, _decode_field reads back, wherever it stands in a message."""
    ef = EncodeField("str", groups=("codec",), wf_pad=True, deadline=deadline)
    w = ef.w
    f = w.fn(DEC, "_decode_field")
    roles = roles_of(f, DEC_ROLES)
    pre, post = bytes_val("pre"), bytes_val("post")
    n_ok = 0
    for i, o in enumerate(ef.outs):
        if o.kind != "next":
            continue
        n_ok += 1
        n = "roundtrip_field:C01:path%d" % i
        ep = enc_parts(o.st, ef.de, ef.key)
        if ep is None or not is_bytesish(o.val):
            ck.oblige(n + ":parts-recorded", o.st.pc, False)
            continue
        s = mkseq("bytes", pre.t, *[pterm(p) for p in pieces_of(o.val)], post.t)
        st = o.st.clone()
        dd, de = st.new(ODict()), st.new(ODict())
        v = {"s": s, "dec": dd, "enc": de, "idx": mkint(T.Len(pre.t)), "key": ef.key, "entry": ef.entry.ref}
        a = {k: v[r] for k, r in roles.items()}
        for j, d in enumerate(w.e.run(st, lambda q: w.e.call(q, f, [], a))):
            m = "%s.%d" % (n, j)
            if d.kind != "next":
                ck.oblige(m + ":accepted", d.st.pc, False, describe(d))
                continue
            p = field_parts(d.st, dd, de, ef.key)
            if p is None or not is_strish(p[0]):
                ck.oblige(m + ":parts-recorded", d.st.pc, False)
                continue
            ck.oblige(m + ":end", d.st.pc, int_eq(d.val, mkint(T.Len(pre.t) + T.Len(sterm(o.val)))))
            ck.oblige(m + ":encoded-parts", d.st.pc, [seq_eq(p[1], ep[0]), seq_eq(p[2], ep[1])])
            binary = T.mk_eq(ef.entry.data_enc, T.sv("b"))
            want = T.mk_or(T.mk_and(binary, seq_eq(p[0], mkseq("str", T.t_upper(ef.value.t)))),
                           T.mk_and(T.mk_not(binary), seq_eq(p[0], ef.value)))
            ck.oblige(m + ":value", d.st.pc, want, describe(d))
    ck.functions |= w.e.trace_funcs
    if not n_ok:
        ck.fail("roundtrip_field:reachable", "no successful path")


def field_roundtrip_decode(ck, deadline=None):
    """C02: what _decode_field accepts, _encode_field reproduces."""
    df = DecodeField("bytes", groups=("codec",), wf_pad=True, deadline=deadline)
    w = df.w
    f = w.fn(ENC, "_encode_field")
    roles = roles_of(f, ENC_ROLES)
    n_ok = 0
    for i, o in enumerate(df.outs):
        if o.kind != "next":
            continue
        n_ok += 1
        n = "roundtrip_field:C02:path%d" % i
        p = df.parts(o)
        if p is None or not is_strish(p[0]):
            ck.oblige(n + ":parts-recorded", o.st.pc, False)
            continue
        st = o.st.clone()
        dd = st.new(ODict({}, [Other(True, df.key, p[0], False)]))
        de = st.new(ODict())
        v = {"dec": dd, "enc": de, "key": df.key, "entry": df.entry.ref}
        a = {k: v[r] for k, r in roles.items()}
        for j, d in enumerate(w.e.run(st, lambda q: w.e.call(q, f, [], a))):
            m = "%s.%d" % (n, j)
            if d.kind != "next":
                ck.oblige(m + ":accepted", d.st.pc, False, describe(d))
                continue
            ep = enc_parts(d.st, de, df.key)
            if ep is None or not is_bytesish(d.val):
                ck.oblige(m + ":parts-recorded", d.st.pc, False)
                continue
            # the bytes are those the field came from, part by part
            ck.oblige(m + ":result-is-its-parts", d.st.pc, seq_eq(d.val, mkseq("bytes", sterm(ep[0]), sterm(ep[1]))))
            ck.oblige(m + ":parts-are-the-input", d.st.pc, seq_eq(mkseq("bytes", sterm(p[1]), sterm(p[2])), mkseq(
                "bytes", T.t_sub(df.seq.t, iterm(df.idx), T.simp(iterm(o.val) - iterm(df.idx))))))
            ck.oblige(m + ":length-part", d.st.pc, seq_eq(ep[0], p[1]), describe(d))
            ck.oblige(m + ":data-part", d.st.pc, seq_eq(ep[1], p[2]), describe(d))
    ck.functions |= w.e.trace_funcs
    if not n_ok:
        ck.fail("roundtrip_field:reachable", "no successful path")
