"""C01 and C02 for whole messages, on top of the contracts proved for encode, decode and the fields."""
import z3

from pyvc import models as M
from pyvc import solver
from pyvc import terms as T
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import GP, Other, Out, Unsupported

from . import message_enc
from .core import dict_entries, seq_eq
from .field import DEC, DEC_ROLES, ENC, ENC_ROLES, roles_of
from .message import FIELDS, Call, canon, make_spec, part, returned_docs
from .world import KEYS, S, World, bytes_val, describe, raised, str_val

z = z3.IntVal
BINARY = {"b": True, "text": False}


class Terms:
    """the vocabulary of encode's contract (see message_enc.Expected), without running encode."""

    ok = staticmethod(message_enc.EncodeMessage.ok)
    L = staticmethod(message_enc.EncodeMessage.L)
    D = staticmethod(message_enc.EncodeMessage.D)
    tkind = "str"
    other = "text"
    hasother = False

    def __init__(self, ents, defd, maps):
        """maps: number of bitmaps of the message."""
        self.ents, self.defd = ents, defd
        self.case = (maps > 1, maps > 2)
        top = {1: 65, 2: 129, 3: 193}[maps]
        self.has = {k: z3.Bool("has!" + k) if not k.isdigit() or int(k) < top else False for k in KEYS}
        some = [self.has[str(i)] for i in range(66, 129)] if maps == 2 else [self.has[str(i)] for i in range(129, 193)]
        self.assume = [T.mk_or(some)] if maps > 1 else []
        self.val = {k: str_val("v!" + k) for k in KEYS}


def fix_binary(st, en, binary):
    """the entry's data is binary, or text."""
    if binary:
        o = st.get(en.ref)
        e = dict(o.entries)
        e["data_enc"] = (True, "b")
        st.set(en.ref, ODict(e, o.others, o.unordered, o.tag))
        st.assume(en.data_enc == T.sv("b"))
        en.data_enc = T.sv("b")
    else:
        st.assume(T.mk_not(T.mk_eq(en.data_enc, T.sv("b"))))


class DecodeEncoded:
    """decode applied to what encode produced; pb, b1: binary primary / further bitmaps; maps of them."""

    def __init__(self, pb, b1, maps, deadline=None):
        solver.GROUPS = ("codec",)
        self.w = World(merge=True, lazy=True, deadline=deadline)
        w = self.w
        st = w.state()
        self.ents, self.defd, self.spec = make_spec(w, st)
        fix_binary(st, self.ents["p"], pb)
        fix_binary(st, self.ents["1"], b1)
        self.tm = Terms(self.ents, self.defd, maps)
        for c in self.tm.assume:
            st.assume(c)
        self.ex = ex = message_enc.Expected(self.tm)
        T.REWRITES.clear()
        self.lemmas = {"all": [], "proved": 0, "failed": 0, "done": set()}
        self.hyps = {}
        # contract of encode, by element: h, t, p, 1, 65, fields
        for i, (k, c, has) in enumerate(ex.fails):
            if k not in FIELDS:
                self.hyps.setdefault(k, []).append(T.mk_not(c))
        en = self.ents["t"].data_enc
        tb = T.mk_eq(en, T.sv("b"))
        self.hyps["t"] += [T.mk_eq(T.Len(ex.tdata), T.mk_ite(tb, z(2), z(4)))]
        self.texts = []
        for k, entry, binary in (("p", "p", pb), ("1", "1", b1), ("65", "1", b1))[:maps]:
            if not binary:
                e = self.ents[entry].data_enc
                ex.data[k] = T.t_enc(e, ex.hex[k])
                d = T.t_dec(e, ex.data[k])
                self.texts.append((k, e, d))
        self.lemma_texts = []
        for k, e, d in self.texts:
            self.lemma_texts.append((k, T.mk_and(T.t_dec_ok(e, ex.data[k]), T.mk_eq(d, ex.hex[k]), T.mk_eq(
                T.Len(ex.data[k]), z(16))), [T.t_known(e), T.t_enc_ok(e, ex.hex[k]), T.single_f(e)]))
            T.REWRITES[d.get_id()] = ex.hex[k]
        # the message
        self.rest = S("rest")
        L, D = self.tm.L, self.tm.D
        ps = [GP(ex.flag["h"], [L("h"), D("h")]), ex.tdata] + [ex.data[k] for k in ("p", "1", "65")[:maps]] + [self.rest]
        self.s = SSeq("bytes", ps)
        wd = {True: 8, False: 16}
        self.starts = {}
        at = T.mk_ite(ex.flag["h"], T.simp(T.Len(L("h")) + T.Len(D("h"))), z(0))
        at = T.simp(at + T.mk_ite(tb, z(2), z(4)) + wd[pb])
        for _ in range(maps - 1):
            at = T.simp(at + wd[b1])
        self.defs = {}
        self.start = {"h": z(0)}
        for k in FIELDS:
            if self.tm.has[k] is False:
                continue
            c = z3.Int("rt!" + k)
            self.defs[k] = (c == at,)
            self.start[k] = c
            at = T.mk_ite(self.tm.has[k], T.simp(c + T.Len(L(k)) + T.Len(D(k))), c)
        self.total = z3.Int("rt!end")
        self.defs["end"] = (self.total == at,)
        self.calls = []
        for k, ln in (("p", wd[pb]), ("1", wd[b1]), ("65", wd[b1]))[:maps]:
            T.known_len(ex.data[k], ln)
        for k in ("t", "p", "1"):
            for h in self.hyps.get(k, ()):
                st.assume(h)
        for k, g, _ in self.lemma_texts:
            st.assume(g)
        self.field_fn = w.fn(DEC, "_decode_field")
        self.roles = roles_of(self.field_fn, DEC_ROLES)
        w.e.contracts[DEC + ":_decode_field"] = self.contract
        self.st0 = st
        self.f = w.fn(DEC, "decode")
        self.outs = w.run(st.clone(), self.f, [self.s, self.spec])

    def text(self, key):
        return S("canonical!" + key)

    def contract(self, e, st, f, b):
        a = {self.roles[n]: v for n, v in b.items()}
        key = M.conc_key(e, st, a["key"])
        if not isinstance(key, str) or key not in self.start:
            raise Unsupported("field key %r" % (key,))
        idx = canon(self.lemmas, iterm(a["idx"]), self.start[key], self.defs.get(key, ()))
        L, D = self.tm.L(key), self.tm.D(key)

        def thunk(st):
            self.calls.append(Call(key, st.pc, idx=idx, s=a["s"], entry=a["entry"], dec=a["dec"], enc=a["enc"]))
            s1 = st.clone()
            e.setitem(s1, a["dec"], key, SSeq("str", [self.text(key)]))
            e.setitem(s1, a["enc"], key, s1.new(ODict({"len": (True, SSeq("bytes", [L])),
                                                       "data": (True, SSeq("bytes", [D]))})))
            return [Out("next", s1, mkint(T.simp(idx + T.Len(L) + T.Len(D))))]

        return e.call_outcomes(st, thunk)


def message_roundtrip_encode(ck, pb, b1, maps, deadline=None):
    """C01: decode accepts what encode produced and returns the same documents."""
    rt = DecodeEncoded(pb == "b", b1 == "b", maps, deadline)
    w, ex, tm = rt.w, rt.ex, rt.tm
    ck.functions |= w.e.trace_funcs
    tag = "roundtrip:C01:%s-%s-%d" % (pb, b1, maps)
    for k, g, hyps in rt.lemma_texts:
        ck.oblige("%s:bitmap-text:%s" % (tag, k), hyps, g)
    for c in rt.calls:
        n = "%s:call-of-_decode_field:%s" % (tag, c.key)
        ck.oblige(n + ":entry", c.pc, isinstance(c.entry, Ref) and c.entry.id == rt.ents[c.key].ref.id)
        ck.oblige(n + ":input", c.pc, same(c.s, rt.s))
        ck.oblige(n + ":position", [], c.idx.eq(rt.start[c.key]))
        ck.oblige_each(c.pc, [(n + ":present", ex.flag[c.key])])
    succ = 0
    for i, o in enumerate(rt.outs):
        n = "%s:path%d" % (tag, i)
        if o.kind != "next":
            x = raised(o)[1]
            key = x.attrs.get("field") if isinstance(x, OInst) else None
            rejected(ck, n, rt, o, key)
            continue
        succ += 1
        docs = returned_docs(_Wrap(rt), o)
        if docs is None:
            ck.oblige(n + ":returns-two-dictionaries", o.st.pc, False, lambda: describe(o))
            continue
        same_documents(ck, n, rt, o, docs)
    if not succ:
        ck.fail("roundtrip:reachable", "no successful path: the claim would hold vacuously")


class _Wrap:
    def __init__(self, rt):
        self.w = rt.w


def rejected(ck, n, rt, o, key):
    """decode does not reject the message."""
    pc, tm = [c for c in o.st.pc if not isinstance(c, bool)], rt.tm
    if isinstance(key, str) and key in FIELDS:
        # a field that is not in the specification: encode would not have accepted it
        d, h = tm.defd[key], tm.has[key]
        sy = solver.symbols(T.tb(d)) | solver.symbols(T.tb(h))
        sub = [c for c in pc if solver.symbols(c) <= sy]
        if solver.check(sub + [T.tb(T.mk_implies(h, d))])[0] == "unsat":
            ck.count(n + ":not-rejected")
            return
    # bytes left over: the end of the last field is the end of the message
    hyps = [T.mk_eq(T.Len(rt.rest), T.simp(rt.total - rt.start["2"]))] + list(rt.defs["2"]) + rt.hyps["t"][-1:] + [
        g for _, g, _ in rt.lemma_texts]
    for c in reversed(pc):
        a = c.arg(0) if z3.is_not(c) else c
        if not z3.is_app(a) or a.num_args() != 2 or a.arg(0).sort() != z3.IntSort():
            continue
        for x in a.children():
            rt.lemmas["failed"] = 0
            y = canon(rt.lemmas, x, rt.total, rt.defs["end"])
            if y.eq(rt.total):
                if solver.prove(hyps + ([x == y] if not x.eq(y) else []), T.mk_not(c), 5000):
                    ck.count(n + ":not-rejected")
                    return
    ck.oblige(n + ":not-rejected", pc, False, lambda: describe(o))


def same_documents(ck, n, rt, o, docs):
    pc, tm, ex = o.st.pc, rt.tm, rt.ex
    goals = []
    for nm, d in (("document", docs[0]), ("encoded", docs[1])):
        ck.oblige("%s:%s:no-other-keys" % (n, nm), pc, not d.others and set(d.entries) <= set(KEYS))
        for k in KEYS:
            g = d.entries.get(k, (False, None))[0]
            goals.append(("%s:%s:key:%s" % (n, nm, k), T.beq(g, ex.flag.get(k, False))))
    for k in KEYS:
        g, v = docs[0].entries.get(k, (False, None))
        p = part(o.st, docs[1], k) if docs[1].entries.get(k, (False, None))[0] is not False else None
        if k not in ex.flag or ex.flag[k] is False:
            continue
        f = ex.flag[k]
        if p is None or not is_strish(v):
            ck.oblige("%s:parts:%s" % (n, k), list(pc) + [T.tb(f)], False)
            continue
        lit0 = T.sv("")
        if k in ("h",) or k in FIELDS:
            want = (tm.L(k), tm.D(k), rt.text(k))
            gs = T.mk_and(T.mk_eq(sterm(p[0]), want[0]), T.mk_eq(sterm(p[1]), want[1]), T.mk_eq(sterm(v), want[2]))
        elif k == "t":
            en, val = rt.ents["t"].data_enc, tm.val["t"].t
            isb = T.mk_eq(en, T.sv("b"))
            gs = T.mk_and(T.mk_eq(sterm(p[0]), lit0), T.mk_eq(sterm(p[1]), ex.tdata),
                          T.mk_implies(isb, T.mk_eq(sterm(v), T.t_upper(val))),
                          T.mk_implies(T.mk_not(isb), T.mk_eq(sterm(v), val)))
        elif k == "p":
            gs = T.mk_and(T.mk_eq(sterm(p[0]), lit0), T.mk_eq(sterm(p[1]), ex.data["p"]), T.mk_eq(sterm(v), ex.hex["p"]))
        else:
            two = T.mk_and(T.mk_eq(sterm(p[0]), lit0), T.mk_eq(sterm(p[1]), ex.data["1"]), T.mk_eq(sterm(v), ex.hex["1"]))
            three = T.mk_and(T.mk_eq(sterm(p[0]), lit0),
                             T.mk_eq(sterm(p[1]), sterm(mkseq("bytes", ex.data["1"], ex.data["65"]))),
                             T.mk_eq(sterm(v), sterm(mkseq("str", ex.hex["1"], ex.hex["65"]))))
            q = list(pc) + [T.join_fact(ex.data["1"], ex.data["65"]), T.join_fact(ex.hex["1"], ex.hex["65"])]
            ck.oblige_each(q, [("%s:same:1" % n, three if ex.third else two)])
            continue
        goals.append(("%s:same:%s" % (n, k), T.mk_implies(f, gs)))
    ck.oblige_each(pc, goals, lambda: describe(o))


# ------------------------------------------------------------------ C02


class Sent(Terms):
    """the elements of an accepted message with `maps` bitmaps, of which the last that flags a field is `live`."""

    def __init__(self, ents, defd, maps, live):
        Terms.__init__(self, ents, defd, live)
        self.live = self.case
        self.case = (maps > 1, maps > 2)  # what the transmitted bitmaps announce


class EncodeDecoded:
    """encode applied to what decode returned; the elements are named as in DecodeEncoded."""

    def __init__(self, pb, b1, maps, live, deadline=None):
        solver.GROUPS = ("codec",)
        self.w = World(merge=True, lazy=True, deadline=deadline)
        w = self.w
        st = w.state()
        self.maps, self.live = maps, live
        self.ents, self.defd, self.spec = make_spec(w, st)
        st.get(self.spec).unordered = True
        fix_binary(st, self.ents["p"], pb)
        fix_binary(st, self.ents["1"], b1)
        T.REWRITES.clear()
        self.tm = tm = Sent(self.ents, self.defd, maps, live)
        self.sent = message_enc.Expected(tm)  # transmitted bitmaps
        tm.case = tm.live
        self.ex = message_enc.Expected(tm)  # what encode must produce
        hyps = list(tm.assume)
        # decode's contract: the type, the bitmaps, and fields that are defined
        en = self.ents["t"].data_enc
        tb = T.mk_eq(en, T.sv("b"))
        self.tdata = S("tx!t")
        hyps.append(T.mk_eq(T.Len(self.tdata), T.mk_ite(tb, z(2), z(4))))
        hyps.append(T.mk_implies(T.mk_not(tb), T.mk_and(T.t_known(en), T.t_dec_ok(en, self.tdata))))
        text = {"t": T.mk_ite(tb, T.t_upper(T.t_hexl(self.tdata)), T.t_dec(en, self.tdata))}
        self.tx, self.same = {}, []
        for k, entry, binary in (("p", "p", pb), ("1", "1", b1), ("65", "1", b1))[:maps]:
            if binary:
                self.tx[k], text[k] = self.sent.raw[k], self.sent.hex[k]
            else:
                e = self.ents[entry].data_enc
                self.ex.data[k] = T.t_enc(e, self.ex.hex[k])
                d = self.tx[k] = S("tx!" + k)
                x = text[k] = T.t_dec(e, d)
                h = [T.t_known(e), T.t_dec_ok(e, d), T.mk_eq(T.Len(d), z(16)), T.t_unhex_ok(x),
                     T.mk_eq(T.t_unhex(x), self.sent.raw[k]), T.single_f(e)]
                if live == maps:
                    self.same.append((k, h, T.mk_and(
                        T.mk_eq(T.t_upper(x), self.ex.hex[k]),
                        T.mk_implies(T.mk_eq(T.t_upper(x), x), T.mk_eq(self.ex.data[k], d)))))
                hyps += h
                # codecs of text bitmaps encode the hex digits
                hyps.append(T.t_enc_ok(e, self.ex.hex[k]))
        for k in FIELDS:
            if tm.has[k] is not False:
                hyps.append(T.mk_implies(tm.has[k], tm.defd[k]))
        # the decoded document
        doc = {"h": (self.ex.flag["h"], SSeq("str", [self.text("h")])), "t": (True, SSeq("str", [text["t"]])),
               "p": (True, SSeq("str", [text["p"]]))}
        if maps > 1:
            doc["1"] = (True, mkseq("str", *[text[k] for k in ("1", "65")[:maps - 1]]))
        for k in FIELDS:
            if tm.has[k] is not False:
                doc[k] = (tm.has[k], SSeq("str", [self.text(k)]))
        self.given = doc
        self.doc = st.new(ODict(doc, unordered=True, tag="doc"))
        for h in hyps:
            st.assume(h)
        self.calls = []
        self.field_fn = w.fn(ENC, "_encode_field")
        self.roles = roles_of(self.field_fn, ENC_ROLES)
        w.e.contracts[ENC + ":_encode_field"] = self.contract
        self.st0 = st
        self.f = w.fn(ENC, "encode")
        self.outs = w.run(st.clone(), self.f, [self.doc, self.spec])

    def text(self, key):
        return S("text!" + key)

    def contract(self, e, st, f, b):
        a = {self.roles[n]: e.force(st, v) for n, v in b.items()}
        key = M.conc_key(e, st, a["key"])
        if not isinstance(key, str) or key not in KEYS:
            raise Unsupported("field key %r" % (key,))

        def thunk(st):
            d = st.get(a["dec"]).entries.get(key) if isinstance(a["dec"], Ref) else None
            self.calls.append(Call(key, st.pc, entry=a["entry"], dec=a["dec"], enc=a["enc"], slot=d))
            s1 = st.clone()
            L, D = self.tm.L(key), self.tm.D(key)
            e.setitem(s1, a["enc"], key, s1.new(ODict({"len": (True, SSeq("bytes", [L])), "data": (True, SSeq("bytes", [D]))})))
            return [Out("next", s1, mkseq("bytes", L, D))]

        return e.call_outcomes(st, thunk)


def message_roundtrip_decode(ck, pb, b1, maps, live, deadline=None):
    """C02: encode accepts what decode returned and reproduces the message."""
    rt = EncodeDecoded(pb == "b", b1 == "b", maps, live, deadline)
    w, ex, tm = rt.w, rt.ex, rt.tm
    ck.functions |= w.e.trace_funcs
    tag = "roundtrip:C02:%s-%s-%d-%d" % (pb, b1, maps, live)
    for k, h, g in rt.same:
        ck.oblige("%s:bitmap-text:%s" % (tag, k), h + [T.t_enc_ok(rt.ents["p" if k == "p" else "1"].data_enc, ex.hex[k])], g)
    if live == maps:
        for k in ("p", "1", "65")[:maps]:
            ck.oblige("%s:bitmap:%s" % (tag, k), [], T.mk_eq(ex.raw[k], rt.sent.raw[k]))
    for c in rt.calls:
        n = "%s:call-of-_encode_field:%s" % (tag, c.key)
        ck.oblige(n + ":entry", c.pc, isinstance(c.entry, Ref) and c.entry.id == rt.ents[c.key].ref.id)
        ck.oblige(n + ":document", c.pc, isinstance(c.dec, Ref) and c.dec.id == rt.doc.id)
        v = c.slot
        good = v is not None and c.key in rt.given and same(v[1], rt.given[c.key][1])
        ck.oblige(n + ":value", c.pc, good)
        if good:
            ck.oblige_each(c.pc, [(n + ":present", T.tb(v[0]))])
    succ = 0
    for i, o in enumerate(rt.outs):
        n = "%s:path%d" % (tag, i)
        if o.kind != "next":
            accepted(ck, n, rt, o)
            continue
        succ += 1
        res = message_enc.returned(rt, o)
        if res is None:
            ck.oblige(n + ":returns-bytearray-and-dictionary", o.st.pc, False, lambda: describe(o))
            continue
        same_bytes(ck, n, rt, o, res)
    if not succ:
        ck.fail("roundtrip:reachable", "no successful path: the claim would hold vacuously")


def accepted(ck, n, rt, o):
    """encode does not reject the document."""
    pc, tm = [c for c in o.st.pc if not isinstance(c, bool)], rt.tm
    key = raised(o)[1].attrs.get("field")
    if isinstance(key, str) and key in FIELDS:
        sy = solver.symbols(T.tb(tm.defd[key])) | solver.symbols(T.tb(tm.has[key]))
        if solver.check([c for c in pc if solver.symbols(c) <= sy])[0] == "unsat":
            ck.count(n + ":not-rejected")
            return
    ck.oblige(n + ":not-rejected", pc, False, lambda: describe(o))


def same_bytes(ck, n, rt, o, res):
    """the bytes and parts are those of the message."""
    ex, tm, pc = rt.ex, rt.tm, o.st.pc
    s, d = res
    ck.oblige(n + ":no-other-keys", pc, not d.others and set(d.entries) <= set(KEYS))
    lit0 = T.sv("")
    goals, want = [], []
    for k in KEYS:
        f = ex.flag.get(k, False)
        g = d.entries.get(k, (False, None))[0]
        goals.append(("%s:listed:%s" % (n, k), T.beq(g, f)))
        if f is False:
            continue
        p = part(o.st, d, k)
        if p is None:
            ck.oblige("%s:parts:%s" % (n, k), list(pc) + [T.tb(f)], False)
            continue
        if k == "t":
            parts = [rt.tdata]
        elif k == "p":
            parts = [ex.data["p"]]
        elif k == "1":
            parts = [ex.data[q] for q in ("1", "65")[:rt.live - 1]]
        else:
            parts = [tm.L(k), tm.D(k)]
        want.append((f, parts))
        L, D = (lit0, parts) if k in ("t", "p", "1") else (parts[0], parts[1:])
        gs = T.mk_and(T.mk_eq(sterm(p[0]), L), T.mk_eq(sterm(p[1]), sterm(mkseq("bytes", *D))))
        q = list(pc) + [T.join_fact(*D)] if len(D) == 2 else pc
        if q is pc:
            goals.append(("%s:same:%s" % (n, k), T.mk_implies(f, gs)))
        else:
            ck.oblige_each(q, [("%s:same:%s" % (n, k), gs)])
    ck.oblige_each(pc, goals, lambda: describe(o))
    message_enc.rope_obligations(ck, n, pc, ba_seq(s), want)
