"""Whole messages: decode and encode of /repo, executed for arbitrary input, every specification
and all 190 fields at once.  The field functions are represented by their contracts (vc/field.py
proves those on their bodies); header, type and bitmap code is executed."""
import z3

from pyvc import models as M
from pyvc import solver
from pyvc import terms as T
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import Other, Out, Unsupported

from .core import dict_entries, int_eq, obj_eq, seq_eq, val_eq, val_eq2
from .field import DEC, DEC_ROLES, ENC, ENC_ROLES, enc_parts, lookup, roles_of, text_of_error, unmodified
from .world import KEYS, NUMS, S, Entry, World, bytes_val, describe, raised, str_val

ORDER = KEYS  # h, t, p, 1 .. 192: message order
FIELDS = [str(i) for i in range(2, 193) if i != 65]  # those that are sent as fields
B, I = z3.BoolSort(), z3.IntSort()


def uf(name, *sorts):
    return z3.Function(name, *sorts)


class Call:
    """one call of a field function."""

    def __init__(self, key, pc, **kw):
        self.key, self.pc = key, pc
        self.__dict__.update(kw)


def make_spec(w, st, numeric=None):
    """an arbitrary well-formed specification: h, t, p, 1 and any of the other fields."""
    ents = {k: Entry(st, "f" + k) for k in KEYS}
    defd = {k: True if k in ("h", "t", "p", "1") else z3.Bool("def!" + k) for k in KEYS}
    ref = st.new(ODict({k: (defd[k], ents[k].ref) for k in KEYS}, tag="spec"))
    for k in ("t", "p", "1"):
        st.assume(T.single_f(ents[k].data_enc))
    return ents, defd, ref


def canon(lemmas, x, want, defs):
    """want if x == want holds outright (given the definitions and the equalities proved before), else x."""
    if x.eq(want) or x.get_id() in lemmas["done"]:
        return want
    if lemmas["failed"] > 3:
        return x
    s = z3.Solver()
    s.set("timeout", 3000)
    for d in defs:
        s.add(d)
    for t in lemmas["all"][-3:]:
        s.add(t)
    s.add(x != want)
    if s.check() == z3.unsat:
        if not z3.is_const(x):
            T.fact(x, x == want)
        lemmas["all"].append(x == want)
        lemmas["proved"] += 1
        lemmas["done"].add(x.get_id())
        return want
    lemmas["failed"] += 1
    return x


class DecodeMessage:
    def __init__(self, kind="bytes", deadline=None, groups=()):
        solver.GROUPS = groups
        self.w = World(merge=True, lazy=True, deadline=deadline)
        w = self.w
        st = w.state()
        self.kind = kind
        self.ents, self.defd, self.spec = make_spec(w, st)
        self.seq = bytes_val("s")
        self.s = w.argument(self.seq if kind == "bytes" else st.new(OBytearray(self.seq)))
        self.calls = []
        self.at_syms = None
        self.lemmas = {"all": [], "proved": 0, "failed": 0, "done": set()}
        self.field_fn = w.fn(DEC, "_decode_field")
        self.roles = roles_of(self.field_fn, DEC_ROLES)
        self.err = w.cls(DEC, "DecodeError")
        w.e.contracts[DEC + ":_decode_field"] = self.contract
        self.ex = Expected(self)
        self.after = {}
        self.st0 = st
        self.f = w.fn(DEC, "decode")
        MERGE_INT[0] = self.name_position
        try:
            self.outs = w.run(st.clone(), self.f, [self.s, self.spec])
        finally:
            MERGE_INT[0] = None

    def name_position(self, t):
        """the name of the position after an element, for the term a join made of it."""
        if not z3.is_app_of(t, z3.Z3_OP_ITE):
            return t
        k = self.after.get(t.arg(1).get_id()) or self.after.get(t.arg(2).get_id())
        if k is None:
            return t
        want = self.ex.total if k == "end" else self.ex.start[k]
        return canon(self.lemmas, t, want, self.ex.defs[k])

    def U(self, what, key):
        sort = {"ok": B, "n": I, "l": I, "epos": I, "text": T.S, "etext": T.S, "eL": T.S, "eD": T.S}[what]
        return uf("DF_%s!%s" % (what, key), I, sort)

    def contract(self, e, st, f, b):
        a = {self.roles[n]: e.force(st, v) for n, v in b.items()}
        key = M.conc_key(e, st, a["key"])
        if not isinstance(key, str):
            raise Unsupported("field key %r" % (key,))
        idx = iterm(a["idx"])
        if key in self.ex.start:
            idx = canon(self.lemmas, idx, self.ex.start[key], self.ex.defs.get(key, ()))

        for x in ("n", "l"):
            T.NONNEG_DECLS.add(self.U(x, key)(idx).decl().get_id())

        def thunk(st):
            self.calls.append(Call(key, st.pc, idx=idx, s=a["s"], entry=a["entry"], dec=a["dec"], enc=a["enc"]))
            ok, n, l = (self.U(x, key)(idx) for x in ("ok", "n", "l"))
            # the contract says nothing of n and l where the field is rejected: any value serves there
            T.fact(n, T.mk_and(l >= 0, n >= l))
            s1 = st.clone()
            s1.assume(ok)
            for c in (l >= 0, n >= l, idx + n <= T.Len(self.seq.t)):
                s1.assume(c)
            L = mkseq("bytes", T.t_sub(self.seq.t, idx, l))
            D = mkseq("bytes", T.t_sub(self.seq.t, T.simp(idx + l), T.simp(n - l)))
            self.put(e, s1, a, key, L, D, SSeq("str", [self.U("text", key)(idx)]))
            s2 = st.clone()
            s2.assume(T.mk_not(ok))
            self.put(e, s2, a, key, SSeq("bytes", [self.U("eL", key)(idx)]), SSeq("bytes", [self.U("eD", key)(idx)]),
                     SSeq("str", [self.U("etext", key)(idx)]))
            pos = SInt(self.U("epos", key)(idx))
            msg = str_val("DF_msg!" + key)
            x = s2.new(OInst(self.err, {"msg": msg, "s": a["s"], "doc_dec": a["dec"], "doc_enc": a["enc"], "pos": pos,
                                        "field": key}, (text_of_error(msg, key, pos),)))
            end = T.simp(idx + n)
            if key in FIELDS:
                i = FIELDS.index(key) + 1
                self.after[end.get_id()] = FIELDS[i] if i < len(FIELDS) else "end"
                T._keep.append(end)
            return [Out("next", s1, mkint(end)), Out("raise", s2, x)]

        return e.call_outcomes(st, thunk)

    def put(self, e, st, a, key, L, D, text):
        e.setitem(st, a["dec"], key, text)
        e.setitem(st, a["enc"], key, st.new(ODict({"len": (True, L), "data": (True, D)})))


# ------------------------------------------------------------------ what the properties say, as terms


class Expected:
    """The elements of a message in order: whether each is present, where it starts, what it is,
    and the condition under which it is the first that cannot be decoded.  Built from the input
    and the specification alone (and the field contracts), not from what the code did."""

    def __init__(self, dm):
        s, ents = dm.seq.t, dm.ents
        b = T.sv("b")
        self.flag, self.start, self.end = {}, {}, {}
        self.data, self.text, self.fails = {}, {}, []  # fails: (field, condition, position, has entries)
        z = z3.IntVal

        def width(k, binary, text):
            return T.mk_ite(T.mk_eq(ents[k].data_enc, b), z(binary), z(text))

        def fixed(key, at, w, entry):
            """a part of fixed width: data, text, failure."""
            enc = ents[entry].data_enc
            isb = T.mk_eq(enc, b)
            d = T.t_sub(s, at, w)
            short = T.mk_not(T.mk_eq(T.Len(d), w))
            txt_ok = T.mk_or(T.mk_eq(d, T.sv("")), T.mk_and(T.t_known(enc), T.t_dec_ok(enc, d)))
            txt = T.mk_ite(isb, T.t_upper(T.t_hexl(d)), T.t_dec(enc, d))
            return d, isb, enc, short, txt_ok, txt

        self.defs = {}
        hdr = T.mk_not(M.canon_cmp(z(0) >= ents["h"].max_len))
        self.flag["h"], self.start["h"] = hdr, z(0)
        n = dm.U("n", "h")(z(0))
        self.fails.append(("h", T.mk_and(hdr, T.mk_not(dm.U("ok", "h")(z(0)))), dm.U("epos", "h")(z(0)), True))
        at = T.mk_ite(hdr, n, z(0))
        self.end["h"] = at
        # message type
        w = width("t", 2, 4)
        d, isb, enc, short, tok, txt = fixed("t", at, w, "t")
        self.flag["t"], self.start["t"], self.data["t"], self.text["t"] = True, at, d, txt
        self.fails.append(("t", T.mk_or(short, T.mk_and(T.mk_not(isb), T.mk_not(tok))), at, True))
        at = T.simp(at + w)
        self.end["t"] = at
        # bitmaps

        def bitmap(key, at, entry):
            w = width(entry, 8, 16)
            d, isb, enc, short, tok, txt = fixed(key, at, w, entry)
            tx = T.t_dec(enc, d)
            bad = T.mk_and(T.mk_not(isb), T.mk_not(T.mk_and(tok, T.t_unhex_ok(tx))))
            raw = T.mk_ite(isb, d, T.t_unhex(tx))
            T.known_len(raw, 8)
            bits = [self.bit(raw, isb, d, tx, i) for i in range(64)]
            return w, d, txt, T.mk_or(short, bad), bits

        w, d, txt, bad, bits = bitmap("p", at, "p")
        self.wp = w
        self.flag["p"], self.start["p"], self.data["p"], self.text["p"] = True, at, d, txt
        self.fails.append(("p", bad, at, True))
        at = T.simp(at + w)
        self.end["p"] = at
        for i in range(1, 64):
            self.flag[str(i + 1)] = bits[i]
        sec = bits[0]
        self.flag["1"], self.start["1"] = sec, at
        w1, d1, tx1, bad, bits = bitmap("1", at, "1")
        self.fails.append(("1", T.mk_and(sec, bad), at, True))
        third = T.mk_and(sec, bits[0])
        for i in range(1, 64):
            self.flag[str(65 + i)] = T.mk_and(sec, bits[i])
        at1 = T.simp(at + w1)
        w2, d2, tx2, bad, bits = bitmap("1", at1, "1")
        self.fails.append(("1", T.mk_and(third, bad), at1, True))
        for i in range(0, 64):
            self.flag[str(129 + i)] = T.mk_and(third, bits[i])
        self.third, self.w1 = third, w1
        ln = T.Len(s)
        self.place = {"bitmaps": T.mk_and(at <= ln, T.mk_implies(sec, T.simp(at + w1) <= ln),
                                          T.mk_implies(third, T.simp(at1 + w1) <= ln))}
        self.first, self.second = (d1, tx1), (d2, tx2)
        at2 = T.simp(at1 + w1)
        at = T.mk_ite(third, at2, T.mk_ite(sec, at1, at))
        self.end["1"] = at
        self.last = T.mk_ite(sec, T.sv("1"), T.sv("p"))
        for k in FIELDS:
            f = self.flag[k]
            c = z3.Int("at!" + k)
            self.defs[k] = (c == at,)
            at = self.start[k] = c
            ok, n, epos = (dm.U(x, k)(at) for x in ("ok", "n", "epos"))
            self.fails.append((k, T.mk_and(f, T.mk_not(dm.defd[k])), at, False))
            self.fails.append((k, T.mk_and(f, dm.defd[k], T.mk_not(ok)), epos, True))
            at = T.mk_ite(f, T.simp(at + n), at)
            self.end[k] = at
            self.last = T.mk_ite(f, T.sv(k), self.last)
        self.acc = {}  # what the contract of an accepted element says about its place
        for k in ["h"] + FIELDS:
            a0, n0, l0 = self.start[k], dm.U("n", k)(self.start[k]), dm.U("l", k)(self.start[k])
            self.acc[k] = T.mk_implies(self.flag[k], T.mk_and(l0 >= 0, n0 >= l0, a0 + n0 <= T.Len(s)))
        c = z3.Int("at!end")
        self.defs["end"] = (c == at,)
        at = self.total = c
        self.extra = T.mk_not(T.mk_eq(at, T.Len(s)))

    @staticmethod
    def bit(raw, isb, d, tx, i):
        """bit i (from the left) of a bitmap."""
        return T.tb(T.t_sbit(raw, i // 8, 7 - i % 8))


def decode_message(prop, ck, dm):
    """obligations of one property over all outcomes of decode."""
    w, ex = dm.w, dm.ex
    ck.functions |= w.e.trace_funcs
    succ = [o for o in dm.outs if o.kind == "next"]
    if not succ:
        ck.fail("decode:reachable", "no successful path: the contract would hold vacuously")
    base(dm, ())
    if prop in ("C04", "C06", "C08", "C09", "C10", "C13"):
        decode_calls(ck, prop, dm)
    for i, o in enumerate(dm.outs):
        n = "decode:%s:path%d" % (prop, i)
        if o.kind == "next":
            docs = returned_docs(dm, o)
            if docs is None:
                ck.oblige(n + ":returns-two-dictionaries", o.st.pc, False, lambda: describe(o))
                continue
            if prop == "C04":
                decode_partition(ck, n, dm, o, docs)
            elif prop == "C06":
                decode_keys(ck, n, dm, o, docs)
            elif prop == "C08":
                decode_lengths(ck, n, dm, o, docs)
            elif prop == "C10":
                D = part(o.st, docs[1], "t")
                v = docs[0].entries.get("t", (False, None))[1]
                en = dm.ents["t"]
                ck.oblige(n + ":type-image", o.st.pc, D is not None and is_strish(v) and image_cond(
                    en.data_enc, D[1], v))
                decode_values(ck, n, dm, o, docs)
            elif prop == "accepts":
                ck.oblige_each(o.st.pc, split_base(ck, dm, o.st.pc, [
                    ("%s:accepted:%s:%d" % (n, q[0], j), T.mk_not(q[1])) for j, q in enumerate(ex.fails)]))
            elif prop == "C16":
                decode_fresh(ck, n, dm, o, docs)
            elif prop == "C11":
                ck.oblige(n + ":result", o.st.pc, True)
        elif prop == "C11":
            ck.oblige(n + ":raises-DecodeError", o.st.pc, w.e.subclass(raised(o)[0], dm.err), lambda: describe(o))
        elif prop in ("C08", "C13"):
            decode_failure(ck, prop, n, dm, o)
        if prop == "C16":
            message_frame(ck, n, dm, o, [dm.spec] + [e.ref for e in dm.ents.values()] + (
                [dm.s] if isinstance(dm.s, Ref) else []))
        if prop == "C17":
            ck.oblige(n + ":no-global-state", o.st.pc, globals_unchanged(dm, o.st))


def globals_unchanged(dm, st):
    base = dm.st0
    for m in dm.w.e.modules.values():
        if m.fid is None:
            continue
        x, y = base.frames.get(m.fid), st.frames.get(m.fid)
        if x is not y and (set(x) != set(y) or not all(same(x[k], y[k]) for k in x)):
            return False
    for i, ob in dm.w.base.heap.items():
        if st.heap.get(i) is not ob and not osame(st.heap[i], ob):
            return False
    return True


def message_frame(ck, n, dm, o, refs):
    bad = [r for r in refs if not unmodified(dm.st0, o.st, r)]
    ck.oblige(n + ":arguments-unmodified", o.st.pc, not bad)
    ck.oblige(n + ":no-global-state", o.st.pc, globals_unchanged(dm, o.st))


def returned_docs(dm, o):
    v = o.val
    if not isinstance(v, tuple) or len(v) != 2 or not all(isinstance(x, Ref) for x in v):
        return None
    d, e = o.st.get(v[0]), o.st.get(v[1])
    if not isinstance(d, ODict) or not isinstance(e, ODict):
        return None
    return d, e


def part(st, enc, key):
    """(L, D) of an element of the dictionary of encoded parts."""
    e = enc.entries.get(key)
    if e is None or not isinstance(e[1], Ref):
        return None
    p = dict_entries(st, e[1])
    if p is None or set(p.entries) != {"len", "data"} or p.others:
        return None
    if any(g is not True for g, _ in p.entries.values()):
        return None
    L, D = p.entries["len"][1], p.entries["data"][1]
    if not is_bytesish(L) or not is_bytesish(D):
        return None
    return L, D


def image_cond(enc, D, v):
    b = T.mk_eq(enc, T.sv("b"))
    return T.mk_and(
        T.mk_implies(b, seq_eq(v, mkseq("str", T.t_upper(T.t_hexl(sterm(D)))))),
        T.mk_implies(T.mk_not(b), T.mk_and(T.t_known(enc), T.t_dec_ok(enc, sterm(D)),
                                           T.mk_eq(sterm(v), T.t_dec(enc, sterm(D))))))


def decode_calls(ck, prop, dm):
    """every call of _decode_field meets its precondition."""
    lemma = prop in ("C04", "C13")
    if lemma:
        position_lemmas(ck, "decode:%s:position-lemma" % prop, dm)
    for j, c in enumerate(dm.calls):
        n = "decode:%s:call-of-_decode_field:%s" % (prop, c.key)
        ck.oblige(n + ":entry", c.pc, isinstance(c.entry, Ref) and c.key in dm.ents
                  and c.entry.id == dm.ents[c.key].ref.id)
        ck.oblige(n + ":input", c.pc, same(c.s, dm.s))
        if lemma:
            # 0 <= idx <= len(s): by the position lemma, whose premises hold here
            pre = premises(dm, c.key)
            if pre is None or not c.idx.eq(dm.ex.start[c.key]):
                ck.oblige(n + ":position", c.pc, T.mk_and(c.idx >= 0, c.idx <= T.Len(dm.seq.t)))
            else:
                bs = base(dm, c.pc)
                for k, g in pre:
                    if k in ("h", "bitmaps"):
                        ck.oblige(n + ":position:" + k, bs, g)
                ck.oblige_each(c.pc, [(n + ":position:" + k, g) for k, g in pre if k not in ("h", "bitmaps")])


def premises(dm, key):
    """premises of the position lemma for an element: what precedes it was accepted and lies in the input."""
    ex = dm.ex
    if key not in ex.start:
        return None
    out = [("h", ex.acc["h"])] if key != "h" else []
    if key in FIELDS or key == "end":
        out += [("bitmaps", ex.place["bitmaps"])]
        out += [(k, ex.acc[k]) for k in FIELDS[:FIELDS.index(key) if key in FIELDS else len(FIELDS)]]
    return out


def position_lemmas(ck, n, dm):
    """0 <= position <= len(s) for every element, by induction over the elements."""
    ex, ln = dm.ex, T.Len(dm.seq.t)
    inv = lambda t: T.mk_and(t >= 0, t <= ln)  # noqa: E731
    ck.oblige_local(n + ":2", list(ex.defs["2"]) + [ex.acc["h"], ex.place["bitmaps"]], inv(ex.start["2"]))
    for i, k in enumerate(FIELDS):
        nx = FIELDS[i + 1] if i + 1 < len(FIELDS) else "end"
        t = ex.start[nx] if nx != "end" else ex.total
        ck.oblige_local(n + ":" + nx, list(ex.defs[nx]) + [inv(ex.start[k]), ex.acc[k]], inv(t))


def decode_partition(ck, n, dm, o, docs):
    """C04: the parts, in message order, are consecutive pieces of the input and exhaust it."""
    ex, pc = dm.ex, list(o.st.pc)
    s = dm.seq.t
    at = z3.IntVal(0)
    goals = []
    for k in ORDER:
        g, r = docs[1].entries.get(k, (False, None))
        if g is False:
            if k in ex.flag:
                goals.append((n + ":" + k, T.mk_not(ex.flag[k])))
            continue
        p = part(o.st, docs[1], k)
        if p is None:
            ck.oblige(n + ":parts-recorded:" + k, pc + [T.tb(g)], False)
            continue
        t = pterm_cat(p)
        if k == "1":
            two, three = T.t_sub(s, ex.start["1"], ex.w1), T.t_sub(s, ex.start["1"], T.simp(2 * ex.w1))
            bs = base(dm, pc)
            ck.oblige(n + ":start:1", bs, T.mk_eq(at, ex.start["1"]))
            for nm, c, q in (("two", T.mk_not(ex.third), two), ("three", ex.third, three)):
                ck.oblige(n + ":consecutive:1:" + nm, bs + [T.tb(g), T.tb(c), T.join_fact(ex.first[0], ex.second[0])], T.mk_and(
                    seq_eq(p[0], b""), T.mk_eq(sterm(p[1]), q)))
            w = T.mk_ite(ex.third, T.simp(2 * ex.w1), ex.w1)
            nxt = T.mk_ite(g, ex.start["1"] + w, ex.start["1"])
            ck.oblige(n + ":position-after:1", list(ex.defs["2"]), nxt == ex.start["2"])
            at = ex.start["2"]
            continue
        ln = T.simp(T.Len(sterm(p[0])) + T.Len(sterm(p[1])))
        goals.append((n + ":consecutive:" + k, T.mk_implies(g, T.mk_eq(t, T.t_sub(s, at, ln)))))
        nxt = T.mk_ite(g, T.simp(at + ln), at)
        # the position after this element, by its specified name
        c = None
        if k in FIELDS:
            i = FIELDS.index(k)
            c = FIELDS[i + 1] if i + 1 < len(FIELDS) else "end"
        if c is not None:
            name = ex.start.get(c, ex.total) if c != "end" else ex.total
            goals.append((n + ":position-after:" + k, ("lemma", nxt == name, ex.defs[c])))
            at = name
        else:
            at = nxt
    acc = [("%s:accepted:%s" % (n, k), ex.acc[k]) for k in ["h"] + FIELDS] + [
        (n + ":bitmaps-in-input", ex.place["bitmaps"])]
    ck.oblige_each(pc, acc[:-1])
    ck.oblige(acc[-1][0], base(dm, pc), acc[-1][1])
    for nm, g in goals:
        if isinstance(g, tuple):
            ck.oblige_local(nm, lemma_for(ex, nm) + list(g[2]), g[1])
        else:
            if nm.rsplit(":", 1)[1] in ("h", "t", "p", "1"):
                ck.oblige(nm, base(dm, pc), g)
            else:
                ck.oblige_local(nm, lemma_for(ex, nm), g)
    goal = T.mk_eq(at, T.Len(s))
    for hyps in total_lemma(dm, pc):
        # the end lies in the input: position lemma, its premises are the obligations "accepted" above
        if solver.prove(hyps + [ex.total >= 0, ex.total <= T.Len(s)], goal, 1000):
            ck.count(n + ":nothing-left-over")
            break
    else:
        ck.oblige(n + ":nothing-left-over", pc, goal)


def total_lemma(dm, pc):
    """conjuncts about the end of the last element, with the proof that the position meant is that end."""
    ln = T.Len(dm.seq.t)
    tot = dm.ex.total.decl().get_id()
    out = []
    for c in pc:
        if not is_z3(c):
            continue
        sy = solver.symbols(c)
        if tot in sy and len(sy) < 20:
            out.append([c])
        a = c.arg(0) if z3.is_not(c) else c
        if z3.is_app(a) and a.num_args() == 2 and a.arg(0).sort() == I and (a.arg(0).eq(ln) or a.arg(1).eq(ln)):
            x = a.arg(1) if a.arg(0).eq(ln) else a.arg(0)
            if len(solver.symbols(x)) > 20 and canon(
                    dm.lemmas, x, dm.ex.total, dm.ex.defs["end"]).eq(dm.ex.total):
                out.append([c, x == dm.ex.total])
    return out


def base(dm, pc):
    """the conjuncts of a path condition that are about the header, the type and the bitmaps."""
    if dm.at_syms is None:
        dm.at_syms = set()
        for k in FIELDS:
            for f in (dm.ex.start[k], dm.U("ok", k)(z3.IntVal(0)), dm.U("n", k)(z3.IntVal(0))):
                dm.at_syms.add(f.decl().get_id())
            if is_z3(dm.defd[k]):
                dm.at_syms.add(dm.defd[k].decl().get_id())
    return [c for c in pc if is_z3(c) and not (solver.symbols(c) & dm.at_syms)]


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def lemma_for(ex, name):
    k = name.rsplit(":", 1)[1]
    if k in FIELDS:
        return [ex.acc[k], ex.start[k] >= 0]
    return [ex.acc["h"], ex.place["bitmaps"]]


def pc_for(pc, extra):
    return list(pc) + list(extra)


def pterm_cat(p):
    return sterm(mkseq("bytes", sterm(p[0]), sterm(p[1])))


def decode_keys(ck, n, dm, o, docs):
    """C06"""
    ex, pc = dm.ex, o.st.pc
    goals = []
    for nm, d in (("document", docs[0]), ("encoded", docs[1])):
        ck.oblige("%s:%s:no-other-keys" % (n, nm), pc, not d.others and set(d.entries) <= set(KEYS))
        for k in KEYS:
            g = d.entries.get(k, (False, None))[0]
            f = ex.flag.get(k, False)
            goals.append(("%s:%s:key:%s" % (n, nm, k), T.beq(g, f)))
    ck.oblige_each(pc, split_base(ck, dm, pc, goals))
    # bitmap entries are the transmitted bitmaps
    p = part(o.st, docs[1], "p")
    v = docs[0].entries.get("p", (False, None))[1]
    ck.oblige(n + ":p:data", pc, p is not None and seq_eq(p[1], mkseq("bytes", ex.data["p"])))
    ck.oblige(n + ":p:len", pc, p is not None and seq_eq(p[0], b""))
    ck.oblige(n + ":p:text", pc, is_strish(v) and seq_eq(v, mkseq("str", ex.text["p"])))
    g = docs[1].entries.get("1", (False, None))[0]
    if g is False:
        return
    p = part(o.st, docs[1], "1")
    v = docs[0].entries.get("1", (False, None))[1]
    q1 = list(pc) + [T.tb(ex.flag["1"])]
    for nm, q, d, t in (("two", q1 + [T.tb(T.mk_not(ex.third))], [ex.first[0]], [ex.first[1]]),
                        ("three", q1 + [T.tb(ex.third)], [ex.first[0], ex.second[0]], [ex.first[1], ex.second[1]])):
        q = q + [T.join_fact(ex.first[0], ex.second[0]), T.join_fact(ex.first[1], ex.second[1])]
        ck.oblige("%s:1:%s:data" % (n, nm), q, p is not None and seq_eq(p[1], mkseq("bytes", *d)))
        ck.oblige("%s:1:%s:len" % (n, nm), q, p is not None and seq_eq(p[0], b""))
        ck.oblige("%s:1:%s:text" % (n, nm), q, is_strish(v) and seq_eq(v, mkseq("str", *t)))


def decode_lengths(ck, n, dm, o, docs):
    """C08 at the message level: every flagged field was accepted by its contract and keeps its parts."""
    ex, pc = dm.ex, o.st.pc
    goals = []
    for k in ["h"] + FIELDS:
        at = ex.start[k]
        acc = dm.U("ok", k)(at)
        goals.append(("%s:accepted:%s" % (n, k), T.mk_implies(ex.flag[k], acc)))
        g = docs[1].entries.get(k, (False, None))[0]
        p = part(o.st, docs[1], k) if g is not False else None
        if p is None:
            goals.append(("%s:parts:%s" % (n, k), T.mk_not(ex.flag[k])))
            continue
        l, m = dm.U("l", k)(at), dm.U("n", k)(at)
        L = T.t_sub(dm.seq.t, at, l)
        D = T.t_sub(dm.seq.t, T.simp(at + l), T.simp(m - l))
        goals.append(("%s:parts:%s" % (n, k), T.mk_implies(ex.flag[k], T.mk_and(
            T.mk_eq(sterm(p[0]), L), T.mk_eq(sterm(p[1]), D)))))
    for k, wd in (("t", (2, 4)),):
        p = part(o.st, docs[1], k)
        isb = T.mk_eq(dm.ents[k].data_enc, T.sv("b"))
        goals.append(("%s:%s-size" % (n, k), p is not None and T.mk_and(
            T.mk_eq(sterm(p[0]), T.sv("")),
            T.mk_eq(T.Len(sterm(p[1])), T.mk_ite(isb, z3.IntVal(wd[0]), z3.IntVal(wd[1]))))))
    ck.oblige_each(pc, split_base(ck, dm, pc, goals))


def decode_values(ck, n, dm, o, docs):
    """C10 at the message level: the value of a field is the one its contract gives."""
    ex = dm.ex
    goals = []
    for k in ["h"] + FIELDS:
        g, v = docs[0].entries.get(k, (False, None))
        t = dm.U("text", k)(ex.start[k])
        goals.append(("%s:value:%s" % (n, k), T.mk_implies(g, is_strish(v) and T.mk_eq(sterm(v), t))))
    ck.oblige_each(o.st.pc, split_base(ck, dm, o.st.pc, goals))


def decode_fresh(ck, n, dm, o, docs):
    """C16: new dictionaries of str and of {len, data} of bytes, nothing shared."""
    old = dm.st0.heap
    ids = [o.val[0].id, o.val[1].id]
    good = all(i not in old for i in ids)
    ck.oblige(n + ":fresh-dictionaries", o.st.pc, good and ids[0] != ids[1])
    for k, (g, v) in docs[0].entries.items():
        ck.oblige("%s:value-is-str:%s" % (n, k), o.st.pc, is_strish(v))
    for k, (g, v) in docs[1].entries.items():
        p = part(o.st, docs[1], k)
        ok = p is not None and docs[1].entries[k][1].id not in old
        if ok:
            ids.append(docs[1].entries[k][1].id)
        ck.oblige("%s:parts-are-new:%s" % (n, k), o.st.pc, ok)
    ck.oblige(n + ":parts-not-shared", o.st.pc, len(set(ids)) == len(ids))


def decode_failure(ck, prop, n, dm, o):
    """C13 (and the rejection half of C08): what was raised is the first element that cannot be decoded."""
    ex, pc = dm.ex, o.st.pc
    c, x = raised(o)
    if not dm.w.e.subclass(c, dm.err):
        return  # C11
    f, pos = x.attrs.get("field"), x.attrs.get("pos")
    det = lambda: describe(o)  # noqa: E731
    if not is_strish(f):
        ck.oblige(n + ":field", pc, False, lambda: describe(o))
        return
    ix = solver.Index(pc)
    bs = None
    for i, (k, cond, at, has) in enumerate(ex.fails):
        if isinstance(f, str) and k != f:
            continue
        if k in FIELDS:
            if isinstance(f, str) and ix.quick(cond):
                break
        else:
            bs = base(dm, pc) if bs is None else bs
            if solver.prove(bs, cond):
                break
    else:
        # nothing is wrong with any element: bytes must be left over after the last one
        goals = [("%s:no-other-error:%d" % (n, i), T.mk_not(q[1])) for i, q in enumerate(ex.fails)]
        goals = split_base(ck, dm, pc, goals)
        ck.oblige_each(pc, goals, det)
        hyps = total_lemma(dm, pc)
        ck.oblige_from(n + ":is-an-error", hyps, pc, ex.extra, det)
        if prop == "C13":
            ck.oblige(n + ":field", [], T.mk_eq(sterm(f), ex.last), lambda: describe(o))
            q = canon(dm.lemmas, iterm(pos), ex.total, ex.defs["end"]) if is_intish(pos) else None
            ck.oblige(n + ":pos", [], q is not None and q.eq(ex.total), lambda: describe(o))
            decode_partial(ck, n, dm, o, x, None, True, dict(ex.flag))
        return
    if prop == "C08":
        ck.oblige(n + ":is-an-error", pc, True)
        return
    if not isinstance(f, str):
        ck.oblige(n + ":field", bs, T.mk_eq(sterm(f), T.sv(k)), lambda: describe(o))
    goals = [("%s:no-earlier-error:%d" % (n, j), T.mk_not(q[1])) for j, q in enumerate(ex.fails[:i])]
    ck.oblige_each(pc, split_base(ck, dm, pc, goals), det)
    ck.oblige(n + ":pos", bs if bs is not None else [], is_intish(pos) and T.mk_eq(T.simp(iterm(pos)), at), det)
    want = {}
    for q in ORDER:
        if q == k:
            break
        if q in ex.flag:
            want[q] = ex.flag[q]
    decode_partial(ck, n, dm, o, x, k, has, want)


def split_base(ck, dm, pc, goals):
    """discharges the goals about header, type and bitmaps; returns the others."""
    bs = base(dm, pc)
    rest = []
    for nm, g in goals:
        if g is True or g is False or solver.symbols(g) & dm.at_syms:
            rest.append((nm, g))
        else:
            ck.oblige(nm, bs, g)
    return rest


def decode_partial(ck, n, dm, o, x, key, has, want):
    """the partial documents of an error."""
    ex, pc = dm.ex, o.st.pc
    a = x.attrs
    ck.oblige(n + ":carries-input", pc, same(a.get("s"), dm.s))
    good = is_strish(a.get("msg")) and is_intish(a.get("pos")) and is_strish(a.get("field"))
    ck.oblige(n + ":text", pc, good and len(x.args or ()) == 1 and is_strish(x.args[0]) and seq_eq(
        x.args[0], text_of_error(a["msg"], a["field"], a["pos"])))
    if key is not None and has:
        want = dict(want)
        want[key] = True
    goals = []
    for nm in ("doc_dec", "doc_enc"):
        d = o.st.get(a[nm]) if isinstance(a.get(nm), Ref) else None
        if not isinstance(d, ODict):
            ck.oblige("%s:%s" % (n, nm), pc, False)
            continue
        ck.oblige("%s:%s:no-other-keys" % (n, nm), pc, not d.others and set(d.entries) <= set(KEYS))
        for k in KEYS:
            g = d.entries.get(k, (False, None))[0]
            q = T.beq(g, want.get(k, False))
            if q is not True:
                goals.append(("%s:%s:element:%s" % (n, nm, k), q))
        for k in want:
            if k == key or want[k] is False:
                continue
            e = d.entries.get(k)
            if e is not None:
                goals.append(("%s:%s:value:%s" % (n, nm, k), T.mk_implies(want[k], expected_value(dm, o.st, nm, k, e[1]))))
    ck.oblige_each(pc, split_base(ck, dm, pc, goals), lambda: describe(o))


def expected_value(dm, st, nm, k, v):
    """the entry of element k is what a successful decode gives."""
    ex, s = dm.ex, dm.seq.t
    if nm == "doc_dec":
        if not is_strish(v):
            return False
        if k in ("t", "p"):
            return seq_eq(v, mkseq("str", ex.text[k]))
        if k == "1":
            return T.mk_or(T.mk_and(ex.third, seq_eq(v, mkseq("str", ex.first[1], ex.second[1]))),
                           T.mk_and(T.mk_not(ex.third), seq_eq(v, mkseq("str", ex.first[1]))))
        return T.mk_eq(sterm(v), dm.U("text", k)(ex.start[k]))
    d = st.get(v) if isinstance(v, Ref) else None
    if not isinstance(d, ODict) or set(d.entries) != {"len", "data"}:
        return False
    L, D = d.entries["len"][1], d.entries["data"][1]
    if not is_bytesish(L) or not is_bytesish(D):
        return False
    if k in ("t", "p"):
        return T.mk_and(seq_eq(L, b""), seq_eq(D, mkseq("bytes", ex.data[k])))
    if k == "1":
        return T.mk_and(seq_eq(L, b""), T.mk_or(
            T.mk_and(ex.third, seq_eq(D, mkseq("bytes", ex.first[0], ex.second[0]))),
            T.mk_and(T.mk_not(ex.third), seq_eq(D, mkseq("bytes", ex.first[0])))))
    at = ex.start[k]
    l, m = dm.U("l", k)(at), dm.U("n", k)(at)
    return T.mk_and(T.mk_eq(sterm(L), T.t_sub(s, at, l)),
                    T.mk_eq(sterm(D), T.t_sub(s, T.simp(at + l), T.simp(m - l))))
