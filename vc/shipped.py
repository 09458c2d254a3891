"""C20: the shipped specifications, as iso8583/specs.py defines them.

The module is interpreted and well-formedness is decided for every entry. encode and decode are then
run on every document with a message type and one regular field, the values being arbitrary ones
of a permitted length.
"""
import z3

from pyvc import solver
from pyvc import terms as T
from pyvc.values import *  # noqa: F401,F403
from pyvc.values import Unsupported

from .core import dict_entries, seq_eq, val_eq2
from .field import DEC, ENC
from .world import World, describe, str_val

NAMES = ("default", "default_ascii")


def concrete(st, v):
    """the Python value of a value without symbolic parts."""
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, ODict) and not o.others and all(g is True for g, _ in o.entries.values()):
            return {k: concrete(st, x) for k, (_, x) in o.entries.items()}
        if isinstance(o, OList) and all(g is True for g, _ in o.items):
            return [concrete(st, x) for _, x in o.items]
    elif v is None or isinstance(v, (str, bytes, int, bool, float)):
        return v
    elif isinstance(v, tuple):
        return tuple(concrete(st, x) for x in v)
    raise Unsupported("value of a specification: %r" % (v,))


def load():
    w = World(mods=("specs", "decoder", "encoder"))
    m = w.e.modules["iso8583.specs"]
    out = {}
    for k, v in w.base.frames[m.fid].items():
        if k.startswith("_") or not isinstance(v, Ref) or not isinstance(w.base.get(v), ODict):
            continue
        c = concrete(w.base, v)
        if "t" in c and "p" in c:
            out[k] = (v, c)
    return w, out


def shipped(prop, ck, part):
    from search import shipped as concrete_side
    from search import load as loader

    w, specs = load()
    if part == "wf":
        lib = loader.fresh()
        for name in NAMES:
            ck.oblige("shipped:wf:%s:is-shipped" % name, [], name in specs)
        real = concrete_side.specs(lib)
        ck.oblige("shipped:wf:same-names", [], set(real) == set(specs))
        for name, (_, sp) in specs.items():
            ck.oblige("shipped:wf:%s:interpreted-as-imported" % name, [], real.get(name) == sp)
            bad = concrete_side.wellformed(name, sp)
            wrong = {b.split(":")[0].split(" is ")[0].split(" has ")[0] for b in bad}
            for k in sp:
                mine = [b for b in bad if b.startswith("%s[%s]" % (name, k))]
                ck.oblige("shipped:wf:%s:entry:%s" % (name, k), [], not mine, "; ".join(mine))
            rest = [b for b in bad if not any(b.startswith("%s[%s]" % (name, k)) for k in sp)]
            ck.oblige("shipped:wf:%s:complete-and-JSON-safe" % name, [], not rest, "; ".join(rest))
        return
    # the named specification, or those not named elsewhere
    names = [part] if part != "others" else [k for k in specs if k not in NAMES]
    for name in names:
        if name not in specs:
            ck.fail("shipped:%s" % name, "the specification is not shipped")
            continue
        ref, sp = specs[name]
        documents(ck, w, "shipped:%s[t]" % name, ref, sp, [])
        for k in sp:
            if k not in ("h", "t", "p", "1", "65"):
                documents(ck, w, "shipped:%s[%s]" % (name, k), ref, sp, [k])
    ck.functions |= w.e.trace_funcs


def permitted(fs, v):
    """what it takes to be a value of a permitted length in the field's alphabet."""
    nib = fs.get("len_count", "bytes") == "nibbles"
    if fs["data_enc"] == "b":
        n = T.Len(v)
        if nib:
            padded = fs.get("left_pad", "") or fs.get("right_pad", "")
            even = T.mk_eq(T.simp(n % 2), z3.IntVal(0))
            one = T.sv("0")
            cs = [T.mk_or(T.t_unhex_ok(v), T.mk_and(T.mk_not(even), T.t_unhex_ok(T.cat(one, v))))]
            cs.append(T.mk_or(even, bool(padded)))
            n_ = n
        else:
            cs = [T.t_unhex_ok(v)]
            n_ = T.Len(T.t_unhex(v))
    else:
        e = T.sv(fs["data_enc"])
        cs = [T.t_known(e), T.t_enc_ok(e, v)]
        n_ = T.simp(T.Len(T.t_enc(e, v)) * (2 if nib else 1))
    m = z3.IntVal(fs["max_len"])
    cs.append(T.mk_eq(n_, m) if fs["len_type"] == 0 else n_ <= m)
    return cs


_codecs = {}


def codec_facts(e):
    """(one byte per character, encodes the ten digits, one-to-one), by running the codec on every character."""
    if e not in _codecs:
        single = one = True
        for i in range(0x110000):
            try:
                b = chr(i).encode(e)
                single = single and len(b) == 1
                one = one and b.decode(e) == chr(i)
            except UnicodeError:
                pass
            if not single and not one:
                break
        for i in range(256):
            try:
                c = bytes([i]).decode(e)
                single = single and len(c) == 1
                one = one and c.encode(e) == bytes([i])
            except UnicodeError:
                pass
        digits = True
        for c in "0123456789":
            try:
                digits = digits and len(c.encode(e)) == 1
            except UnicodeError:
                digits = False
        _codecs[e] = (single, digits, single and one)
    return _codecs[e]


def documents(ck, w, tag, ref, sp, keys):
    """encode and decode every document with exactly the given fields, values of permitted lengths."""
    solver.GROUPS = ("codec", "digits")
    st = w.state()
    doc, vals = {}, {}
    for k in (["h"] if sp["h"]["max_len"] > 0 else []) + ["t"] + list(keys):
        fs = sp[k]
        v = str_val("v!%s!%s" % (tag, k))
        for c in permitted(fs, v.t):
            st.assume(c)
        if k != "t" and fs["len_type"] > 0 and fs["len_enc"] not in ("b", "bcd"):
            single, digits, _ = codec_facts(fs["len_enc"])
            ck.oblige("%s:codec-of-length:%s" % (tag, k), [], single and digits, fs["len_enc"])
            if single:
                st.assume(T.single_f(T.sv(fs["len_enc"])))
            if digits:
                st.assume(T.digits_f(T.sv(fs["len_enc"])))
        if fs["data_enc"] != "b":
            ck.oblige("%s:codec-of-data:%s" % (tag, k), [], codec_facts(fs["data_enc"])[2], fs["data_enc"])
        if fs["len_type"] == 0:
            size = (fs["max_len"] + 1) // 2 if fs.get("len_count", "bytes") == "nibbles" else fs["max_len"]
            T.fix_len(T.t_unhex(v.t) if fs["data_enc"] == "b" else T.t_enc(T.sv(fs["data_enc"]), v.t), size)
        vals[k] = v
        doc[k] = (True, v)
    if not keys and not solver.feasible(st.pc):
        ck.fail(tag + ":reachable", "no value is permitted")
        return
    d = st.new(ODict(doc))
    outs = w.run(st, w.fn(ENC, "encode"), [d, ref])
    ck.oblige(tag + ":has-outcome", st.pc, bool(outs))
    for i, o in enumerate(outs):
        n = "%s:encode%d" % (tag, i)
        ck.oblige(n + ":accepted", o.st.pc, o.kind == "next", lambda: describe(o))
        if o.kind != "next":
            continue
        raw = o.st.get(o.val[0]) if isinstance(o.val, tuple) and len(o.val) == 2 and isinstance(o.val[0], Ref) else None
        if not isinstance(raw, OBytearray):
            ck.oblige(n + ":returns-bytearray", o.st.pc, False, lambda: describe(o))
            continue
        s = mkseq("bytes", *[pterm(p) for p in pieces_of(ba_seq(raw))])
        back = w.run(o.st, w.fn(DEC, "decode"), [s, ref])
        ck.oblige(n + ":decode-has-outcome", o.st.pc, bool(back))
        for j, x in enumerate(back):
            m = "%s.decode%d" % (n, j)
            ck.oblige(m + ":accepted", x.st.pc, x.kind == "next", lambda: describe(x))
            if x.kind != "next":
                continue
            dd = dict_entries(x.st, x.val[0]) if isinstance(x.val, tuple) and len(x.val) == 2 else None
            de = dict_entries(x.st, x.val[1]) if dd is not None else None
            if de is None:
                ck.oblige(m + ":returns-two-dictionaries", x.st.pc, False, lambda: describe(x))
                continue
            e0 = dict_entries(o.st, o.val[1])
            want = set(vals) | {"p"} | ({"1"} if any(int(k) > 64 for k in keys) else set())
            ck.oblige(m + ":keys", x.st.pc, not dd.others and not de.others and set(dd.entries) == set(de.entries) == want)
            for k, v in vals.items():
                t = mkseq("str", T.t_upper(v.t)) if sp[k]["data_enc"] == "b" else v
                g, y = dd.entries.get(k, (False, None))
                ck.oblige("%s:value:%s" % (m, k), x.st.pc, g is True and is_strish(y) and seq_eq(y, t), lambda: describe(x))
                ck.oblige("%s:parts:%s" % (m, k), x.st.pc, e0 is not None and k in de.entries and k in e0.entries
                          and val_eq2(x.st, de.entries[k][1], o.st, e0.entries[k][1]))
