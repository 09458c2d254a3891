"""The verifier against CPython.

The path summaries the proofs use (all outcomes of _decode_field and _encode_field for symbolic arguments) are evaluated
under random concrete arguments and compared with what the real functions of /repo do in CPython:
  * exactly one path must apply to each input,
  * its result, exception, position and recorded parts must be those of the real call,
  * every axiom instance about built-ins (the facts the solver may use) must be true of the real built-ins.
A disagreement is a defect of the verifier or of its axioms, not of /repo.

python3-vt vc/selftest.py [cases] [seed] [seconds]
"""
import copy
import json
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

import z3  # noqa: E402

import pyvc.models  # noqa: E402,F401
from pyvc import terms as T  # noqa: E402
from pyvc.values import *  # noqa: F401,F403,E402

from search import gen as G, load, ref  # noqa: E402
from vc.field import DecodeField, EncodeField  # noqa: E402
from vc.world import raised  # noqa: E402


class U:
    """unknown: the term has no fixed meaning for these arguments."""


U = U()
LIM = 4300


def raw(s):
    return s.encode("latin-1")


def attempt(f, *a):
    try:
        return f(*a)
    except Exception:
        return U


def ok(f, *a):
    try:
        f(*a)
        return True
    except Exception:
        return False


def sub(s, i, n):
    return s[i:i + n] if i >= 0 and n > 0 else ""


def unhex_ok(x):
    return len(x) % 2 == 0 and all(c in "0123456789abcdefABCDEF" for c in x)


def dec_ok(c, b):
    return ok(raw(b).decode, c) if T.py_codec_known(c) else U


def enc_ok(c, x):
    return ok(x.encode, c) if T.py_codec_known(c) else U


def fmtd(n, w):
    return attempt(lambda: "{:0{w}d}".format(n, w=w)) if w > 0 else attempt(str, n)


def power(b):
    return lambda w: b ** w if 0 <= w < 20000 else U


MEANING = {
    "slen": len,
    "sub": sub,
    "cat": lambda a, b: a + b,
    "hexl": lambda b: raw(b).hex(),
    "upper": str.upper,
    "lower": str.lower,
    "unhex_ok": unhex_ok,
    "unhex": lambda x: bytes.fromhex(x).decode("latin-1") if unhex_ok(x) else U,
    "fromhex_ok": lambda x: ok(bytes.fromhex, x),
    "fromhex": lambda x: attempt(lambda: bytes.fromhex(x).decode("latin-1")),
    "codec_known": T.py_codec_known,
    "dec_ok": dec_ok,
    "dec": lambda c, b: attempt(raw(b).decode, c),
    "enc_ok": enc_ok,
    "enc": lambda c, x: attempt(lambda: x.encode(c).decode("latin-1")),
    "int_ok": lambda x: ok(int, x),
    "int_of": lambda x: attempt(int, x),
    "fmtd": fmtd,
    "frombe": lambda b: int.from_bytes(raw(b), "big"),
    "tobe": lambda n, w: attempt(lambda: n.to_bytes(w, "big").decode("latin-1")),
    "pow256": power(256),
    "pow10": power(10),
    "sbit": lambda t, j, k: bool(ord(t[j]) >> k & 1) if 0 <= j < len(t) and 0 <= k < 8 else False,
    "repr_str": repr,
    "repr_bytes": lambda b: repr(raw(b)),
    "ljust": lambda x, w: x.ljust(w),
    "single_byte": lambda c: c in ref.SINGLE,
    "encodes_digits": lambda c: c in ref.SINGLE,
    "contains": lambda a, b: b in a,
    "bit_length": lambda n: n.bit_length(),
    "repeat": lambda s, n: s * n if n < 10 ** 6 else U,
}
for _n in T.PRED:
    MEANING[_n] = getattr(str, _n)


class Eval:
    """value of a term under an assignment of its constants (three-valued)."""

    def __init__(self, env):
        self.env, self.memo = env, {}

    def __call__(self, t):
        if isinstance(t, bool):
            return t
        stack = [t]
        m = self.memo
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in m:
                stack.pop()
                continue
            kids = x.children()
            todo = [k for k in kids if k.get_id() not in m]
            if todo:
                stack.extend(todo)
                continue
            m[i] = self.app(x, [m[k.get_id()] for k in kids])
            T._keep.append(x)
            stack.pop()
        return m[t.get_id()]

    def app(self, x, a):
        if z3.is_quantifier(x):
            return U
        k = x.decl().kind()
        if T.is_lit(x):
            return T.sval(x)
        if z3.is_int_value(x):
            return x.as_long()
        if k == z3.Z3_OP_TRUE or k == z3.Z3_OP_FALSE:
            return k == z3.Z3_OP_TRUE
        if k == z3.Z3_OP_AND:
            return False if any(v is False for v in a) else U if U in a else True
        if k == z3.Z3_OP_OR:
            return True if any(v is True for v in a) else U if U in a else False
        if k == z3.Z3_OP_IMPLIES:
            return True if a[0] is False or a[1] is True else U if U in a else False
        if k == z3.Z3_OP_ITE:
            if a[0] is U:
                return a[1] if a[1] is not U and a[1] == a[2] else U
            return a[1] if a[0] else a[2]
        if k == z3.Z3_OP_NOT:
            return U if a[0] is U else not a[0]
        if k == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if x.num_args() == 0:
                return self.env.get(n, U)
            if U in a:
                return U
            if n in MEANING:
                return MEANING[n](*a)
            if n.startswith("allin!"):
                for chars, f in T._ALLIN.items():
                    if f.eq(x.decl()):
                        return all(c in chars for c in a[0])
            return U
        if U in a:
            return U
        if k == z3.Z3_OP_EQ or k == z3.Z3_OP_IFF:
            return a[0] == a[1]
        if k == z3.Z3_OP_DISTINCT:
            return len(set(a)) == len(a)
        ar = {z3.Z3_OP_LE: lambda p, q: p <= q, z3.Z3_OP_LT: lambda p, q: p < q, z3.Z3_OP_GE: lambda p, q: p >= q,
              z3.Z3_OP_GT: lambda p, q: p > q, z3.Z3_OP_XOR: lambda p, q: p != q,
              z3.Z3_OP_IDIV: lambda p, q: p // q if q > 0 else U, z3.Z3_OP_MOD: lambda p, q: p % q if q > 0 else U}
        if k in ar:
            return ar[k](*a)
        if k == z3.Z3_OP_ADD:
            return sum(a)
        if k == z3.Z3_OP_SUB:
            return a[0] - sum(a[1:])
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_MUL:
            r = 1
            for v in a:
                r *= v
            return r
        return U

    def value(self, st, v):
        """Python value of an engine value (bytes of a mutable array as bytes)."""
        if v is None or isinstance(v, (bool, int, str, bytes)):
            return v
        if isinstance(v, SSeq):
            r = self(v.t)
            return r if r is U or v.kind == "str" else raw(r)
        if isinstance(v, SInt):
            return self(v.t)
        if isinstance(v, SBool):
            return self(v.t)
        if isinstance(v, VUnion):
            for g, x in v.alts:
                c = self(g)
                if c is True:
                    return self.value(st, x)
                if c is U:
                    return U
        if isinstance(v, Ref) and isinstance(st.get(v), OBytearray) and st.get(v).seq is not None:
            return self.value(st, st.get(v).seq)
        return U


class Report:
    def __init__(self):
        self.n = {"inputs": 0, "paths evaluated": 0, "results compared": 0, "axiom instances": 0, "unknown": 0}
        self.bad = []

    def wrong(self, what, *more):
        if len(self.bad) < 20:
            self.bad.append("%s: %s" % (what, "; ".join(str(x)[:600] for x in more)))


def entry_env(name, fs):
    env = {name + "." + k: fs[k] for k in ("data_enc", "len_enc", "len_type", "max_len")}
    for o in ("len_count", "left_pad", "right_pad", "desc"):
        env["%s.has_%s" % (name, o)] = o in fs
        env["%s.%s" % (name, o)] = fs.get(o, "x")
    return env


def check_facts(rep, ev, outs, codec):
    """axiom instances about the terms of the taken path."""
    todo = set()
    for o in outs:
        for c in o.st.pc:
            if not isinstance(c, bool):
                todo |= T.fact_terms(c)
    done = set()
    while todo:
        i = todo.pop()
        if i in done:
            continue
        done.add(i)
        for g, f in T.FACTS.get(i, ()):
            todo |= T.fact_terms(f) - done
            if g == "codec" and not codec:
                continue
            r = ev(f)
            if r is False:
                rep.wrong("axiom", f, {k: v for k, v in ev.env.items()})
            elif r is True:
                rep.n["axiom instances"] += 1
            else:
                rep.n["unknown"] += 1


def taken(rep, ev, outs, tag):
    hit, unk = [], 0
    for i, o in enumerate(outs):
        v = True
        for c in o.st.pc:
            r = ev(c)
            if r is False:
                v = False
                break
            if r is U:
                v = U
        rep.n["paths evaluated"] += 1
        if v is True:
            hit.append((i, o))
        elif v is U:
            unk += 1
    if len(hit) > 1 or not hit and not unk:
        rep.wrong(tag + ": %d paths apply" % len(hit), ev.env)
    return hit[0][1] if len(hit) == 1 else None


def compare(rep, ev, run, o, tag, real, doc, enc, key):
    """a path's outcome against the real one."""
    kind, val = real
    rep.n["results compared"] += 1
    if (o.kind == "next") != (kind == "ok"):
        rep.wrong(tag + ": outcome", o.kind, real, ev.env)
        return
    if kind == "ok":
        v = ev.value(o.st, o.val)
        if v is not U and v != val:
            rep.wrong(tag + ": result", v, val, ev.env)
    else:
        c, x = raised(o)
        name = getattr(c, "name", None) or c.py.__name__
        if name != type(val).__name__:
            rep.wrong(tag + ": class", name, repr(val), ev.env)
            return
        for a in ("msg", "pos", "field"):
            if hasattr(val, a):
                v = ev.value(o.st, x.attrs.get(a))
                if v is not U and v != getattr(val, a):
                    rep.wrong("%s: %s" % (tag, a), v, getattr(val, a), ev.env)
        if len(x.args or ()) == 1:
            v = ev.value(o.st, x.args[0])
            if v is not U and v != str(val):
                rep.wrong(tag + ": text", v, str(val), ev.env)
    p = run.parts(o) if hasattr(run, "parts") else None
    if p is not None and key in doc and key in enc:
        for what, v, w in (("text", p[0], doc[key]), ("len", p[1], enc[key]["len"]), ("data", p[2], enc[key]["data"])):
            v = ev.value(o.st, v)
            if v is not U and v != w:
                rep.wrong("%s: recorded %s" % (tag, what), v, w, ev.env)


def decode_case(rep, g, lib, run, kind):
    r = g.r
    fs = g.field_spec(robust=True)
    fs.pop("desc", None)
    L, D = g.field_parts(fs)
    x = r.random()
    if x < 0.15:
        L = g.prefix(fs, L)
    elif x < 0.25:
        D = D[:max(0, len(D) - r.randrange(1, 3))]
    elif x < 0.35 and D:
        D = bytearray(D)
        D[r.randrange(len(D))] = r.randrange(256)
        D = bytes(D)
    pre = bytes(r.randrange(256) for _ in range(r.choice((0, 0, 1, 5))))
    s = pre + L + D + (b"" if x < 0.5 else bytes(r.randrange(256) for _ in range(r.randrange(4))))
    idx = min(len(pre), len(s)) if r.random() < 0.95 else r.randrange(len(s) + 1)
    env = entry_env("fs", fs)
    env.update({"s": s.decode("latin-1"), "idx": idx, "key": "2", "otherkey": "t", "o.len": "", "o.data": "0200", "o.dec": "0200"})
    ev = Eval(env)
    if any(ev(c) is False for c in run.st0.pc):
        return  # not well-formed
    rep.n["inputs"] += 1
    doc, enc = {"t": "0200"}, {"t": {"len": b"", "data": b"0200"}}
    roles = {"s": s if kind == "bytes" else bytearray(s), "dec": doc, "enc": enc, "idx": idx, "key": "2", "entry": copy.deepcopy(fs)}
    args = {n: roles[k] for n, k in run.roles.items()}
    try:
        real = ("ok", lib.mods["iso8583.decoder"]._decode_field(**args))
    except Exception as e:
        real = ("exc", e)
    o = taken(rep, ev, run.outs, "decode " + kind)
    if o is not None:
        check_facts(rep, ev, [o], fs["data_enc"] in ref.SINGLE + ref.MULTI + ["b"])
        compare(rep, ev, run, o, "decode " + kind, real, doc, enc, "2")


def encode_case(rep, g, lib, run):
    fs = g.field_spec(robust=True)
    fs.pop("desc", None)
    v = g.value(fs, g.r.random() < 0.5)
    env = entry_env("fs", fs)
    env.update({"v": v, "key": "2", "otherkey": "t", "o.len": "", "o.data": "0200", "o.dec": "0200"})
    ev = Eval(env)
    if any(ev(c) is False for c in run.st0.pc):
        return
    rep.n["inputs"] += 1
    doc, enc = {"2": v, "t": "0200"}, {"t": {"len": b"", "data": b"0200"}}
    roles = {"dec": doc, "enc": enc, "key": "2", "entry": copy.deepcopy(fs)}
    args = {n: roles[k] for n, k in run.roles.items()}
    try:
        real = ("ok", lib.mods["iso8583.encoder"]._encode_field(**args))
    except Exception as e:
        real = ("exc", e)
    o = taken(rep, ev, run.outs, "encode")
    if o is not None:
        check_facts(rep, ev, [o], fs["data_enc"] in ref.SINGLE + ref.MULTI + ["b"])
        compare(rep, ev, run, o, "encode", real, doc, enc, "2")


def selftest(cases=300, seed=1, seconds=60):
    lib = load.main()
    rep = Report()
    g = G.Gen(random.Random(seed), G.mined())
    runs = [DecodeField("bytes"), DecodeField("bytearray"), EncodeField("str")]
    end = time.time() + seconds
    for i in range(cases):
        if time.time() > end:
            break
        if i % 3 == 0:
            encode_case(rep, g, lib, runs[2])
        else:
            decode_case(rep, g, lib, runs[i % 3 - 1], ("bytes", "bytearray")[i % 3 - 1])
    return rep


if __name__ == "__main__":
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 300
    t0 = time.time()
    r = selftest(n, int(sys.argv[2]) if len(sys.argv) > 2 else 1, float(sys.argv[3]) if len(sys.argv) > 3 else 600)
    print(json.dumps(dict(r.n, disagreements=r.bad, seconds=round(time.time() - t0, 1))))
    sys.exit(1 if r.bad else 0)
