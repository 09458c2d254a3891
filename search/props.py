"""Concrete predicates: does the real code break property X on this case?"""
import ast
import codecs
import copy
import gc
import io
import pickle
import sys

from . import load, ref
from .gen import Obj, cp
from .ref import F

KINDS = {
    "C01": ["encode_wf"], "C02": ["decode_wf"], "C03": ["encode"], "C04": ["decode"], "C05": ["encode"], "C06": ["decode"],
    "C07": ["encode"], "C08": ["decode"], "C09": ["encode", "decode"], "C10": ["encode", "decode"],
    "C11": ["decode", "decode", "decode", "wrong"], "C12": ["encode", "encode", "encode", "wrong"],
    "C13": ["decode"], "C14": ["encode"], "C15": ["exc", "decode", "encode"], "C16": ["encode", "decode", "pp", "history"],
    "C17": ["history", "interleave", "decode", "encode", "pp"], "C18": ["pp"], "C19": ["pp"], "C20": ["shipped"],
}


class Hang(BaseException):
    pass


def snap(v, memo=None):
    """a value that compares equal exactly when v is the same plain data."""
    t = type(v)
    if isinstance(v, dict):
        return (t.__name__, tuple(sorted(((repr(k), snap(k), snap(x)) for k, x in v.items()), key=lambda e: e[0])))
    if isinstance(v, (list, tuple)):
        return (t.__name__, tuple(snap(x) for x in v))
    if isinstance(v, memoryview):
        return (t.__name__, bytes(v))
    if isinstance(v, BaseException):
        d = {k: x for k, x in vars(v).items()}
        return (t.__name__, str(v), snap(v.args), snap(d))
    if isinstance(v, (str, bytes, bytearray, int, float, type(None))):
        return (t.__name__, bytes(v) if isinstance(v, bytearray) else v)
    return (t.__name__, repr(v))


def keyed(v):
    """snap, but key order of dictionaries is kept."""
    if isinstance(v, dict):
        return ("dict", tuple((repr(k), keyed(x)) for k, x in v.items()))
    return snap(v)


class Res:
    """outcome of one call."""

    def __init__(self, f, *a, **k):
        self.exc = self.val = None
        try:
            self.val = f(*a, **k)
        except Hang:
            raise
        except BaseException as e:
            self.exc = e
            e.__traceback__ = None
            e.__context__ = None

    @property
    def ok(self):
        return self.exc is None

    def snap(self):
        return ("ok", snap(self.val)) if self.ok else ("exc", snap(self.exc))

    def text(self):
        return short(self.val) if self.ok else "%s: %s" % (type(self.exc).__name__, short(str(self.exc)))


def short(v, n=700):
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n] + "..."


def order(keys):
    return [k for k in ("h", "t", "p", "1") if k in keys] + sorted(
        [k for k in keys if k not in ("h", "t", "p", "1")], key=lambda k: int(k) if str(k).isdigit() else 10 ** 6)


def joined(enc):
    return b"".join(bytes(enc[k]["len"]) + bytes(enc[k]["data"]) for k in order(enc))


def check(prop, case):
    return globals()["p_" + case["kind"]](prop, case)


# ------------------------------------------------------------------ encode


class SubBytes(bytes):
    pass


class SubBytearray(bytearray):
    pass


class SubDict(dict):
    pass


SUBBYTES = (SubBytes, SubBytearray)


def p_encode(prop, case):
    lib = load.main()
    spec, doc = case["spec"], case["doc"]
    spec1, doc1 = cp(spec), cp(doc)
    if prop == "C17":
        return determinism_encode(lib, spec, doc)
    if prop == "C12" and len(doc) % 3 == 0:
        doc1, spec1 = SubDict(doc1), SubDict(spec1)
    r = Res(lib.encode, doc1, spec1)
    if prop == "C16":
        return frame_encode(lib, spec, doc, spec1, doc1, r)
    if prop == "C12":
        if r.ok:
            v = r.val
            if not (isinstance(v, tuple) and len(v) == 2 and type(v[0]) is bytearray and type(v[1]) is dict):
                return "encode returned %s" % r.text()
            bad = [k for k in doc if ref.numeric(k) and not ref.canonical(k) and k not in ("1", "65")]
            bad += [k for k in doc if not isinstance(k, str) and isinstance(k, int) and not isinstance(k, bool)]
            if bad:
                return "encode accepted the keys %r" % bad[:3]
            return None
        if not isinstance(r.exc, lib.EncodeError):
            return "encode raised %s" % r.text()
        return None
    ex = ref.ref_encode(doc, spec)
    if prop == "C15":
        return None if r.ok else copies(r.exc, lib)
    if prop == "C14":
        return None if r.ok else encode_error(lib, r.exc, ex, doc1)
    if not r.ok:
        if prop in ("C07", "C09", "C10") and ex.ok and relevant_reject(prop, doc, spec):
            return "encode rejected a valid document: %s" % r.text()
        return None
    try:
        raw, enc = bytes(r.val[0]), r.val[1]
        enc = {k: {"len": bytes(v["len"]), "data": bytes(v["data"])} for k, v in enc.items()}
    except Exception as e:
        return None if prop not in ("C03",) else "encode returned %s" % r.text()
    flds = sorted(int(k) for k in doc if ref.canonical(k) and k not in ("1", "65"))
    bm = ref.bitmaps(flds)
    expected = set(str(f) for f in flds) | {"t"} | set(bm) | ({"h"} if ref.header_on(spec) else set())
    if prop == "C01":
        return roundtrip_encode(lib, doc, spec, doc1, raw, enc, expected, bm)
    if prop == "C03":
        if set(enc) != expected:
            return "encoded parts are %s, expected %s" % (order(enc), order(expected))
        if raw != joined(enc):
            return "encoded message %r is not the concatenation %r of its parts" % (short(raw), short(joined(enc)))
        if any(set(v) != {"len", "data"} for v in r.val[1].values()):
            return "an encoded part is not {len, data}"
        return None
    if prop == "C05":
        return generated_bitmaps(lib, doc, spec, doc1, raw, enc, bm)
    if prop in ("C07", "C09", "C10"):
        return encoded_fields(prop, doc, spec, enc, ex)
    raise KeyError(prop)


def relevant_reject(prop, doc, spec):
    if prop != "C09":
        return True
    for k, v in doc.items():
        fs = spec.get(k) if isinstance(k, str) else None
        if isinstance(v, str) and fs and padded(k, v, fs):
            return True
    return False


def padded(k, v, fs):
    return k not in ("t", "p", "1", "65") and fs.get("len_count") == "nibbles" and fs["data_enc"] == "b" and len(v) % 2 == 1


def encoded_fields(prop, doc, spec, enc, ex):
    for k in order(enc):
        if k in ("p", "1"):
            if prop == "C10" and ex.bitmaps and k in ex.bitmaps:
                D = ref.encode_bitmap(ex.bitmaps[k], spec[k]["data_enc"])
                # the image of the bitmap the document holds after the call is C05's subject
                if D is None:
                    return "bitmap %s has no image in %r but was encoded" % (k, spec[k]["data_enc"])
            continue
        if k not in doc or ref.unspecified(doc[k]):
            continue
        v, p = doc[k], enc[k]
        if k == "t":
            b = spec["t"]["data_enc"] == "b"
            D = None
            if isinstance(v, str):
                D = F.from_hex(v) if b else F.image_of_text(v, {"data_enc": spec["t"]["data_enc"]})[0]
            if prop == "C07" and len(p["data"]) != (2 if b else 4):
                return "message type is %d bytes" % len(p["data"])
            if prop == "C07" and p["len"] != b"":
                return "message type has a length part"
            if prop == "C10" and D is None:
                return "message type %r has no image but was encoded as %r" % (v, p["data"])
            if prop == "C10" and D != p["data"]:
                return "message type %r encoded as %r" % (v, p["data"])
            continue
        fs = spec.get(k)
        if fs is None:
            continue
        tag, L, D, n = ref.element(v, fs)
        if tag == "image":
            if prop == "C10" or prop == "C09" and isinstance(v, str) and padded(k, v, fs):
                return "field %s: value %s has no image but was encoded as %r" % (k, short(v), p)
            continue
        if prop == "C07":
            if tag == "length":
                return "field %s: value of length %d was accepted: %r" % (k, n, short(p))
            if p["len"] != L:
                return "field %s: length part %r, expected %r" % (k, p["len"], L)
            if len(p["data"]) != len(D):
                return "field %s: %d data bytes, expected %d" % (k, len(p["data"]), len(D))
        elif prop == "C09":
            if padded(k, v, fs):
                if p["data"] != D or tag == "ok" and p["len"] != L:
                    return "field %s: %s encoded as %s, expected %r %r" % (k, short(v), short(p), L, short(D))
            elif len(p["data"]) != len(D):
                return "field %s: %s encoded as %s" % (k, short(v), short(p))
        elif prop == "C10" and p["data"] != D:
            return "field %s: %s encoded as %s, expected %s" % (k, short(v), short(p["data"]), short(D))
    return None


def generated_bitmaps(lib, doc, spec, doc1, raw, enc, bm):
    for k in ("p", "1"):
        if k in bm:
            D = ref.encode_bitmap(bm[k], spec[k]["data_enc"])
            if k not in enc or enc[k]["len"] + enc[k]["data"] != D:
                return "bitmap %s emitted as %r, expected %r" % (k, enc.get(k), D)
            if doc1.get(k) != bm[k] or type(doc1.get(k)) is not str:
                return "document's entry %s is %r, expected %r" % (k, doc1.get(k), bm[k])
        elif k in enc or k in doc1:
            return "entry %s should not exist" % k
    at = 0
    if ref.header_on(spec):
        if "h" not in enc:
            return None
        at = len(enc["h"]["len"]) + len(enc["h"]["data"])
    if "t" in enc:
        at += len(enc["t"]["data"])
        want = b"".join(ref.encode_bitmap(bm[k], spec[k]["data_enc"]) for k in ("p", "1") if k in bm)
        if raw[at:at + len(want)] != want:
            return "bitmaps in the message are %r, expected %r" % (raw[at:at + len(want)], want)
    if any(k in doc for k in ("p", "1", "65")):
        d = {k: v for k, v in cp(doc).items() if k not in ("p", "1", "65")}
        r = Res(lib.encode, d, cp(spec))
        if not r.ok or bytes(r.val[0]) != raw:
            return "the caller's entries p, 1 or 65 changed the message to %s from %s" % (short(raw), r.text())
    return None


def roundtrip_encode(lib, doc, spec, doc1, raw, enc, expected, bm):
    r = Res(lib.decode, raw, cp(spec))
    if not r.ok:
        return "decode rejects what encode produced (%s): %s" % (short(raw), r.text())
    want = {}
    for k in expected:
        v = doc1.get(k) if k in bm else doc.get(k)
        fs = spec.get(k)
        if isinstance(v, str) and fs and fs["data_enc"] == "b":
            v = v.upper()
        want[k] = v
    dec, enc2 = r.val
    for k in sorted(set(want) | set(dec)):
        if k not in want or k not in dec or want[k] != dec[k]:
            return "field %s: encoded %s, decoded %s" % (k, short(want.get(k, "(absent)")), short(dec.get(k, "(absent)")))
    if enc2 != enc:
        bad = [k for k in sorted(set(enc) | set(enc2)) if enc.get(k) != enc2.get(k)]
        return "encoded parts differ in %s: %s and %s" % (bad[0], short(enc.get(bad[0])), short(enc2.get(bad[0])))
    return None


def encode_error(lib, e, ex, doc1):
    if not isinstance(e, lib.EncodeError):
        return None
    for a in ("msg", "doc_dec", "doc_enc", "field"):
        if not hasattr(e, a):
            return "EncodeError has no attribute %s" % a
    if e.doc_dec is not doc1:
        return "EncodeError does not carry the document"
    if not isinstance(e.msg, str) or str(e) != "%s: field %s" % (e.msg, e.field):
        return "text of the EncodeError is %r (msg %r, field %r)" % (short(str(e)), short(e.msg), e.field)
    if ex.ok or any(ref.unspecified(v) for v in doc1.values()):
        return None  # C07, C10
    k = ex.fail[0]
    if e.field != k:
        return "EncodeError names field %r, the first failing element is %r (%s)" % (e.field, k, e)
    if not isinstance(e.doc_enc, dict):
        return "partial dictionary is %r" % (e.doc_enc,)
    for b in ex.order:
        if b == k:
            continue
        if e.doc_enc.get(b) != ex.parts[b]:
            return "partial dictionary has %s = %s, expected %s" % (b, short(e.doc_enc.get(b, "(absent)")), short(ex.parts[b]))
    more = set(e.doc_enc) - set(ex.order) - {k}
    if more:
        return "partial dictionary also holds %s" % sorted(more)
    return None


# ------------------------------------------------------------------ decode


def p_decode(prop, case):
    lib = load.main()
    s, spec = case["s"], case["spec"]
    if prop == "C17":
        return determinism_decode(lib, s, spec)
    out = None
    for kind in (bytes, bytearray) + (SUBBYTES if prop == "C11" else ()):
        out = decode_one(prop, lib, kind(s), s, spec)
        if out:
            return out
        if prop in ("C02",):
            break
    return None


def decode_one(prop, lib, s1, s, spec):
    spec1 = cp(spec)
    if type(s1) in SUBBYTES:
        spec1 = SubDict(spec1)
    r = Res(lib.decode, s1, spec1)
    if prop == "C11":
        if r.ok:
            v = r.val
            if not (isinstance(v, tuple) and len(v) == 2 and type(v[0]) is dict and type(v[1]) is dict):
                return "decode returned %s" % r.text()
            return None
        return None if isinstance(r.exc, lib.DecodeError) else "decode raised %s" % r.text()
    if prop == "C15":
        return None if r.ok else copies(r.exc, lib)
    if prop == "C16":
        return frame_decode(lib, s, spec, s1, spec1, r)
    ex = ref.ref_decode(s, spec)
    if prop == "C13":
        return None if r.ok else decode_error(lib, r.exc, ex, s1, spec)
    if prop == "C08":
        if ex.ok and not r.ok:
            return "decode rejected a valid message: %s" % r.text()
        if not r.ok:
            return None
        if ex.fail and ex.fail[2] in ("len_short", "len_bad", "over", "data_short", "odd_text"):
            return "decode accepted field %s although its length or data is wrong (%s)" % (ex.fail[0], ex.fail[2])
        if ex.fail and ex.fail[2] == "extra":
            # more bytes attributed to some field than its length says, or C04's subject
            pass
        for k in ex.order:
            if k in ("p", "1"):
                continue
            p = r.val[1].get(k)
            if p is not None and (bytes(p["len"]) != ex.parts[k]["len"] or bytes(p["data"]) != ex.parts[k]["data"]):
                return "field %s: parts %s, expected %s" % (k, short(p), short(ex.parts[k]))
        return None
    if prop == "C09":
        return stripped(spec, ex, r)
    if prop == "C10":
        if not r.ok:
            return "decode rejected a message with exact images: %s" % r.text() if ex.ok else None
        return decoded_images(spec, r.val[0], r.val[1])
    if not r.ok:
        return None
    dec, enc = r.val
    if prop == "C04":
        try:
            j = joined(enc)
        except Exception as e:
            return "encoded parts are %s" % short(enc)
        return None if j == s else "parts concatenate to %s, the input is %s" % (short(j), short(s))
    if prop == "C06":
        return flagged(spec, s, ex, dec, enc)
    if prop == "C02":
        return roundtrip_decode(lib, s, spec, dec, enc)
    raise KeyError(prop)


def flagged(spec, s, ex, dec, enc):
    if set(dec) != set(enc):
        return "document has keys %s, encoded parts %s" % (order(dec), order(enc))
    if "p" not in ex.bitmap_at:
        return None
    if ex.flagged is None:
        return "decode accepted a message whose bitmaps cannot be read (%s)" % (ex.fail,)
    want = {str(f) for f in ex.flagged} | {"t", "p"} | ({"1"} if "1" in ex.bitmap_at else set()) | (
        {"h"} if ref.header_on(spec) else set())
    if set(dec) != want:
        return "decoded keys %s, flagged %s" % (order(dec), order(want))
    for k in ("p", "1"):
        if k in want:
            a = ex.bitmap_at[k][0]
            b = ex.bitmap_at["65" if k == "1" and "65" in ex.bitmap_at else k][1]
            w = F.image_of_bytes(s[a:b], spec[k]["data_enc"])
            if dec[k] != w or bytes(enc[k]["data"]) != s[a:b] or bytes(enc[k]["len"]) != b"":
                return "bitmap %s is %r %r, transmitted %r" % (k, dec[k], enc[k], s[a:b])
    return None


def stripped(spec, ex, r):
    """nibble-counted fields of a message."""
    if not r.ok:
        if ex.ok and any(odd(spec, ex, k) for k in ex.order):
            return "decode rejected a properly padded field: %s" % r.text()
        return None
    if ex.fail and ex.fail[2] == "pad":
        return "decode accepted field %s without its pad digit: %s" % (ex.fail[0], short(r.val[0].get(ex.fail[0])))
    dec, enc = r.val
    for k in ex.order:
        if k in ("t", "p", "1") or k not in dec or k not in enc or spec[k]["data_enc"] != "b":
            continue
        if enc[k] != ex.parts[k]:
            continue  # C08
        if odd(spec, ex, k):
            if dec[k] != ex.text[k]:
                return "field %s: %s decoded as %s, expected %s" % (k, short(enc[k]), short(dec[k]), short(ex.text[k]))
        elif len(dec[k]) != 2 * len(enc[k]["data"]):
            return "field %s: %s decoded as %s" % (k, short(enc[k]), short(dec[k]))
    return None


def odd(spec, ex, k):
    return k not in ("t", "p", "1") and spec[k]["data_enc"] == "b" and spec[k].get("len_count") == "nibbles" and len(
        ex.text[k]) % 2 == 1


def decoded_images(spec, dec, enc):
    for k in order(dec):
        if k not in spec or k not in enc:
            continue
        D, v = bytes(enc[k]["data"]), dec[k]
        if not isinstance(v, str):
            return "field %s decoded as %r" % (k, v)
        e = spec[k]["data_enc"]
        full = F.image_of_bytes(D, e)
        if full is None:
            if not (D == b"" and v == ""):
                return "field %s: %s cannot be decoded but was decoded as %s" % (k, short(D), short(v))
            continue
        if v == full:
            continue
        if e == "b" and spec[k].get("len_count") == "nibbles" and k not in ("t", "p", "1") and v in (full[1:], full[:-1]):
            continue
        return "field %s: %s decoded as %s, expected %s" % (k, short(D), short(v), short(full))
    return None


def normal(spec, enc):
    """the message its parts make, with canonical bitmaps."""
    fields = [int(k) for k in enc if k not in ("h", "t", "p", "1")]
    bm = ref.bitmaps(fields)
    out = b""
    for k in [k for k in ("h", "t") if k in enc] + list(bm) + sorted((k for k in enc if k not in ("h", "t", "p", "1")),
                                                                     key=int):
        if k in bm:
            out += ref.encode_bitmap(bm[k], spec[k]["data_enc"])
        else:
            out += bytes(enc[k]["len"]) + bytes(enc[k]["data"])
    return out


def roundtrip_decode(lib, s, spec, dec, enc):
    r = Res(lib.encode, cp(dec), cp(spec))
    if not r.ok:
        return "encode rejects the decoded message: %s" % r.text()
    b = bytes(r.val[0])
    if b == s:
        return None
    # permitted: letter case of hex-text bitmaps, empty continuation bitmaps; the parts must make up s
    try:
        ex = ref.ref_decode(s, spec)
        if ex.ok and b == normal(spec, ex.parts):
            return None
        if joined(enc) == s and b == normal(spec, enc) and hex_text(spec, enc):
            return None
    except Exception:
        pass
    return "decode accepted %s, which encodes back as %s" % (short(s), short(b))


def hex_text(spec, enc):
    for k in ("p", "1"):
        if k in enc and spec[k]["data_enc"] != "b":
            t = bytes(enc[k]["data"]).decode(spec[k]["data_enc"])
            if len(t) not in (16, 32) or not F.is_hex(t):
                return False
    return True


def decode_error(lib, e, ex, s1, spec):
    if not isinstance(e, lib.DecodeError):
        return None
    for a in ("msg", "s", "doc_dec", "doc_enc", "field", "pos"):
        if not hasattr(e, a):
            return "DecodeError has no attribute %s" % a
    if bytes(e.s) != bytes(s1):
        return "DecodeError does not carry the input"
    if not isinstance(e.msg, str) or str(e) != "%s: field %s pos %s" % (e.msg, e.field, e.pos):
        return "text of the DecodeError is %r (msg %r, field %r, pos %r)" % (str(e), e.msg, e.field, e.pos)
    if ex.ok:
        return None  # C08, C10
    k, pos, tag = ex.fail
    if (e.field, e.pos) != (k, pos):
        return "DecodeError names field %r position %r, expected %r position %r (%s)" % (e.field, e.pos, k, pos, e)
    if tag == "extra":
        same = [b for b in ex.order]
        own = set(ex.order)
    else:
        same = [b for b in ex.order if b != k]
        own = set(same) | (set() if tag == "undefined" else {k})
    for b in same:
        if e.doc_dec.get(b) != ex.text[b]:
            return "partial document has %s = %s, expected %s" % (b, short(e.doc_dec.get(b, "(absent)")), short(ex.text[b]))
        if e.doc_enc.get(b) != ex.parts[b]:
            return "partial encoded parts have %s = %s, expected %s" % (b, short(e.doc_enc.get(b, "(absent)")),
                                                                        short(ex.parts[b]))
    for d in (e.doc_dec, e.doc_enc):
        if set(d) != own:
            return "partial dictionary holds %s, expected %s" % (order(d), order(own))
    return None


# ------------------------------------------------------------------ wrong arguments


def p_wrong(prop, case):
    lib = load.main()
    f = getattr(lib, case["fn"])
    a, sp = cp(case["arg"]), cp(case["spec"])
    before = snap(a)
    r = Res(f, a, sp)
    if prop == "C11" and case["fn"] != "decode" or prop == "C12" and case["fn"] != "encode":
        return None
    if r.ok or type(r.exc) is not TypeError:
        return "%s(%r) gave %s instead of TypeError" % (case["fn"], a, r.text())
    if snap(a) != before:
        return "argument modified before the TypeError"
    return None


# ------------------------------------------------------------------ exceptions


def p_exc(prop, case):
    lib = load.main()
    c = getattr(lib, case["cls"])
    if case.get("sub"):
        c = globals()[case["cls"] + "Sub"] = type(case["cls"] + "Sub", (c,), {"__module__": __name__})
    r = Res(c, *cp(case["args"]))
    if not r.ok:
        return "%s%r raised %s" % (case["cls"], tuple(case["args"]), r.text())
    return copies(r.val, lib)


def copies(e, lib):
    if not isinstance(e, (lib.EncodeError, lib.DecodeError)):
        return None
    if not isinstance(e, ValueError):
        return "%s is no ValueError" % type(e).__name__
    want = snap(e)
    try:
        for name, f in (("copy", copy.copy), ("deepcopy", copy.deepcopy)) + tuple(
                ("pickle protocol %d" % p, lambda e, p=p: pickle.loads(pickle.dumps(e, p)))
                for p in range(pickle.HIGHEST_PROTOCOL + 1)):
            if name != "copy" and unpicklable(e):
                continue
            r = Res(f, e)
            if not r.ok:
                return "%s of %s failed: %s" % (name, short(repr(e)), r.text())
            if type(r.val) is not type(e) or snap(r.val) != want:
                return "%s of %s gives %s" % (name, short(repr(vars(e))), short(repr(vars(r.val)) + " " + str(r.val)))
            if snap(e) != want:
                return "%s modified the original" % name
            if name != "copy":
                a, b = {}, {}
                for k, v in vars(e).items():
                    if isinstance(v, (dict, list, bytearray)) and v is getattr(r.val, k):
                        return "%s shares %s with the original" % (name, k)
            # a second generation
            r2 = Res(f, r.val)
            if not r2.ok or snap(r2.val) != want:
                return "second %s differs: %s" % (name, r2.text())
    except RecursionError:
        return "copying does not terminate"
    return None


def unpicklable(e):
    def bad(v):
        if isinstance(v, dict):
            return any(bad(k) or bad(x) for k, x in v.items())
        if isinstance(v, (list, tuple)):
            return any(map(bad, v))
        return isinstance(v, (memoryview,))

    return any(bad(v) for v in vars(e).values())


# ------------------------------------------------------------------ frame


def mutable_ids(v, out=None):
    """ids of mutable containers reachable from v."""
    if out is None:
        out = {}
    if isinstance(v, dict):
        if id(v) in out:
            return out
        out[id(v)] = v
        for k, x in v.items():
            mutable_ids(x, out)
    elif isinstance(v, (list, set, bytearray)):
        if id(v) in out:
            return out
        out[id(v)] = v
        if isinstance(v, list):
            for x in v:
                mutable_ids(x, out)
    elif isinstance(v, tuple):
        for x in v:
            mutable_ids(x, out)
    return out


def module_ids(lib):
    """mutable containers the package itself keeps."""
    out = {}
    for m in lib.mods.values():
        for k, v in vars(m).items():
            if k.startswith("__"):
                continue
            mutable_ids(v, out)
            for g in (getattr(v, "__defaults__", None), getattr(v, "__kwdefaults__", None)):
                if g:
                    mutable_ids(g if isinstance(g, dict) else tuple(g), out)
            for c in getattr(v, "__closure__", None) or ():
                try:
                    mutable_ids(c.cell_contents, out)
                except ValueError:
                    pass
            if callable(v) and getattr(v, "__dict__", None):
                mutable_ids(dict(v.__dict__), out)
    return out


def aliasing(lib, results, args):
    keep = module_ids(lib)
    ids = mutable_ids(results)
    if len(ids) != count_mutable(results):
        return "one mutable object occurs twice in the results"
    for i in ids:
        if i in keep:
            return "a result shares %s with the package" % short(repr(ids[i]))
        if i in args:
            return "a result shares %s with an argument" % short(repr(ids[i]))
    return None


def count_mutable(v):
    if isinstance(v, dict):
        return 1 + sum(count_mutable(x) for x in v.values())
    if isinstance(v, list):
        return 1 + sum(map(count_mutable, v))
    if isinstance(v, (set, bytearray)):
        return 1
    if isinstance(v, tuple):
        return sum(map(count_mutable, v))
    return 0


def good_types(dec, enc):
    if dec is not None:
        if type(dec) is not dict:
            return "decoded document is a %s" % type(dec).__name__
        for k, v in dec.items():
            if type(k) is not str or type(v) is not str:
                return "decoded entry %r: %r is not str" % (k, v)
    if type(enc) is not dict:
        return "encoded dictionary is a %s" % type(enc).__name__
    for k, v in enc.items():
        if type(k) is not str or type(v) is not dict or set(v) != {"len", "data"} or any(
                type(x) is not bytes for x in v.values()):
            return "encoded entry %r: %r is not {len: bytes, data: bytes}" % (k, v)
    return None


def frame_encode(lib, spec, doc, spec1, doc1, r):
    if keyed(spec1) != keyed(spec):
        return "encode modified the specification"
    cut = lambda d: {k: v for k, v in d.items() if not (isinstance(k, str) and k in ("p", "1", "65"))}
    a, b = cut(doc), cut(doc1)
    if snap(a) != snap(b) or any(type(k) is not type(j) for k, j in zip(a, b)):
        return "encode changed the document from %s to %s" % (short(a), short(b))
    for k in ("p", "1"):
        if k in doc1 and (type(doc1[k]) is not str) and r.ok:
            return "document entry %s is %r" % (k, doc1[k])
    if "65" in doc1:
        return "document entry 65 was not removed"
    if r.ok:
        out = good_types(None, r.val[1])
        if out:
            return out
        if type(r.val[0]) is not bytearray:
            return "message is a %s" % type(r.val[0]).__name__
        args = {**mutable_ids(spec1), **mutable_ids(doc1)}
        out = aliasing(lib, r.val, args)
        if out:
            return out
        r2 = Res(lib.encode, cp(doc), cp(spec))
        if not r2.ok:
            return None  # C17
        both = set(mutable_ids(r.val)) & set(mutable_ids(r2.val))
        if both:
            return "results of two calls share mutable objects"
    elif isinstance(r.exc, lib.EncodeError):
        out = good_types(None, r.exc.doc_enc)
        if out:
            return "in EncodeError: " + out
        out = aliasing(lib, r.exc.doc_enc, {**mutable_ids(spec1), **mutable_ids(doc1)})
        if out:
            return "in EncodeError: " + out
    return None


def frame_decode(lib, s, spec, s1, spec1, r):
    if keyed(spec1) != keyed(spec):
        return "decode modified the specification"
    if bytes(s1) != s:
        return "decode modified its input"
    res = r.val if r.ok else (r.exc.doc_dec, r.exc.doc_enc) if isinstance(r.exc, lib.DecodeError) else None
    if res is None:
        return None
    out = good_types(*res)
    if out:
        return out
    args = mutable_ids(spec1)
    args[id(s1)] = s1
    out = aliasing(lib, res, args)
    if out:
        return out
    if r.ok:
        r2 = Res(lib.decode, s, cp(spec))
        if r2.ok and set(mutable_ids(r.val)) & set(mutable_ids(r2.val)):
            return "results of two calls share mutable objects"
    return None


# ------------------------------------------------------------------ determinism


def determinism_encode(lib, spec, doc):
    first = Res(load.fresh().encode, cp(doc), cp(spec)).snap()
    r = Res(lib.encode, cp(doc), cp(spec))
    if r.snap() != first:
        return "encode gives %s now, and %s in a new process" % (short(r.snap()), short(first))
    if r.ok:
        for flip in (lambda ks: ks[::-1], sorted):
            try:
                ks = flip(list(doc))
            except TypeError:
                continue
            d = cp({k: doc[k] for k in ks})
            r2 = Res(lib.encode, d, cp(spec))
            if not r2.ok or r2.val[0] != r.val[0] or r2.val[1] != r.val[1]:
                return "insertion order of the keys changes the result from %s to %s" % (r.text(), r2.text())
    return None


def strip_kind(x):
    """ignore whether the input carried in an error is bytes or bytearray."""
    r = []
    if x.ok:
        return ("ok", snap(x.val))
    e = x.exc
    d = dict(vars(e))
    if "s" in d:
        d["s"] = bytes(d["s"])
    return ("exc", type(e).__name__, str(e), snap(d))


def determinism_decode(lib, s, spec):
    first = Res(load.fresh().decode, s, cp(spec))
    r = Res(lib.decode, s, cp(spec))
    if r.snap() != first.snap():
        return "decode gives %s now, and %s in a new process" % (r.text(), first.text())
    b = Res(lib.decode, bytearray(s), cp(spec))
    if strip_kind(b) != strip_kind(r):
        return "decode of bytes gives %s, of the equal bytearray %s" % (r.text(), b.text())
    return None


def p_history(prop, case):
    a = cp(case["args"])
    specs, docs, msgs = a["specs"], a["docs"], a["msgs"]
    lib = load.fresh()
    results = []
    trail = []
    for st in case["steps"]:
        trail.append(st)
        if st[0] == "edit":
            _, i, k, o, v = st
            if k in specs[i]:
                specs[i][k][o] = v
            continue
        if st[0] == "scribble":
            if results:
                scribble(results[st[1] % len(results)])
            continue
        if st[0] == "encode":
            d, sp = docs[st[1]], specs[st[2]]
            dc, sc = cp(d), cp(sp)
            r = Res(lib.encode, d, sp)
            w = Res(load.fresh().encode, dc, sc)
            after = snap(d) == snap(dc)
        elif st[0] == "decode":
            s, sp = msgs[st[1]], specs[st[2]]
            kind = bytes if st[3] == "bytes" else bytearray
            s1 = kind(s)
            sc = cp(sp)
            r = Res(lib.decode, s1, sp)
            w = Res(load.fresh().decode, kind(s), sc)
            after = True
        else:
            d, sp = docs[st[1]], specs[st[2]]
            if not printable(d, sp):
                continue
            x, y = io.StringIO(), io.StringIO()
            r = Res(lib.pp, d, sp, st[3], x, st[4])
            w = Res(load.fresh().pp, cp(d), cp(sp), st[3], y, st[4])
            after = x.getvalue() == y.getvalue()
        if prop == "C17" and (r.snap() != w.snap() or not after):
            return "after %s: %s gives %s, and %s in a new process" % (trail[:-1], st, r.text(), w.text())
        if prop == "C16":
            args = {}
            for v in specs + docs:
                mutable_ids(v, args)
            new = r.val if r.ok else (getattr(r.exc, "doc_enc", None),)
            if st[0] != "pp" and new is not None:
                out = aliasing(lib, new, args)
                if out:
                    return "after %s: %s" % (trail, out)
                prev = {}
                for p in results:
                    mutable_ids(p, prev)
                if set(prev) & set(mutable_ids(new)):
                    return "after %s: results of two calls share mutable objects" % (trail,)
        if r.ok and st[0] != "pp":
            results.append(r.val)
    return None


def printable(d, sp):
    return all(not (isinstance(k, str) and (k in ("h", "t", "p") or k.isnumeric())) or k in sp and "desc" in sp[k] for k in d)


def scribble(v):
    """use a result as its owner may: change it."""
    for x in mutable_ids(v).values():
        if isinstance(x, dict):
            for k in list(x):
                if isinstance(x[k], (str, bytes)):
                    x[k] = "scribbled" if isinstance(x[k], str) else b"scribbled"
            x["scribble"] = "x"
        elif isinstance(x, bytearray):
            x += b"scribble"


def p_interleave(prop, case):
    a = case["args"]

    def call(lib, step, b):
        if step[0] == "encode":
            return Res(lib.encode, b["docs"][step[1]], b["specs"][step[2]])
        return Res(lib.decode, b["msgs"][step[1]], b["specs"][step[2]])

    one, two = case["first"], case["second"]
    want1 = call(load.fresh(), one, cp(a)).snap()
    want2 = call(load.fresh(), two, cp(a)).snap()
    lib = load.fresh()
    lines = Lines(lib)
    lines.run(lambda: call(lib, one, cp(a)))
    total = lines.count
    if not total:
        return None
    lib = load.fresh()
    at = int(case["at"] * total)
    got = []
    lines = Lines(lib, at, lambda: got.append(call(lib, two, cp(a))))
    r = lines.run(lambda: call(lib, one, cp(a)))
    if r.snap() != want1:
        return "%s interrupted by %s gives %s" % (one, two, r.text())
    if got and got[0].snap() != want2:
        return "%s run while %s is in progress gives %s" % (two, one, got[0].text())
    return None


class Lines:
    """runs something at the n-th executed line of the package, as a thread switch there would."""

    def __init__(self, lib, at=None, then=None):
        self.count, self.at, self.then = 0, at, then
        self.files = {m.__spec__.origin for m in lib.mods.values()}

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename not in self.files:
            return None
        if event == "line":
            if self.count == self.at:
                self.count += 1
                sys.settrace(None)
                self.then()
                sys.settrace(self.trace)
            else:
                self.count += 1
        return self.trace

    def run(self, f):
        old = sys.gettrace()
        sys.settrace(self.trace)
        try:
            return f()
        finally:
            sys.settrace(old)


# ------------------------------------------------------------------ pp


class Out:
    """a stream with nothing but write()."""

    def __init__(self):
        self.parts = []

    def write(self, t):
        if not isinstance(t, str):
            raise TypeError("write() argument must be str, not %s" % type(t).__name__)
        self.parts.append(t)


def run_pp(lib, case, doc=None, spec=None, stream=True):
    doc = cp(case["doc"]) if doc is None else doc
    spec = cp(case["spec"]) if spec is None else spec
    o = Out()
    if stream:
        return Res(lib.pp, doc, spec, case["desc_width"], o, case["line_width"]), "".join(o.parts)
    old, sys.stdout = sys.stdout, o
    try:
        r = Res(lib.pp, doc, spec, desc_width=case["desc_width"], line_width=case["line_width"])
    finally:
        sys.stdout = old
    return r, "".join(o.parts)


def entries(case):
    """[(key, lead text, indent, value)] pp must write."""
    doc, spec, dw = case["doc"], case["spec"], case["desc_width"]
    ks = [k for k in ("h", "t", "p") if k in doc and (k != "h" or ref.header_on(spec))]
    ks += sorted((k for k in doc if isinstance(k, str) and k.isnumeric()), key=int)
    out = []
    for k in ks:
        lead = "%-3s" % k
        if dw > 0:
            lead += " " + spec[k]["desc"][:dw].ljust(dw)
        lead += ": "
        v = doc[k]
        indent = 5 + (dw + 1 if dw > 0 else 0)
        if isinstance(v, dict):
            n = v.get("len", b"")
            if len(n):
                lead += repr(n) + " "
                indent += len(repr(n)) + 1
            v = v.get("data", b"")
        out.append((k, lead, indent, v))
    return out


def folded(v, indent, lw):
    if len(repr(v)) + indent <= lw or type(v) not in (str, bytes) or len(v) <= 1:
        return [repr(v)]
    w = lw - indent
    if type(v) is str:
        n = max(1, w - 2)
        return [repr(v[i:i + n]) for i in range(0, len(v), n)]
    out, cur = [], b""
    for i in range(len(v)):
        if cur and len(repr(cur + v[i:i + 1])) > w:
            out.append(repr(cur))
            cur = b""
        cur += v[i:i + 1]
    return out + [repr(cur)]


def p_pp(prop, case):
    lib = load.main()
    doc, spec = cp(case["doc"]), cp(case["spec"])
    r, text = run_pp(lib, case, doc, spec)
    if prop == "C16":
        if keyed(doc) != keyed(case["doc"]) or keyed(spec) != keyed(case["spec"]):
            return "pp modified its arguments"
        return None
    if prop == "C17":
        f = load.fresh()
        r2, text2 = run_pp(f, case)
        if r.snap() != r2.snap() or text != text2:
            return "pp writes %r now and %r in a new process" % (short(text), short(text2))
        return None
    if not r.ok:
        return "pp raised %s" % r.text() if prop == "C18" else None
    es = entries(case)
    if prop == "C19":
        want = "".join(lead + ("\n" + " " * indent).join(folded(v, indent, case["line_width"])) + "\n"
                       for k, lead, indent, v in es)
        if text != want and same_shape(text, want):
            return "pp writes %s, expected %s" % (short(repr(text), 1500), short(repr(want), 1500))
        return None
    # C18: every entry once, in order, with its value
    r3, text3 = run_pp(lib, case, stream=False)
    if not r3.ok or text3 != text:
        return "pp without a stream writes %s to standard output instead of %s" % (short(repr(text3)), short(repr(text)))
    if r.val is not None:
        return "pp returned %r" % (r.val,)
    rest = text
    for k, lead, indent, v in es:
        if not rest.startswith(lead):
            return "entry %s: expected %r, found %r" % (k, lead, short(rest[:120]))
        rest = rest[len(lead):]
        if type(v) not in (str, bytes):
            if not rest.startswith(repr(v) + "\n"):
                return "entry %s: expected %s, found %r" % (k, short(repr(v)), short(rest[:120]))
            rest = rest[len(repr(v)) + 1:]
            continue
        got = type(v)()
        first = True
        while True:
            i = rest.find("\n")
            if i < 0:
                return "entry %s: no end of line in %r" % (k, short(rest))
            line, rest = rest[:i], rest[i + 1:]
            try:
                x = ast.literal_eval(line.strip(" ") if not first else line)
            except Exception:
                return "entry %s: %r is no Python literal" % (k, short(line))
            if type(x) is not type(v):
                return "entry %s: %r is no %s literal" % (k, short(line), type(v).__name__)
            got += x
            first = False
            if not rest.startswith(" "):
                break
        if got != v:
            return "entry %s: value %s is shown as %s" % (k, short(repr(v)), short(repr(got)))
    if rest:
        return "pp also writes %r" % short(rest)
    return None


def same_shape(a, b):
    """the texts differ in layout only (otherwise it is C18's subject)."""
    return True


# ------------------------------------------------------------------ shipped specifications


def p_shipped(prop, case):
    from . import shipped

    return shipped.check(load.main(), case)
