"""Reference model of whole messages, built on spec/field_spec.py; uses no code of /repo."""
import codecs
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from spec import field_spec as F  # noqa: E402

BITMAPS = ("p", "1")


def header_on(spec):
    return spec["h"]["max_len"] > 0


class Dec:
    """reference outcome of decode: elements before the failure and the failure."""

    def __init__(self):
        self.text, self.parts, self.order = {}, {}, []  # documents, message order
        self.fail = None  # (key, pos, tag)
        self.flagged = None  # field numbers, when the bitmaps are readable
        self.bitmap_at = {}  # key -> (start, end) of p, 1, 65
        self.end = 0

    @property
    def ok(self):
        return self.fail is None


def ref_decode(s, spec):
    s = bytes(s)
    r = Dec()
    i = 0

    def put(k, t, L, D):
        if k not in r.parts:
            r.order.append(k)
        r.text[k] = t
        r.parts[k] = {"len": L, "data": D}

    if header_on(spec):
        tag, pos, L, D, t, end = F.decode_field(s, 0, spec["h"])
        if tag != "ok":
            r.fail = ("h", pos, tag)
            return r
        put("h", t, L, D)
        i = end
    n = 2 if spec["t"]["data_enc"] == "b" else 4
    D = s[i:i + n]
    t = F.image_of_bytes(D, spec["t"]["data_enc"])
    if len(D) != n or t is None:
        r.fail = ("t", i, "data_short" if len(D) != n else "codec")
        return r
    put("t", t, b"", D)
    i += n
    bits = set()
    for name, key, off in (("p", "p", 0), ("1", "1", 64), ("65", "1", 128)):
        if name == "1" and 1 not in bits or name == "65" and 65 not in bits:
            continue
        enc = spec[key]["data_enc"]
        n = 8 if enc == "b" else 16
        D = s[i:i + n]
        t = F.image_of_bytes(D, enc)
        raw = None
        if len(D) == n and t is not None:
            raw = D if enc == "b" else F.from_hex(t)
        if raw is None or len(raw) != 8:
            r.fail = (key, i, "data_short" if len(D) != n else "codec" if t is None else "hex")
            return r
        if name == "65":
            put(key, r.text[key] + t, b"", r.parts[key]["data"] + D)
        else:
            put(key, t, b"", D)
        r.bitmap_at[name] = (i, i + n)
        for j in range(64):
            if raw[j // 8] >> (7 - j % 8) & 1:
                bits.add(off + j + 1)
        i += n
    r.flagged = sorted(bits - {1, 65})
    for f in r.flagged:
        k = str(f)
        if k not in spec:
            r.fail = (k, i, "undefined")
            return r
        tag, pos, L, D, t, end = F.decode_field(s, i, spec[k])
        if tag != "ok":
            r.fail = (k, pos, tag)
            return r
        put(k, t, L, D)
        i = end
    r.end = i
    if i != len(s):
        r.fail = (r.order[-1], i, "extra")
    return r


class Enc:
    def __init__(self):
        self.parts, self.order = {}, []
        self.fail = None  # (key, tag)
        self.fields = None
        self.bitmaps = None  # hex, by entry
        self.tags = {}

    @property
    def ok(self):
        return self.fail is None

    @property
    def raw(self):
        return b"".join(self.parts[k]["len"] + self.parts[k]["data"] for k in self.order)


def numeric(k):
    return isinstance(k, str) and k.isnumeric()


def canonical(k):
    return isinstance(k, str) and k.isascii() and k.isdigit() and len(k) < 4 and str(int(k)) == k and 1 <= int(k) <= 192


def unspecified(value):
    """hex digits as bytes: documents hold strings; whether these are taken is not specified."""
    return isinstance(value, (bytes, bytearray, memoryview))


def element(value, fs):
    if not isinstance(value, str):
        return ("image", b"", b"", 0)
    return F.encode_field(value, fs)


def ref_encode(doc, spec):
    r = Enc()
    doc = {k: v for k, v in doc.items() if not (isinstance(k, str) and k in ("1", "65"))}

    def put(k, L, D):
        r.order.append(k)
        r.parts[k] = {"len": L, "data": D}

    if header_on(spec):
        if "h" not in doc:
            r.fail = ("h", "missing")
            return r
        tag, L, D, n = element(doc["h"], spec["h"])
        r.tags["h"] = tag
        if tag != "ok":
            r.fail = ("h", tag)
            return r
        put("h", L, D)
    if "t" not in doc:
        r.fail = ("t", "missing")
        return r
    b = spec["t"]["data_enc"] == "b"
    D = None
    if isinstance(doc["t"], str):
        D = F.from_hex(doc["t"]) if b else F.image_of_text(doc["t"], {"data_enc": spec["t"]["data_enc"]})[0]
    if D is None or len(D) != (2 if b else 4):
        r.fail = ("t", "image" if D is None else "length")
        return r
    put("t", b"", D)
    if any(not isinstance(k, str) for k in doc) or any(numeric(k) and not canonical(k) for k in doc):
        r.fail = ("p", "keys")
        return r
    r.fields = sorted(int(k) for k in doc if numeric(k))
    r.bitmaps = bitmaps(r.fields)
    for key in ("p", "1"):
        if key not in r.bitmaps:
            continue
        D = encode_bitmap(r.bitmaps[key], spec[key]["data_enc"])
        if D is None:
            r.fail = (key, "image")
            return r
        put(key, b"", D)
    for f in r.fields:
        k = str(f)
        if k not in spec:
            r.fail = (k, "undefined")
            return r
        tag, L, D, n = element(doc[k], spec[k])
        if tag != "ok":
            r.fail = (k, tag)
            return r
        put(k, L, D)
    return r


def encode_bitmap(hexa, enc):
    if enc == "b":
        return bytes.fromhex(hexa)
    try:
        return hexa.encode(enc)
    except Exception:
        return None


def bitmaps(fields):
    """{'p': 16 hex digits, '1': 16 or 32} for field numbers 2-64, 66-192."""
    on = set(fields)
    third = any(f > 128 for f in on)
    if third:
        on.add(65)
    second = any(f > 64 for f in on)
    if second:
        on.add(1)

    def word(lo):
        v = 0
        for f in on:
            if lo < f <= lo + 64:
                v |= 1 << (64 - (f - lo))
        return "%016X" % v

    out = {"p": word(0)}
    if second:
        out["1"] = word(64) + (word(128) if third else "")
    return out


# ------------------------------------------------------------------ well-formed specifications

SINGLE = ["ascii", "latin-1", "cp500", "cp037", "cp1140", "iso8859-5", "koi8-r"]
MULTI = ["utf-8", "utf-16-le", "utf-32-be"]
# real codecs with states, several spellings or errors of other classes: only where round trips do not matter
ODD = ["idna", "punycode", "utf-7", "utf-8-sig", "utf-16", "unicode_escape", "raw_unicode_escape", "shift_jis", "iso2022_jp", "hz"]
BAD = ["no-such-codec", "hex", "rot13", "x" * 40, ""]


def known(enc):
    try:
        return codecs.lookup(enc)._is_text_encoding
    except Exception:
        return False
