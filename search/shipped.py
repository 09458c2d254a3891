"""C20: the specifications shipped with the package."""
import codecs
import json

from . import ref
from .ref import F

MANDATORY = ("data_enc", "len_enc", "len_type", "max_len", "desc")
NAMES = ("default", "default_ascii")


def specs(lib):
    """every shipped specification, by name."""
    out = {}
    for k, v in vars(lib.specs).items():
        if not k.startswith("_") and isinstance(v, dict) and "t" in v and "p" in v:
            out[k] = v
    return out


def wellformed(name, sp):
    """[what is wrong]"""
    bad = []
    want = ["h", "t", "p"] + [str(i) for i in range(1, 129)]
    for k in want:
        if k not in sp:
            bad.append("%s does not define %s" % (name, k))
    for k, fs in sp.items():
        if k not in want:
            if not (isinstance(k, str) and ref.canonical(k)):
                bad.append("%s defines %r" % (name, k))
                continue
        for m in MANDATORY:
            if m not in fs:
                bad.append("%s[%s] has no %s" % (name, k, m))
        if any(m not in fs for m in MANDATORY):
            continue
        for e in ("data_enc", "len_enc"):
            v = fs[e]
            if type(v) is not str or not (v == "b" or v == "bcd" and e == "len_enc" or text_codec(v)):
                bad.append("%s[%s][%s] is %r" % (name, k, e, v))
        for e in ("len_type", "max_len"):
            v = fs[e]
            if type(v) is not int or v < 0:
                bad.append("%s[%s][%s] is %r" % (name, k, e, v))
        if type(fs["desc"]) is not str or not fs["desc"].strip():
            bad.append("%s[%s] has no description" % (name, k))
        for e in ("left_pad", "right_pad"):
            v = fs.get(e, "")
            if type(v) is not str or v[:1] not in "0123456789ABCDEF":
                bad.append("%s[%s][%s] is %r" % (name, k, e, v))
        if fs.get("left_pad", "") and fs.get("right_pad", ""):
            bad.append("%s[%s] has two pads" % (name, k))
        if fs.get("len_count", "bytes") not in ("bytes", "nibbles"):
            bad.append("%s[%s][len_count] is %r" % (name, k, fs["len_count"]))
        if k in ("t", "p", "1"):
            size = {"t": (2, 4), "p": (8, 16), "1": (8, 16)}[k][0 if fs["data_enc"] == "b" else 1]
            if fs["len_type"] != 0 or fs["max_len"] != size or fs.get("len_count", "bytes") != "bytes":
                bad.append("%s[%s] is not fixed with %d bytes" % (name, k, size))
        elif fs["len_type"] > 0 and type(fs["max_len"]) is int:
            if F.prefix_of(fs["max_len"], fs["len_type"], fs["len_enc"]) is None:
                bad.append("%s[%s]: maximum length %d does not fit the length prefix" % (name, k, fs["max_len"]))
    try:
        if json.loads(json.dumps(sp)) != sp:
            bad.append("%s does not survive JSON conversion" % name)
    except Exception as e:
        bad.append("%s does not survive JSON conversion: %s" % (name, e))
    return bad


def text_codec(v):
    try:
        return "0".encode(v).decode(v) == "0" and codecs.lookup(v) is not None
    except Exception:
        return False


ALPHABET = "0123456789ABCXYZabc -./"


def value(fs, n, pat):
    """a value of counted length n, or None when there is none."""
    nib = fs.get("len_count", "bytes") == "nibbles"
    if fs["data_enc"] == "b":
        k = n if nib else 2 * n
        if nib and n % 2 and not (fs.get("left_pad", "") or fs.get("right_pad", "")):
            return None
        return (pat["hex"] * (k // len(pat["hex"]) + 1))[:k]
    if nib and n % 2:
        return None
    k = n // 2 if nib else n
    return (pat["text"] * (k // len(pat["text"]) + 1))[:k]


PATTERNS = [dict(hex="0", text="0"), dict(hex="0123456789ABCDEF", text=ALPHABET), dict(hex="F", text=" "),
            dict(hex="10F", text="Z9 ")]


def lengths(fs):
    m = fs["max_len"]
    if fs["len_type"] == 0:
        return [m]
    return sorted(n for n in {0, 1, 2, m // 2, m - 1, m} | set(range(0, min(m, 40))) if 0 <= n <= m)


def check(lib, case):
    sp = specs(lib).get(case["spec"])
    if sp is None:
        return "specification %s is not shipped" % case["spec"]
    if case.get("what") == "wf":
        bad = wellformed(case["spec"], sp)
        return bad[0] if bad else None
    doc = {"t": "0200"}
    if ref.header_on(sp):
        doc["h"] = value(sp["h"], sp["h"]["max_len"], PATTERNS[1])
    for k, v in case["values"].items():
        doc[k] = v
    want = dict(doc)
    try:
        raw, enc = lib.encode(doc, sp)
        dec, enc2 = lib.decode(raw, sp)
    except Exception as e:
        return "%s: %s: %s" % (case["spec"], type(e).__name__, str(e)[:300])
    for k, v in want.items():
        if sp[k]["data_enc"] == "b":
            v = v.upper()
        if dec.get(k) != v:
            return "%s[%s]: %r comes back as %r" % (case["spec"], k, str(v)[:200], str(dec.get(k))[:200])
    return None


def cases(lib):
    for name in sorted(set(NAMES) | set(specs(lib))):
        yield {"kind": "shipped", "spec": name, "what": "wf"}
        sp = specs(lib).get(name)
        if sp is None or wellformed(name, sp):
            continue
        regular = [k for k in sp if k not in ("h", "t", "p", "1", "65")]
        for k in regular:
            for pat in PATTERNS:
                for n in lengths(sp[k]):
                    v = value(sp[k], n, pat)
                    if v is not None:
                        yield {"kind": "shipped", "spec": name, "values": {k: v}}
        for pat in PATTERNS:
            yield {"kind": "shipped", "spec": name, "values": {k: value(sp[k], sp[k]["max_len"], pat) for k in regular if
                                                               value(sp[k], sp[k]["max_len"], pat) is not None}}
