"""Random, directed cases: specifications, documents, messages, histories."""
import copy
import json
import os
import string

from . import load, ref
from .ref import BAD, ODD, MULTI, SINGLE

F = ref.F
HEXU = "0123456789ABCDEF"
BOUND_FIELDS = [2, 3, 7, 8, 9, 15, 16, 17, 24, 32, 33, 48, 55, 56, 63, 64, 66, 67, 72, 73, 96, 120, 127, 128, 129, 130,
                136, 137, 160, 191, 192]
LENS = [0, 1, 2, 3, 4, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 99, 100, 101, 127, 128, 199, 200, 255, 256, 257, 998, 999,
        1000, 1001]
BIG = [4095, 4096, 4097, 9998, 9999, 10000, 65535, 65536]
BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "baseline_literals.json")


class Obj:
    """a value that is no message data."""

    def __repr__(self):
        return "Obj()"

    def __eq__(self, o):
        return isinstance(o, Obj)

    def __hash__(self):
        return 7


def mined():
    """literals of the current source that the reviewed source does not have, and all of them."""
    ints, strs, byts = load.literals()
    try:
        with open(BASE) as f:
            b = json.load(f)
    except OSError:
        b = {"ints": {}, "strs": {}, "bytes": {}}
    ni = [v for v in ints if ints[v] > b["ints"].get(str(v), 0)]
    ns = [v for v in strs if strs[v] > b["strs"].get(v, 0)]
    nb = [v for v in byts if byts[v] > b["bytes"].get(v.hex(), 0)]
    return dict(ints=sorted(ints), strs=sorted(strs), bytes=sorted(byts), new_ints=sorted(ni), new_strs=sorted(ns),
                new_bytes=sorted(nb))


def write_baseline():
    ints, strs, byts = load.literals()
    with open(BASE, "w") as f:
        json.dump({"ints": {str(k): v for k, v in sorted(ints.items())}, "strs": dict(sorted(strs.items())),
                   "bytes": {k.hex(): v for k, v in sorted(byts.items())}}, f, indent=0, sort_keys=True)


def cp(v):
    """a deep copy (memoryviews cannot be deep-copied)."""
    if isinstance(v, dict):
        return {k: cp(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(cp(x) for x in v)
    if isinstance(v, (memoryview, Obj)):
        return v
    return copy.deepcopy(v)


class Gen:
    def __init__(self, rng, lits, hints=None):
        self.r = rng
        self.l = lits
        self.hint_ints = [h for h in (hints or ()) if 0 <= h < 10 ** 6]
        self.uni = False

    # -------------------------------------------------------------- scalars

    def chance(self, p):
        return self.r.random() < p

    def length(self, cap=70000):
        """a length worth trying, at most cap."""
        r = self.r
        for _ in range(6):
            x = r.random()
            if x < 0.35:
                v = r.randrange(0, 24)
            elif x < 0.7:
                v = r.choice(LENS)
            elif x < 0.72:
                v = r.choice(BIG)
            elif x < 0.9 and (self.l["new_ints"] or self.hint_ints):
                v = r.choice(self.l["new_ints"] + self.hint_ints) + r.choice((-1, 0, 1, 0))
                if self.chance(0.15):
                    v = v * 2 + r.choice((-1, 0, 1))
            elif x < 0.95 and self.l["ints"]:
                v = r.choice(self.l["ints"]) + r.choice((-1, 0, 1))
            else:
                v = r.randrange(0, 400)
            if 0 <= v <= cap:
                return v
        return r.randrange(0, min(cap, 12) + 1)

    def hexs(self, n, upper=False):
        r = self.r
        x = r.random()
        if x < 0.5:
            a = HEXU
        elif x < 0.75:
            a = "0123456789"
        elif x < 0.85:
            a = "0F"
        else:
            a = HEXU if upper else HEXU + "abcdef"
        if n > 600:
            base = "".join(r.choices(a, k=64))
            s = (base * (n // 64 + 1))[:n]
        else:
            s = "".join(r.choices(a, k=n))
        if n and self.chance(0.25):
            c = r.choice("0F0FA")
            k = r.randrange(1, min(4, n) + 1)
            s = (c * k + s[k:]) if self.chance(0.5) else s[:n - k] + c * k
        return s

    def chars(self, enc, n):
        """n characters the codec can encode."""
        r = self.r
        x = r.random()
        if x < 0.3:
            a = string.digits
        elif x < 0.6:
            a = string.ascii_letters + string.digits + " "
        elif x < 0.75:
            a = " 0" + string.punctuation
        elif x < 0.85:
            a = "\0 \t\r\n'\"\\0A"
        else:
            if enc in MULTI:
                a = "aé ß水𐍈\0"
            else:
                try:
                    a = bytes(range(256)).decode(enc)
                except Exception:
                    a = bytes(range(128)).decode("ascii")
                if enc == "ascii":
                    a = "".join(map(chr, range(128)))
        if n > 600:
            base = "".join(r.choices(a, k=64))
            s = (base * (n // 64 + 1))[:n]
        else:
            s = "".join(r.choices(a, k=n))
        if n and self.chance(0.25):
            c = r.choice(" 0\0\n F")
            k = r.randrange(1, min(3, n) + 1)
            y = r.random()
            s = c * k + s[k:] if y < 0.4 else s[:n - k] + c * k if y < 0.8 else c * n
        if self.chance(0.08):
            pool = [t for t in (self.l["new_strs"] or self.l["strs"]) if t and len(t) <= max(n, 0)]
            try:
                if pool:
                    t = r.choice(pool)
                    t.encode(enc)
                    s = t + s[len(t):] if self.chance(0.5) else s[:n - len(t)] + t
            except Exception:
                pass
        return s

    # -------------------------------------------------------------- specifications

    def codec(self, robust):
        r = self.r
        x = r.random()
        if robust and x < 0.06:
            return r.choice(BAD if x < 0.03 else ODD)
        if x < 0.4:
            return "ascii"
        if x < 0.85:
            return r.choice(SINGLE)
        return r.choice(MULTI)

    def field_spec(self, robust=False, onepad=True):
        r = self.r
        fs = {}
        fs["data_enc"] = "b" if self.chance(0.45) else self.codec(robust)
        x = r.random()
        if x < 0.35:
            fs["len_enc"] = "ascii"
        elif x < 0.55:
            fs["len_enc"] = "b"
        elif x < 0.75:
            fs["len_enc"] = "bcd"
        elif robust and x < 0.78:
            fs["len_enc"] = r.choice(BAD)
        else:
            fs["len_enc"] = r.choice(SINGLE)
        fs["len_type"] = r.choice((0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 10))
        if self.chance(0.05) and self.l["new_ints"]:
            v = r.choice(self.l["new_ints"])
            if 0 <= v <= 20:
                fs["len_type"] = v
        cap = self.capacity(fs)
        x = r.random()
        if fs["len_type"] == 0:
            fs["max_len"] = self.length(3000)
        elif x < 0.3:
            fs["max_len"] = min(cap, 10 ** 6)
        elif x < 0.36:
            fs["max_len"] = min(cap, 10 ** 6) + r.choice((1, 5, 100))
        else:
            fs["max_len"] = self.length(20000)
        if self.chance(0.5):
            fs["len_count"] = r.choice(("nibbles", "nibbles", "bytes"))
        pads = ["0", "F", "A", "0", "F", "0F", "F0", "00", "", "", "5"]
        x = r.random()
        if x < 0.35:
            fs["left_pad"] = r.choice(pads)
        elif x < 0.7:
            fs["right_pad"] = r.choice(pads)
        elif x < 0.8:
            fs["left_pad"], fs["right_pad"] = r.choice((("", "F"), ("0", ""), ("", ""), ("", "0")))
            if not onepad:
                fs["left_pad"], fs["right_pad"] = r.choice(pads), r.choice(pads)
        if self.chance(0.7):
            fs["desc"] = "d"
        if self.l["new_strs"] and self.chance(0.05):
            k = r.choice(self.l["new_strs"])
            if k not in fs and k not in ("len_count", "left_pad", "right_pad", "desc") and k:
                fs[k] = r.choice((True, 0, "", r.choice(self.l["new_strs"])))
        return fs

    @staticmethod
    def capacity(fs):
        n = fs["len_type"]
        if n == 0:
            return 10 ** 9
        return 256 ** n - 1 if fs["len_enc"] == "b" else 10 ** (2 * n) - 1 if fs["len_enc"] == "bcd" else 10 ** n - 1

    def spec(self, fields, robust=False, onepad=True):
        r = self.r
        x = r.random()
        lib = load.main()
        if x < 0.06:
            sp = copy.deepcopy(lib.specs.default if self.chance(0.5) else lib.specs.default_ascii)
            return sp
        sp = {}
        h = self.field_spec(robust, onepad)
        if self.chance(0.6):
            h["max_len"] = 0
        if self.chance(0.02):
            h["max_len"] = -r.randrange(1, 3)
        sp["h"] = h
        for k in ("t", "p", "1"):
            x = r.random()
            e = "b" if x < 0.4 else "ascii" if x < 0.7 else r.choice(SINGLE)
            if robust and self.chance(0.01):
                e = r.choice(BAD)
            sp[k] = {"data_enc": e, "len_enc": "ascii", "len_type": 0,
                     "max_len": {"t": 2 if e == "b" else 4}.get(k, 8 if e == "b" else 16), "desc": "d"}
        if self.chance(0.5):
            sp["1"]["data_enc"] = sp["p"]["data_enc"]
        uniform = self.field_spec(robust, onepad) if self.chance(0.25) else None
        for f in fields:
            if robust and self.chance(0.02):
                continue
            sp[str(f)] = dict(uniform) if uniform else self.field_spec(robust, onepad)
        if self.chance(0.3):
            for f in r.sample(range(2, 193), 3):
                if f != 65 and str(f) not in sp:
                    sp[str(f)] = self.field_spec(robust, onepad)
        if self.chance(0.1):
            sp["65"] = self.field_spec(robust, onepad)
        if self.chance(0.05):
            ks = list(sp)
            r.shuffle(ks)
            sp = {k: sp[k] for k in ks}
        return sp

    def fields(self):
        r = self.r
        x = r.random()
        n = r.choice((0, 1, 1, 1, 2, 2, 3, 4, 6))
        if x < 0.35:
            fs = r.sample(BOUND_FIELDS, min(n, len(BOUND_FIELDS)))
        elif x < 0.75:
            fs = r.sample(range(2, 193), n)
        elif x < 0.9:
            lo = r.choice((2, 66, 129))
            fs = r.sample(range(lo, min(lo + 63, 193)), n)
        elif x < 0.94:
            fs = [f for f in range(2, 193) if self.chance(0.15)]
        elif x < 0.945:
            fs = list(range(2, 193))
        else:
            c = [v for v in self.l["new_ints"] + self.l["ints"] if 1 < v < 193]
            fs = [r.choice(c) for _ in range(n)] if c else []
        return sorted(set(f for f in fs if f != 65))

    # -------------------------------------------------------------- values

    def target(self, fs):
        """a counted length for a field: usually permitted, often a boundary."""
        r = self.r
        m = max(fs["max_len"], 0)
        cap = self.capacity(fs)
        x = r.random()
        if fs["len_type"] == 0:
            if x < 0.92:
                return m
            return max(0, m + r.choice((-2, -1, 1, 2, -m)))
        top = min(m, cap)
        if top > 65535 and x < 0.01:
            return min(top, r.choice((65535, 65536, 65537, 65792, 99999, 100000)))
        if x < 0.2:
            return min(top, 12000)
        if x < 0.24:
            return min(top + r.choice((1, 1, 2, 9)), 12000)
        if x < 0.28:
            return max(min(top - 1, 12000), 0)
        return min(self.length(12000), top)

    def value(self, fs, upper=False):
        n = self.target(fs)
        nib = fs.get("len_count", "bytes") == "nibbles"
        if fs["data_enc"] == "b":
            k = n if nib else 2 * n
            if self.chance(0.01):
                k += 1
            v = self.hexs(k, upper)
            if not upper and self.chance(0.02) and v:
                i = self.r.randrange(len(v))
                v = v[:i] + self.r.choice("gG x\n_+٣") + v[i + 1:]
            return v
        enc = fs["data_enc"]
        k = n // 2 if nib else n
        if enc in MULTI:
            w = {"utf-16-le": 2, "utf-32-be": 4}.get(enc, 1)
            v = self.chars("ascii" if w == 1 and self.chance(0.5) else enc, k // w)
            if v and self.chance(0.02):
                i = self.r.randrange(len(v))
                return v[:i] + "\ud800" + v[i + 1:]
            if w == 1:
                while len(v.encode(enc)) > k:
                    v = v[:-1]
                v += "x" * (k - len(v.encode(enc)))
            return v
        v = self.chars(enc, k)
        if self.chance(0.02) and v:
            i = self.r.randrange(len(v))
            v = v[:i] + self.r.choice("水\ud800é") + v[i + 1:]
        return v

    def mtype(self, e):
        r = self.r
        if e == "b":
            return r.choice(("0200", "0210", "9ABC", "abcd", "FFFF")) if self.chance(0.7) else self.hexs(4)
        return r.choice(("0200", "0800", "0421", "AbCd")) if self.chance(0.6) else self.chars(e, 4)

    def document(self, spec, fields, junk=True):
        r = self.r
        d = {}
        if ref.header_on(spec) or self.chance(0.1):
            d["h"] = self.value(spec["h"])
        d["t"] = self.mtype(spec["t"]["data_enc"])
        for f in fields:
            if str(f) in spec:
                d[str(f)] = self.value(spec[str(f)])
        if junk:
            if self.chance(0.25):
                d["p"] = r.choice(("", "FFFFFFFFFFFFFFFF", "4000000000000000", None, 5))
            if self.chance(0.25):
                d["1"] = r.choice(("", "FFFFFFFFFFFFFFFF", "0" * 32, None, b"\0", {"a": 1}))
            if self.chance(0.15):
                d["65"] = r.choice(("1", "0000", None, 3))
            if self.chance(0.15):
                d[r.choice(("bm", "", "x", "note", "H", "tt", "-1", "+3", "1.5", " 2", "2 ", "0x10"))] = r.choice(
                    ("v", None, 1))
            if self.l["new_strs"] and self.chance(0.06):
                k = r.choice(self.l["new_strs"])
                if k not in d and not k.isnumeric():
                    d[k] = r.choice(("v", "0200", 1, True))
        if self.chance(0.6):
            ks = list(d)
            r.shuffle(ks)
            d = {k: d[k] for k in ks}
        return d

    def bad_value(self):
        return self.r.choice((None, 5, 0, 1.5, True, b"12", b"", bytearray(b"0200"), ["1"], [], ("1",), {}, {"a": "b"},
                              Obj(), "\ud800", "", "0", "zz", "٣٤", set(), range(3), memoryview(b"12")))

    def bad_document(self, spec, fields):
        """a document with something wrong in it."""
        r = self.r
        d = self.document(spec, fields)
        for _ in range(r.choice((1, 1, 2))):
            x = r.random()
            keys = [k for k in d]
            if x < 0.15 and "t" in d:
                d.pop("t")
            elif x < 0.25 and "h" in d:
                d.pop("h")
            elif x < 0.65 and keys:
                d[r.choice(keys)] = self.bad_value()
            elif x < 0.8:
                d[r.choice(("0", "02", "002", "193", "200", "1000", "²", "٣", "½", "一", "1२", "00", "01", "065", "0" * 50 + "2",
                            "9" * 30, "12²", "౩", "𝟏", "9" * 5000))] = r.choice(("1", "12", None))
            elif x < 0.93:
                d[r.choice((2, 3, 2.5, None, b"2", ("2",), True, frozenset(), Obj()))] = r.choice(("1", None, "12"))
            else:
                d["t"] = r.choice(("", "020", "02000", "02", "0x20", " 200", "é200", "02 0"))
        return d

    # -------------------------------------------------------------- messages

    def parts(self, spec, fields):
        """[(key, L, D)] of a valid message, built without the package; values canonical."""
        r = self.r
        out = []
        if ref.header_on(spec):
            out.append(("h",) + self.field_parts(spec["h"]))
        e = spec["t"]["data_enc"]
        D = None
        for _ in range(20):
            v = self.mtype(e)
            D = F.from_hex(v) if e == "b" else F.image_of_text(v, {"data_enc": e})[0]
            if D is not None:
                break
        else:
            D = b"0200"
        out.append(("t", b"", D))
        bm = ref.bitmaps(fields)
        if self.chance(0.06):
            # announced but empty continuation
            v = int(bm["p"], 16) | 1 << 63
            bm["p"] = "%016X" % v
            bm.setdefault("1", "0" * 16)
            if len(bm["1"]) == 16 and self.chance(0.5):
                bm["1"] = "%016X" % (int(bm["1"], 16) | 1 << 63) + "0" * 16
        for k in ("p", "1"):
            if k in bm:
                D = ref.encode_bitmap(bm[k], spec[k]["data_enc"])
                out.append((k, b"", D if D is not None else bm[k].encode("ascii")))
        for f in fields:
            if str(f) in spec:
                out.append((str(f),) + self.field_parts(spec[str(f)]))
        return out

    def field_parts(self, fs):
        if fs["data_enc"] in ODD and self.chance(0.5):
            D = self.r.choice((b"xn--\xff", b"xn--a-!!!", b"xn--" + b"9" * 66, b"a-9!", b"+2AA-", b"\\N{", b"~{", b"\x1b$B\xff", b"\xff\xfe\x00\xd8"))
            n = len(D) * (2 if fs.get("len_count") == "nibbles" else 1)
            if not fs["len_type"]:
                w = fs["max_len"] // (2 if fs.get("len_count") == "nibbles" else 1)
                return b"", D[:w] + b"!" * (w - len(D))
            e = fs["len_enc"]
            L = F.prefix_of(n, fs["len_type"], e) if e in ("b", "bcd") or ref.known(e) else None
            if L is not None:
                return L, D
        for _ in range(8):
            tag, L, D, n = F.encode_field(self.value(fs, True), fs)
            if tag == "ok":
                return (L, D)
        return (bytes(fs["len_type"]), b"")

    def prefix(self, fs, L):
        """another length prefix."""
        r = self.r
        n = len(L)
        e = fs["len_enc"]
        if n == 0 or self.chance(0.1):
            return bytes(r.randrange(256) for _ in range(n))
        v = F.denotes(L, e) if e in ("b", "bcd") or ref.known(e) else 0
        if v is None:
            v = 0
        w = r.choice((v - 1, v + 1, v + 1, v - 1, fs["max_len"], fs["max_len"] + 1, 0, v * 2, 2 * v + 1, self.length()))
        if self.chance(0.55):
            L2 = F.prefix_of(max(w, 0), n, e) if e in ("b", "bcd") or ref.known(e) else None
            return L2 if L2 is not None else b"\xff" * n
        if e == "b":
            return bytes(r.choice((0, 1, 255, 128)) for _ in range(n))
        if e == "bcd":
            b = bytearray(L)
            b[r.randrange(n)] = r.choice((0x1A, 0xA1, 0xAF, 0xF0, 0x0F, 0x99, 0xE1, 0x0D, 0xD0))
            return bytes(b)
        t = "%0*d" % (n, v)
        c = r.choice((" ", "+", "-", "_", "\t", "\n", "\0", "²", "a", "F", ".", "e", "x", "\xa0", "\x1f"))
        i = r.randrange(n)
        t2 = r.choice((t[:i] + c + t[i + 1:], c + t[1:], t[:-1] + c, str(v).rjust(n), str(v).ljust(n),
                       "+" + str(v).rjust(n - 1, "0")))[-n:]
        try:
            b = t2.encode(e)
        except Exception:
            b = t2.encode("latin-1", "replace")
        return (b + b"\0" * n)[:n]

    def message(self, spec, fields, mutate=True):
        r = self.r
        ps = [list(p) for p in self.parts(spec, fields)]
        if not mutate or self.chance(0.35):
            return b"".join(p[1] + p[2] for p in ps)
        for _ in range(r.choice((1, 1, 1, 2, 3))):
            x = r.random()
            p = r.choice(ps)
            fs = spec.get(p[0], {})
            if x < 0.3:
                vs = [q for q in ps if q[1]]
                if vs:
                    p = r.choice(vs)
                    p[1] = self.prefix(spec[p[0]], p[1])
            elif x < 0.42 and p[2]:
                b = bytearray(p[2])
                i = r.choice((0, len(b) - 1, r.randrange(len(b))))
                b[i] = r.choice((b[i] ^ (1 << r.randrange(8)), r.randrange(256), 0x20, 0, 0xFF, b[i] & 0x0F, b[i] & 0xF0,
                                 b[i] | 0xF0, b[i] | 0x0F))
                p[2] = bytes(b)
            elif x < 0.55:
                q = [q for q in ps if q[0] in ("p", "1")]
                if not q:
                    continue
                q = r.choice(q)
                e = spec[q[0]]["data_enc"]
                b = bytearray(q[2])
                y = r.random()
                if e == "b" and b:
                    i = r.randrange(len(b))
                    b[i] ^= 0x80 >> r.choice((0, r.randrange(8)))
                elif b:
                    try:
                        t = q[2].decode(e)
                        if y < 0.35:
                            t = t.lower()
                        elif y < 0.5:
                            t = "".join(c.lower() if self.chance(0.5) else c for c in t)
                        elif y < 0.8:
                            i = r.randrange(len(t))
                            t = t[:i] + r.choice("0123456789ABCDEF") + t[i + 1:]
                        else:
                            i = r.choice((0, len(t) - 1, r.randrange(len(t))))
                            w = r.choice((" ", "\n", "\t", "_", "g", "x", "-", "  ", "\r\n", "0x", "\0", "é", ":"))
                            t = (t[:i] + w + t[i + len(w):])[:len(t)]
                        b = bytearray(t.encode(e))
                    except Exception:
                        b[r.randrange(len(b))] = r.randrange(256)
                q[2] = bytes(b)
            elif x < 0.6:
                vs = [q for q in ps if q[2]]
                if vs:
                    p = r.choice(vs)
                    p[2] = p[2][:-1] if self.chance(0.5) else p[2] + bytes([r.randrange(256)])
            elif x < 0.65 and len(ps) > 1:
                ps.remove(p)
            elif x < 0.68:
                ps.append(["x", b"", bytes(r.randrange(256) for _ in range(r.choice((1, 1, 2, 8))))])
            elif x < 0.72 and self.l["new_bytes"]:
                p[2] = r.choice(self.l["new_bytes"]) + p[2]
        s = b"".join(p[1] + p[2] for p in ps)
        x = r.random()
        if x < 0.12 and s:
            at = []
            i = 0
            for p in ps:
                at += [i, i + len(p[1])]
                i += len(p[1]) + len(p[2])
            k = r.choice(at) + r.choice((-1, 0, 1)) if self.chance(0.7) else r.randrange(len(s))
            s = s[:max(0, k)]
        elif x < 0.17:
            s += r.choice((b"\0", b" ", b"\n", b"x", s, b"\r\n", b"F"))
        elif x < 0.18:
            s = bytes(r.randrange(256) for _ in range(r.randrange(60)))
        elif x < 0.185:
            s = b""
        return s

    # -------------------------------------------------------------- cases

    def case(self, kind):
        return getattr(self, "case_" + kind)()

    def case_decode(self, robust=True, onepad=False):
        f = self.fields()
        sp = self.spec(f, robust, onepad)
        if len(sp) > 100:
            f = [x for x in f if str(x) in sp and self.chance(0.9)]
        return {"kind": "decode", "s": self.message(sp, f), "spec": sp}

    def case_encode(self, robust=True, onepad=False):
        f = self.fields()
        sp = self.spec(f, robust, onepad)
        bad = robust and self.chance(0.4)
        d = self.bad_document(sp, f) if bad else self.document(sp, f)
        return {"kind": "encode", "doc": d, "spec": sp}

    def case_encode_wf(self):
        return self.case_encode(False, True)

    def case_decode_wf(self):
        return self.case_decode(False, True)

    def case_wrong(self):
        r = self.r
        v = r.choice(("abc", None, 5, [], [1], memoryview(b"0200"), ("a",), {}, Obj(), 1.5, "", True, range(3), set(),
                      b"0200", bytearray(b"0200")))
        w = r.choice(("decode", "encode"))
        if w == "decode" and isinstance(v, (bytes, bytearray)) or w == "encode" and isinstance(v, dict):
            v = "abc"
        f = self.fields()
        return {"kind": "wrong", "fn": w, "arg": v, "spec": r.choice((self.spec(f), {}, None))}

    def case_exc(self):
        c = self.case_exc0()
        if self.chance(0.2):
            c["sub"] = True
        return c

    def case_exc0(self):
        r = self.r

        def text():
            return r.choice(("", "m", "é水", "a: field 2 pos 3", "{x}", "%s", "\n", "x" * 40, "\ud800"))

        doc = r.choice(({}, {"2": "1"}, {"t": "0200", "p": "40"}, {"2": {"len": b"", "data": b"1"}}, {"a": {"b": {}}}))
        doc2 = r.choice((doc, {}, {"t": {"len": b"", "data": b"0200"}}))
        k = r.choice(("2", "h", "t", "p", "1", "128", "", "x"))
        if self.chance(0.5):
            a = [text(), r.choice((b"", b"123", bytearray(b"ab"), bytes(range(256)))), copy.deepcopy(doc),
                 doc2 if doc2 is not doc else copy.deepcopy(doc), r.choice((0, 1, 17, 255, 256, 10 ** 6, 2 ** 40)), k]
            return {"kind": "exc", "cls": "DecodeError", "args": a}
        return {"kind": "exc", "cls": "EncodeError", "args": [text(), copy.deepcopy(doc), copy.deepcopy(doc2), k]}

    def case_pp(self):
        r = self.r
        f = [x for x in self.fields()][:12]
        ks = ["h", "t", "p", "1"] + [str(x) for x in f]
        if self.chance(0.2):
            ks += [r.choice(("65", "0", "02", "193", "1000", "٣"))]
        sp = {}
        for k in ks:
            n = r.choice((0, 1, 5, 29, 30, 31, 60))
            sp[k] = {"data_enc": "ascii", "len_enc": "ascii", "len_type": 0, "max_len": 0 if k == "h" and self.chance(0.3) else 8,
                     "desc": "".join(r.choices("abc D,'%{}", k=n))}
        if self.chance(0.05):
            sp["h"]["max_len"] = -1
        enc = self.chance(0.5)
        d = {}
        dw = r.choice((30, 30, 0, 0, 1, -1, 5, 10, 29, 31, 60)) if self.chance(0.85) else self.length(80)
        lw = r.choice((80, 80, 0, -1, 1, 2, 3, 20, 30, 36, 37, 38, 39, 40, 41, 42, 45, 60, 120)) if self.chance(0.7) else \
            r.randrange(-3, 100)
        for k in ks:
            if self.chance(0.15):
                continue
            room = lw - 5 - (dw + 1 if dw > 0 else 0)
            n = max(0, room + r.choice((-3, -2, -1, 0, 1, 2, 3))) if self.chance(0.4) else r.choice(
                (0, 1, 2, 3, 5, 16, 40, 79, 80, 81, 200))
            if self.chance(0.2):
                n = max(0, 2 * room + r.randrange(-5, 5))
            if self.chance(0.03):
                n = self.length(2000)
            if enc:
                v = {"len": r.choice((b"", b"", b"1", b"16", b"\x10", b"\x00\xff", b"'", b"\x00\x00", b"  ", b"0")), "data": self.bytesval(n)}
                if self.chance(0.02):
                    v.pop(r.choice(("len", "data")))
            else:
                v = self.ppchars(n)
                if self.chance(0.06):
                    v = r.choice((None, 5, 10 ** 60, [1, 2, "x" * 90], ("a",), self.bytesval(n), bytearray(b"x" * n), 1.5,
                                  Obj()))
            d[k] = v
        if self.chance(0.3):
            d[r.choice(("bm", "x", "", "-1", "H"))] = "v"
        if self.chance(0.1):
            d[r.choice((2, None, 3.5))] = "v"
        if self.chance(0.6):
            kk = list(d)
            r.shuffle(kk)
            d = {k: d[k] for k in kk}
        return {"kind": "pp", "doc": d, "spec": sp, "desc_width": dw, "line_width": lw}

    def ppchars(self, n):
        r = self.r
        x = r.random()
        a = "0123456789" if x < 0.3 else "abcXYZ 09" if x < 0.6 else "a'\"\\\n\0é水\x7f" if x < 0.9 else "'" if x < 0.95 else "\n"
        return "".join(r.choices(a, k=n))

    def bytesval(self, n):
        r = self.r
        x = r.random()
        a = b"0123456789" if x < 0.3 else bytes(range(256)) if x < 0.6 else b"a'\"\\\n\0\xff " if x < 0.85 else \
            b"aaaaaaa'\"" if x < 0.95 else b"\0"
        return bytes(r.choices(a, k=n))

    def case_history(self):
        """a sequence of calls on shared argument objects, with edits in between."""
        r = self.r
        f = self.fields()[:10]
        spa = self.spec(f, self.chance(0.3), False)
        if len(spa) > 100:
            spa = {k: v for k, v in spa.items() if k in ("h", "t", "p", "1") or self.chance(0.1)}
            f = [int(k) for k in spa if k.isdigit() and k not in ("1", "65")][:10]
        args = {"specs": [spa], "docs": [], "msgs": []}
        if self.chance(0.7):
            b = copy.deepcopy(spa)
            for _ in range(r.choice((1, 1, 2))):
                self.edit_spec(b)
            args["specs"].append(b)
        for _ in range(r.choice((1, 2, 3))):
            g = [x for x in f if self.chance(0.8)]
            if args["docs"] and self.chance(0.5):
                d = cp(r.choice(args["docs"]))
                if d and self.chance(0.7):
                    k = r.choice(list(d))
                    d[k] = self.value(spa[k]) if k in spa and k not in ("t", "p", "1", "65") else d[k]
            else:
                d = self.document(spa, g) if self.chance(0.8) else self.bad_document(spa, g)
            args["docs"].append(d)
        for _ in range(r.choice((1, 2))):
            args["msgs"].append(self.message(spa, [x for x in f if self.chance(0.8)], self.chance(0.5)))
        steps = []
        for _ in range(r.randrange(2, 9)):
            x = r.random()
            i = r.randrange(len(args["specs"]))
            if x < 0.4:
                steps.append(("encode", r.randrange(len(args["docs"])), i))
            elif x < 0.75:
                steps.append(("decode", r.randrange(len(args["msgs"])), i, r.choice(("bytes", "bytearray"))))
            elif x < 0.85:
                k = r.choice(list(args["specs"][i]))
                e = self.spec_edit(args["specs"][i], k)
                steps.append(("edit", i, k) + e)
            elif x < 0.95:
                steps.append(("scribble", r.randrange(8)))
            else:
                steps.append(("pp", r.randrange(len(args["docs"])), i, r.choice((0, 30)), r.choice((20, 80))))
        return {"kind": "history", "args": args, "steps": steps}

    def spec_edit(self, spec, k):
        r = self.r
        fs = spec[k]
        o = r.choice(("data_enc", "len_enc", "len_type", "max_len", "len_count", "left_pad", "right_pad", "desc"))
        if k in ("t", "p", "1") or o == "data_enc":
            o = "data_enc"
            v = r.choice(("b", "ascii", "cp500", "latin-1"))
        elif o == "len_enc":
            v = r.choice(("b", "bcd", "ascii", "cp500"))
        elif o == "len_type":
            v = r.choice((0, 1, 2, 3))
        elif o == "max_len":
            v = r.choice((0, 1, 5, 8, 99, 999, fs.get("max_len", 1) + 1))
        elif o == "len_count":
            v = r.choice(("bytes", "nibbles"))
        elif o == "desc":
            v = r.choice(("e", "f"))
        else:
            v = r.choice(("", "0", "F"))
        return (o, v)

    def edit_spec(self, spec):
        k = self.r.choice(list(spec))
        o, v = self.spec_edit(spec, k)
        spec[k][o] = v

    def case_interleave(self):
        """one call interrupted by another at some line (as a thread switch would)."""
        r = self.r
        c = self.case_history()
        a = c["args"]

        def one():
            i = r.randrange(len(a["specs"]))
            x = r.random()
            if x < 0.5:
                return ("encode", r.randrange(len(a["docs"])), i)
            return ("decode", r.randrange(len(a["msgs"])), i, "bytes")

        return {"kind": "interleave", "args": a, "first": one(), "second": one(), "at": r.random()}
