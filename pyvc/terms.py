"""Term layer: z3 terms, light-weight simplifying constructors, uninterpreted library
functions with the (trusted) facts that define them, and definitional names.

str and bytes values are elements of an uninterpreted sort Str of finite sequences (a bytes
value is the string of its latin-1 code points), with length, sub-sequence and concatenation
functions defined by ground facts attached to every term on creation; so every query is in
QF_UFLIA (sorts + linear integer arithmetic).  Python integers are mathematical integers.
"""
import z3

S = z3.DeclareSort("Str")
I = z3.IntSort()
B = z3.BoolSort()
Obj = z3.DeclareSort("PyObj")

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)

# ---------------------------------------------------------------- booleans
# Boolean values are Python bools or z3 Bool terms.


def is_term(x):
    return isinstance(x, z3.ExprRef)


def tb(x):
    """z3 term of a Python-or-term boolean."""
    if x is True:
        return TRUE
    if x is False:
        return FALSE
    return x


def mk_not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    return z3.Not(x)


def _flat(xs, isop):
    for x in xs:
        if is_term(x) and isop(x):
            for c in x.children():
                yield c
        else:
            yield x


def _neg_id(x):
    return x.arg(0).get_id() if z3.is_not(x) else None


def mk_and(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    out, pos, neg = [], set(), set()
    for x in _flat(xs, z3.is_and):
        if x is True or (is_term(x) and z3.is_true(x)):
            continue
        if x is False or z3.is_false(x):
            return False
        i = x.get_id()
        if i in pos:
            continue
        n = _neg_id(x)
        if n is not None:
            if n in pos:
                return False
            neg.add(n)
        if i in neg:
            return False
        pos.add(i)
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    # absorption of disjunctions containing a conjunct / its negation
    changed = False
    res = []
    for x in out:
        if z3.is_or(x):
            kids = x.children()
            if any(k.get_id() in pos for k in kids):
                changed = True
                continue
            rest = []
            for k in kids:
                n = _neg_id(k)
                if (n is not None and n in pos) or k.get_id() in neg:
                    changed = True
                    continue
                rest.append(k)
            if len(rest) != len(kids):
                x = mk_or(rest)
                if x is False:
                    return False
        elif z3.is_not(x) and z3.is_and(x.arg(0)):
            kids = x.arg(0).children()
            rest = [k for k in kids if k.get_id() not in pos]
            if len(rest) != len(kids):
                changed = True
                if not rest:
                    return False
                x = mk_not(mk_and(rest))
        res.append(x)
    if changed:
        return mk_and(res)
    res.sort(key=lambda t: t.get_id())
    return z3.And(*res)


def mk_or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    out, pos, neg = [], set(), set()
    for x in _flat(xs, z3.is_or):
        if x is False or (is_term(x) and z3.is_false(x)):
            continue
        if x is True or z3.is_true(x):
            return True
        i = x.get_id()
        if i in pos:
            continue
        n = _neg_id(x)
        if n is not None:
            if n in pos:
                return True
            neg.add(n)
        if i in neg:
            return True
        pos.add(i)
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    changed = False
    res = []
    for x in out:
        if z3.is_and(x):
            kids = x.children()
            if any(k.get_id() in pos for k in kids):
                changed = True
                continue
            rest = []
            for k in kids:
                n = _neg_id(k)
                if (n is not None and n in pos) or k.get_id() in neg:
                    changed = True
                    continue
                rest.append(k)
            if len(rest) != len(kids):
                x = mk_and(rest)
                if x is True:
                    return True
        res.append(x)
    if changed:
        return mk_or(res)
    # (a and r...) or (not a and r...)  ->  r...
    if len(res) == 2:
        k0 = res[0].children() if z3.is_and(res[0]) else [res[0]]
        k1 = res[1].children() if z3.is_and(res[1]) else [res[1]]
        i0 = {k.get_id(): k for k in k0}
        i1 = {k.get_id(): k for k in k1}
        common = [k for i, k in i0.items() if i in i1]
        if common:
            r0 = mk_and([k for i, k in i0.items() if i not in i1])
            r1 = mk_and([k for i, k in i1.items() if i not in i0])
            return mk_and(common + [mk_or(r0, r1)])
    res.sort(key=lambda t: t.get_id())
    return z3.Or(*res)


def mk_implies(a, b):
    return mk_or(mk_not(a), b)


def mk_ite(c, a, b):
    """if-then-else on z3 terms (non boolean)."""
    if c is True:
        return a
    if c is False:
        return b
    if a.eq(b):
        return a
    if z3.is_not(c):
        c, a, b = c.arg(0), b, a
    if z3.is_app_of(b, z3.Z3_OP_ITE) and b.arg(0).eq(c):
        b = b.arg(2)
    if z3.is_app_of(a, z3.Z3_OP_ITE) and a.arg(0).eq(c):
        a = a.arg(1)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def mk_bite(c, a, b):
    """if-then-else on booleans."""
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else mk_not(c)
    if a is True:
        return mk_or(c, b)
    if a is False:
        return mk_and(mk_not(c), b)
    if b is True:
        return mk_or(mk_not(c), a)
    if b is False:
        return mk_and(c, a)
    if a.eq(b):
        return a
    return mk_or(mk_and(c, a), mk_and(mk_not(c), b))


def mk_eq(a, b):
    if a.eq(b):
        return True
    if a.get_id() in LITVAL and b.get_id() in LITVAL:
        return LITVAL[a.get_id()] == LITVAL[b.get_id()]
    for x, y in ((a, b), (b, a)):
        if y.get_id() in LITVAL and z3.is_app_of(x, z3.Z3_OP_ITE) and lit_leaves(x):
            return mk_bite(x.arg(0), mk_eq(x.arg(1), y), mk_eq(x.arg(2), y))
    if z3.is_int_value(a) and z3.is_int_value(b):
        return a.as_long() == b.as_long()
    if a.get_id() > b.get_id():
        a, b = b, a
    return a == b


def lit_leaves(t, limit=8):
    """t is a conditional with nothing but literals at its leaves."""
    if t.get_id() in LITVAL:
        return True
    return limit > 0 and z3.is_app_of(t, z3.Z3_OP_ITE) and lit_leaves(t.arg(1), limit - 1) and lit_leaves(
        t.arg(2), limit - 1)


def beq(a, b):
    """boolean equality of bool-or-terms."""
    if isinstance(a, bool):
        return b if a else mk_not(b)
    if isinstance(b, bool):
        return a if b else mk_not(a)
    if a.eq(b):
        return True
    return mk_or(mk_and(a, b), mk_and(mk_not(a), mk_not(b)))


def simp(t):
    return z3.simplify(t, som=True, arith_lhs=False)



# ---------------------------------------------------------------- facts
# FACTS[id] -> list of (group, formula): added to every query that mentions the term.
FACTS = {}
_keep = []


def fact(t, formula, group=""):
    if formula is True:
        return
    _keep.append(t)
    FACTS.setdefault(t.get_id(), []).append((group, tb(formula)))


_seen = {}


def _app(f, *args):
    t = f(*args)
    new = t.get_id() not in _seen
    if new:
        _seen[t.get_id()] = t
    return t, new


def F(name, *sorts):
    return z3.Function(name, *sorts)


slen_f = F("slen", S, I)
sub_f = F("sub", S, I, I, S)
cat_f = F("cat", S, S, S)
litid_f = F("litid", S, I)
hexl_f = F("hexl", S, S)
upper_f = F("upper", S, S)
lower_f = F("lower", S, S)
unhex_f = F("unhex", S, S)
unhex_ok_f = F("unhex_ok", S, B)
fromhex_f = F("fromhex", S, S)
fromhex_ok_f = F("fromhex_ok", S, B)
known_f = F("codec_known", S, B)
dec_f = F("dec", S, S, S)
dec_ok_f = F("dec_ok", S, S, B)
enc_f = F("enc", S, S, S)
enc_ok_f = F("enc_ok", S, S, B)
int_ok_f = F("int_ok", S, B)
int_of_f = F("int_of", S, I)
fmtd_f = F("fmtd", I, I, S)
frombe_f = F("frombe", S, I)
tobe_f = F("tobe", I, I, S)
pow256_f = F("pow256", I, I)
pow10_f = F("pow10", I, I)
sbit_f = F("sbit", S, I, I, B)
repr_s_f = F("repr_str", S, S)
repr_b_f = F("repr_bytes", S, S)
ljust_f = F("ljust", S, I, S)
single_f = F("single_byte", S, B)  # codec is a single-byte codec (well-formedness)
digits_f = F("encodes_digits", S, B)  # codec encodes the ten digits (known of concrete codecs only)
PRED = {}
for _n in ("isnumeric", "isdigit", "isdecimal", "isascii", "isalnum", "isalpha", "isspace",
           "isupper", "islower", "isprintable", "isidentifier"):
    PRED[_n] = F(_n, S, B)

# literals
LITVAL = {}
_LIT = {}
INT_LIMIT = 4300  # sys.int_info.default_max_str_digits


def sv(s):
    """term of a literal (str; a bytes literal is passed latin-1 decoded)."""
    t = _LIT.get(s)
    if t is None:
        n = len(_LIT)
        t = z3.Const("lit!%d!%s" % (n, "".join(c if c.isalnum() and c.isascii() else "_" for c in s[:20])), S)
        _LIT[s] = t
        LITVAL[t.get_id()] = s
        fact(t, litid_f(t) == n)
        fact(t, slen_f(t) == len(s))
        for p in ("isnumeric", "isdigit", "isdecimal", "isascii"):
            fact(t, tb(PRED[p](t) if getattr(s, p)() else z3.Not(PRED[p](t))))
        try:
            n = int(s)
            fact(t, z3.And(int_ok_f(t), int_of_f(t) == n))
        except ValueError:
            fact(t, z3.Not(int_ok_f(t)))
        try:
            bytes.fromhex("".join("x" if c.isspace() else c for c in s))
            fact(t, unhex_ok_f(t))
        except ValueError:
            fact(t, z3.Not(unhex_ok_f(t)))
    return t


def is_lit(t):
    return t.get_id() in LITVAL


def sval(t):
    return LITVAL[t.get_id()]


def Len(t):
    if is_lit(t):
        return z3.IntVal(len(sval(t)))
    if t.get_id() in FIXED_LEN:
        return FIXED_LEN[t.get_id()]
    if z3.is_app_of(t, z3.Z3_OP_ITE) and lit_leaves(t):
        a, b = Len(t.arg(1)), Len(t.arg(2))
        if a.eq(b):
            return a
    r, new = _app(slen_f, t)
    if new:
        fact(r, r >= 0)
        fact(r, (r == 0) == (t == sv("")))
        m = MKLEN.get(t.get_id())
        if m is not None:
            fact(r, r == m)
    return r


MKLEN = {}
FIXED_LEN = {}


def fix_len(t, n):
    """t has length n in every world it occurs in (the caller assumes it in its path condition)."""
    FIXED_LEN[t.get_id()] = z3.IntVal(n)
    _keep.append(t)


def cat(*ts):
    """concatenation, right nested, literals joined."""
    flat = []
    for t in ts:
        while is_app(t, cat_f):
            flat.append(t.arg(0))
            t = t.arg(1)
        flat.append(t)
    out = []
    for t in flat:
        if is_lit(t):
            if sval(t) == "":
                continue
            if out and is_lit(out[-1]):
                out[-1] = sv(sval(out[-1]) + sval(t))
                continue
        elif out and is_app(t, sub_f) and is_app(out[-1], sub_f) and t.arg(0).eq(out[-1].arg(0)):
            a, b = out[-1], t
            if z3.simplify(a.arg(1) + a.arg(2) - b.arg(1)).eq(z3.IntVal(0)):
                # contiguous; valid when a is not cut short, i.e. b non-empty or a exact: keep
                # as a fact of the concatenation below
                pass
        out.append(t)
    if not out:
        return sv("")
    t = out[-1]
    for a in reversed(out[:-1]):
        t = _cat2(a, t)
    return t


def _cat2(a, b):
    t, new = _app(cat_f, a, b)
    if new:
        MKLEN[t.get_id()] = Len(a) + Len(b)
        fact(t, Len(t) == Len(a) + Len(b))
        fact(t, z3.Implies(a == sv(""), t == b))
        fact(t, z3.Implies(b == sv(""), t == a))
        for x, first in ((a, True), (b, False)):
            if is_app(x, sub_f):
                base, i, n = x.arg(0), x.arg(1), x.arg(2)
                L = Len(base)
                if first:  # base[0:n] + b
                    rest = t_sub(base, simp(i + n), simp(L - i - n))
                    fact(t, z3.Implies(z3.And(i == 0, n >= 0, n <= L, b == rest), t == base))
                else:  # a + base[i:]
                    fact(t, z3.Implies(z3.And(i >= 0, i <= L, i + n >= L, a == t_sub(base, z3.IntVal(0), i)),
                                       t == base))
        # a sub-sequence a = base[i:i+m], b = base[i+m:i+m+n]
        b0 = b.arg(0) if is_app(b, cat_f) else b
        if is_app(a, sub_f) and is_app(b0, sub_f) and a.arg(0).eq(b0.arg(0)):
            base, i, m = a.arg(0), a.arg(1), a.arg(2)
            j, n = b0.arg(1), b0.arg(2)
            whole = t_sub(base, i, simp(m + n))
            joined = cat(whole, b.arg(1)) if is_app(b, cat_f) else whole
            fact(t, z3.Implies(z3.And(i >= 0, m >= 0, n >= 0, j == i + m, i + m <= Len(base)), t == joined))
    return t


def is_app(t, f):
    return z3.is_app(t) and t.decl().eq(f)


def join_fact(a, b):
    """the concatenation of a and b, as an application, equals its canonical form."""
    return cat_f(a, b) == cat(a, b)


def t_sub(t, i, n):
    """t[i:i+n] for i >= 0 (empty when i < 0, n <= 0 or i >= len)."""
    if is_lit(t) and z3.is_int_value(i) and z3.is_int_value(n):
        a, m = i.as_long(), n.as_long()
        return sv(sval(t)[a:a + m] if a >= 0 and m > 0 else "")
    if z3.is_int_value(n) and n.as_long() <= 0:
        return sv("")
    if z3.is_int_value(i) and i.as_long() == 0 and not is_lit(t) and n.eq(Len(t)):
        return t
    r, new = _app(sub_f, t, i, n)
    if new:
        L = Len(t)
        k = Len(r)
        inside = z3.And(i >= 0, n > 0, i < L)
        fact(r, z3.If(inside, k == z3.If(n <= L - i, n, L - i), r == sv("")))
        fact(r, z3.Implies(z3.And(i == 0, n >= L), r == t))
        if is_app(t, sub_f):
            b, j, m = t.arg(0), t.arg(1), t.arg(2)
            r2 = t_sub(b, simp(j + i), n)
            fact(r, z3.Implies(z3.And(j >= 0, i >= 0, i + n <= m), r == r2))
    return r


def t_hexl(b):
    if is_lit(b):
        return sv(sval(b).encode("latin-1").hex())
    t, new = _app(hexl_f, b)
    if new:
        MKLEN[t.get_id()] = 2 * Len(b)
        fact(t, Len(t) == 2 * Len(b))
        fact(t, unhex_ok_f(t))
        fact(t, unhex_f(t) == b)
        fact(t, lower_f(t) == t)
        fact(t, PRED["isascii"](t))
        small = z3.And(Len(b) > 0, Len(t) <= INT_LIMIT)
        d = PRED["isdigit"](t)
        fact(t, z3.Implies(small, int_ok_f(t) == d))
        fact(t, z3.Implies(z3.And(Len(b) > 0, z3.Not(d)), z3.Not(int_ok_f(t))))
        fact(t, PRED["isdecimal"](t) == d)
        fact(t, PRED["isnumeric"](t) == d)
        fact(t, z3.Implies(z3.And(small, d), z3.And(int_of_f(t) >= 0, int_of_f(t) < t_pow10(Len(t)),
                                                    fmtd_f(int_of_f(t), Len(t)) == t)))
        t_fmtd(int_of_f(t), Len(t))
    return t


def t_upper(x):
    if is_lit(x):
        return sv(sval(x).upper())
    if is_app(x, cat_f):
        # str.upper maps characters independently of their context
        return cat(t_upper(x.arg(0)), t_upper(x.arg(1)))
    if is_app(x, upper_f) and is_app(x.arg(0), hexl_f):
        return x
    t, new = _app(upper_f, x)
    if new:
        hx = unhex_ok_f(x)
        fact(t, z3.Implies(hx, z3.And(Len(t) == Len(x), unhex_ok_f(t), unhex_f(t) == unhex_f(x), upper_f(t) == t)))
        # ASCII: length is kept
        fact(t, z3.Implies(PRED["isascii"](x), z3.And(Len(t) == Len(x), PRED["isascii"](t))))
        if is_app(x, hexl_f):
            b = x.arg(0)
            MKLEN[t.get_id()] = 2 * Len(b)
            fact(t, z3.And(Len(t) == 2 * Len(b), unhex_ok_f(t), unhex_f(t) == b, PRED["isascii"](t), upper_f(t) == t))
    return t


def t_lower(x):
    if is_lit(x):
        return sv(sval(x).lower())
    if is_app(x, hexl_f):
        return x
    t, new = _app(lower_f, x)
    if new:
        hx = unhex_ok_f(x)
        fact(t, z3.Implies(hx, z3.And(Len(t) == Len(x), unhex_ok_f(t), unhex_f(t) == unhex_f(x))))
        fact(t, z3.Implies(PRED["isascii"](x), z3.And(Len(t) == Len(x), PRED["isascii"](t))))
    return t


def t_unhex_ok(x):
    if is_lit(x):
        s = sval(x)
        return len(s) % 2 == 0 and all(c in "0123456789abcdefABCDEF" for c in s)
    if is_app(x, hexl_f) or (is_app(x, upper_f) and is_app(x.arg(0), hexl_f)):
        return True
    t, new = _app(unhex_ok_f, x)
    if new:
        fact(t, z3.Implies(t, Len(x) % 2 == 0))
        fact(t, z3.Implies(t, PRED["isascii"](x)))
        fact(t, z3.Implies(x == sv(""), t))
        if is_app(x, cat_f):
            # the two halves of one sequence, put together again
            a, b = x.arg(0), x.arg(1)
            for h in {y.arg(0) for y in (a, b) if is_app(y, sub_f)}:
                la, lb = simp(Len(a)), simp(Len(b))
                fact(t, z3.Implies(z3.And(la + lb == Len(h), sub_f(h, z3.IntVal(0), la) == a, sub_f(h, la, lb) == b),
                                   x == h))
    return t


def t_unhex(x):
    """bytes named by hex digits x (meaningful where unhex_ok)."""
    if is_lit(x) and t_unhex_ok(x):
        return sv(bytes.fromhex(sval(x)).decode("latin-1"))
    if is_app(x, hexl_f):
        return x.arg(0)
    if is_app(x, upper_f) and is_app(x.arg(0), hexl_f):
        return x.arg(0).arg(0)
    t, new = _app(unhex_f, x)
    if new:
        ok = tb(t_unhex_ok(x))
        fact(t, z3.Implies(ok, Len(x) == 2 * Len(t)))
        h = t_hexl(t)
        u = t_upper(x)
        uh = t_upper(h)
        fact(t, z3.Implies(ok, z3.And(h == t_lower(x), uh == u, Len(u) == Len(x))))
        if is_app(x, cat_f):
            a, b = x.arg(0), x.arg(1)
            la, lb = simp(Len(a)), simp(Len(b))
            fact(t, z3.Implies(ok, z3.And(sub_f(uh, z3.IntVal(0), la) == t_upper(a), sub_f(uh, la, lb) == t_upper(b),
                                          Len(t_upper(a)) == la, Len(t_upper(b)) == lb)))
    return t


def t_fromhex_ok(x):
    t, new = _app(fromhex_ok_f, x)
    if new:
        fact(t, z3.Implies(tb(t_allin(x, HEXDIGITS)), t == tb(t_unhex_ok(x))))
        fact(t, z3.Implies(tb(t_unhex_ok(x)), t))
    return t


def t_fromhex(x):
    t, new = _app(fromhex_f, x)
    if new:
        fact(t, z3.Implies(tb(t_unhex_ok(x)), t == t_unhex(x)))
    return t


def t_known(c):
    if is_lit(c):
        return py_codec_known(sval(c))
    return known_f(c)


def py_codec_known(name):
    try:
        "x".encode(name, "replace")
        b"x".decode(name, "replace")
        return True
    except LookupError:
        return False
    except Exception:
        return True


# codecs in which ASCII text and its bytes are the same sequence (in the sort S)
ASCII_CODECS = ("ascii", "us-ascii", "utf-8", "utf8", "latin-1", "latin1", "iso-8859-1", "cp1252")


def ascii_codec(c):
    return is_lit(c) and sval(c).lower() in ASCII_CODECS


def surely_ascii(x):
    return is_app(x, hexl_f) or is_app(x, fmtd_f) or is_app(x, upper_f) and surely_ascii(x.arg(0)) or (
        is_lit(x) and sval(x).isascii()) or is_app(x, cat_f) and surely_ascii(x.arg(0)) and surely_ascii(x.arg(1))


def t_dec_ok(c, b):
    """codec c (known) decodes b without error."""
    if ascii_codec(c) and surely_ascii(b):
        return True
    t, new = _app(dec_ok_f, c, b)
    if new:
        fact(t, z3.Implies(b == sv(""), t))
        if ascii_codec(c):
            asc = tb(t_pred("isascii", b))
            fact(t, z3.Implies(asc, z3.And(t, dec_f(c, b) == b)))
            if sval(c).lower() in ("ascii", "us-ascii"):
                fact(t, z3.Implies(t, asc))
        fact(t, z3.Implies(z3.And(t, single_f(c)), Len(dec_f(c, b)) == Len(b)))
        t_dec(c, b)
    return t


REWRITES = {}  # terms with a proved simpler form (set by round-trip proofs)


def t_dec(c, b):
    if is_lit(b) and sval(b) == "":
        return b
    if ascii_codec(c) and surely_ascii(b):
        return b
    t, new = _app(dec_f, c, b)
    if t.get_id() in REWRITES:
        return REWRITES[t.get_id()]
    if new:
        ok = tb(t_dec_ok(c, b))
        fact(t, z3.Implies(z3.And(ok, single_f(c)), Len(t) == Len(b)))
        fact(t, z3.Implies(b == sv(""), t == sv("")))
        fact(t, z3.Implies(z3.And(ok, t == sv("")), b == sv("")), "codec")
        fact(t, z3.Implies(ok, z3.And(enc_ok_f(c, t), enc_f(c, t) == b)), "codec")
        fact(t, z3.Implies(z3.And(ok, enc_ok_f(c, t)), True), "codec")
    return t


def t_enc_ok(c, x):
    if ascii_codec(c) and surely_ascii(x):
        return True
    t, new = _app(enc_ok_f, c, x)
    if new:
        e = t_enc(c, x)
        fact(t, z3.Implies(x == sv(""), z3.And(t, e == sv(""))), "codec")
        if ascii_codec(c):
            asc = tb(t_pred("isascii", x))
            fact(t, z3.Implies(asc, z3.And(t, e == x)))
            if sval(c).lower() in ("ascii", "us-ascii"):
                fact(t, z3.Implies(t, asc))
        if is_app(x, fmtd_f):
            fact(t, z3.Implies(z3.And(digits_f(c), PRED["isdigit"](x), PRED["isascii"](x)), t), "digits")
    return t


def t_enc(c, x):
    if ascii_codec(c) and surely_ascii(x):
        return x
    t, new = _app(enc_f, c, x)
    if t.get_id() in REWRITES:
        return REWRITES[t.get_id()]
    if new:
        ok = tb(t_enc_ok(c, x))
        fact(t, z3.Implies(z3.And(ok, single_f(c)), Len(t) == Len(x)))
        fact(t, z3.Implies(z3.And(x == sv(""), single_f(c)), z3.And(ok, t == sv(""))))
        fact(t, z3.Implies(x == sv(""), z3.And(ok, t == sv(""))), "codec")
        fact(t, z3.Implies(z3.And(ok, Len(t) == 0), x == sv("")), "codec")
        fact(t, z3.Implies(ok, z3.And(dec_ok_f(c, t), dec_f(c, t) == x)), "codec")
    return t


def t_pred(name, x):
    if is_lit(x):
        return getattr(sval(x), name)()
    t, new = _app(PRED[name], x)
    if new and name in ("isdigit", "isascii", "isdecimal", "isnumeric"):
        d, a = PRED["isdigit"](x), PRED["isascii"](x)
        both = z3.And(d, a)
        fact(t, z3.Implies(z3.Or(d, PRED["isnumeric"](x), PRED["isdecimal"](x)), Len(x) > 0))
        fact(t, z3.Implies(z3.And(PRED["isdecimal"](x), Len(x) <= INT_LIMIT), int_ok_f(x)))
        fact(t, z3.Implies(PRED["isdecimal"](x), d))
        fact(t, z3.Implies(d, PRED["isnumeric"](x)))
        fact(t, z3.Implies(both, PRED["isdecimal"](x)))
        fact(t, z3.Implies(z3.And(both, Len(x) <= INT_LIMIT),
                           z3.And(int_ok_f(x), int_of_f(x) >= 0, int_of_f(x) < t_pow10(Len(x)),
                                  fmtd_f(int_of_f(x), Len(x)) == x)))
        fact(t, z3.Implies(z3.And(a, PRED["isnumeric"](x)), d))
        t_fmtd(int_of_f(x), Len(x))
    return t


_ALLIN = {}
DIGITS = frozenset("0123456789")
HEXDIGITS = frozenset("0123456789abcdefABCDEF")


def t_allin(x, chars):
    """every character of x is one of chars."""
    chars = frozenset(chars)
    if is_lit(x):
        return all(c in chars for c in sval(x))
    if chars == DIGITS:
        return mk_or(mk_eq(x, sv("")), mk_and(t_pred("isascii", x), t_pred("isdigit", x)))
    if chars not in _ALLIN:
        _ALLIN[chars] = F("allin!%d" % len(_ALLIN), S, B)
    t, new = _app(_ALLIN[chars], x)
    if new:
        fact(t, z3.Implies(x == sv(""), t))
        if all(c.isascii() for c in chars):
            fact(t, z3.Implies(t, PRED["isascii"](x)))
        if chars == HEXDIGITS:
            fact(t, z3.And(t, Len(x) % 2 == 0) == tb(t_unhex_ok(x)))
            # an odd number of digits: with one more digit they are hex text
            fact(t, z3.Implies(z3.And(tb(t_pred("isascii", x)), tb(t_pred("isdigit", x))), t))
    return t


def t_strip(x, chars, how):
    t, new = _app(F("%s!%s" % (how, "".join("%x." % ord(c) for c in sorted(set(chars)))), S, S), x)
    if new:
        fact(t, Len(t) <= Len(x))
        fact(t, (t == sv("")) == tb(t_allin(x, chars)))
    return t


def t_int_ok(x):
    if is_lit(x):
        try:
            int(sval(x))
            return True
        except ValueError:
            return False
    t, new = _app(int_ok_f, x)
    if new:
        fact(t, z3.Implies(t, Len(x) > 0))
    return t


def t_int(x):
    t, new = _app(int_of_f, x)
    if new:
        t_int_ok(x)
        t_pred("isdigit", x)
        t_pred("isascii", x)
    return t


def t_fmtd(n, w):
    """zero-padded decimal of n, at least w characters ('{:0{w}d}')."""
    if z3.is_int_value(n) and z3.is_int_value(w) and w.as_long() >= 0:
        return sv("{:0{w}d}".format(n.as_long(), w=w.as_long()) if w.as_long() > 0 else str(n.as_long()))
    t, new = _app(fmtd_f, n, w)
    if new:
        nn = n >= 0
        L = Len(t)
        fact(t, L >= 1)
        fact(t, z3.Implies(w >= 1, L >= w))
        fact(t, PRED["isascii"](t))
        fact(t, z3.Implies(nn, z3.And(PRED["isdigit"](t), PRED["isdecimal"](t), PRED["isnumeric"](t),
                                      upper_f(t) == t, lower_f(t) == t,
                                      unhex_ok_f(t) == (L % 2 == 0))))
        fact(t, z3.Implies(L <= INT_LIMIT, z3.And(int_ok_f(t), int_of_f(t) == n)))
        fact(t, z3.Implies(z3.And(nn, w >= 1, n < t_pow10(w)), L == w))
        fact(t, z3.Implies(z3.And(nn, w >= 1, n >= t_pow10(w)), L > w))
        if z3.is_int_value(w) and w.as_long() == 0:
            for c in range(193):
                fact(t, z3.Implies(n == c, t == sv(str(c))), "smalldec")
    return t


def t_pow10(w):
    w = simp(w)
    if z3.is_int_value(w) and w.as_long() < 5000:
        return z3.IntVal(10 ** max(w.as_long(), 0))
    t, new = _app(pow10_f, w)
    if new:
        fact(t, z3.And(t >= 1, z3.Implies(w >= 1, t >= 10)))
    return t


def t_pow256(w):
    w = simp(w)
    if z3.is_int_value(w) and w.as_long() < 5000:
        return z3.IntVal(256 ** max(w.as_long(), 0))
    t, new = _app(pow256_f, w)
    if new:
        fact(t, z3.And(t >= 1, z3.Implies(w >= 1, t >= 256)))
    return t


def t_frombe(b):
    if is_lit(b):
        return z3.IntVal(int.from_bytes(sval(b).encode("latin-1"), "big"))
    t, new = _app(frombe_f, b)
    if new:
        p = t_pow256(Len(b))
        fact(t, z3.And(t >= 0, t < p))
        fact(t, tobe_f(t, Len(b)) == b)
    return t


def t_tobe(n, w):
    if z3.is_int_value(n) and z3.is_int_value(w):
        try:
            return sv(n.as_long().to_bytes(w.as_long(), "big").decode("latin-1"))
        except OverflowError:
            pass
    t, new = _app(tobe_f, n, w)
    if new:
        p = t_pow256(w)
        fact(t, z3.Implies(z3.And(w >= 0, n >= 0, n < p), z3.And(Len(t) == w, frombe_f(t) == n)))
    return t


def t_repr(x, bytes_):
    if is_lit(x):
        v = sval(x)
        return sv(repr(v.encode("latin-1") if bytes_ else v))
    f = repr_b_f if bytes_ else repr_s_f
    t, new = _app(f, x)
    if new:
        fact(t, Len(t) >= Len(x) + (3 if bytes_ else 2))
    return t


def t_ljust(x, w):
    if is_lit(x) and z3.is_int_value(w):
        return sv(sval(x).ljust(w.as_long()))
    t, new = _app(ljust_f, x, w)
    if new:
        fact(t, z3.If(Len(x) >= w, t == x, Len(t) == w))
    return t


# sequences built from explicit bits
_mk = {}
MKBYTES = {}


def t_mkbytes(bytes_bits):
    """term of a byte sequence; bytes_bits = [[bit0(LSB) .. bit7], ...]."""
    n = len(bytes_bits)
    if all(isinstance(b, bool) for bs in bytes_bits for b in bs):
        return sv("".join(chr(sum(1 << k for k, b in enumerate(bs) if b)) for bs in bytes_bits))
    # bits of one sequence, in order: the sequence itself (when its length is known)
    b0 = bytes_bits[0][0]
    if is_term(b0) and z3.is_app(b0) and b0.decl().eq(sbit_f):
        base = b0.arg(0)
        j0 = b0.arg(1)
        if z3.is_int_value(j0) and j0.as_long() == 0 and _KNOWN_LEN.get(base.get_id()) == n and all(
            is_term(b) and b.eq(sbit_f(base, z3.IntVal(j), z3.IntVal(k)))
            for j, bs in enumerate(bytes_bits) for k, b in enumerate(bs)
        ):
            return base
    if n not in _mk:
        _mk[n] = F("mkbytes%d" % n, *([B] * (8 * n) + [S]))
    t, new = _app(_mk[n], *[tb(b) for bs in bytes_bits for b in bs])
    if new:
        MKLEN[t.get_id()] = z3.IntVal(n)
        fact(t, Len(t) == n)
        MKBYTES[t.get_id()] = bytes_bits
    return t


_KNOWN_LEN = {}


def known_len(t, n):
    """record that sequence term t has length n wherever its bits are taken."""
    _KNOWN_LEN[t.get_id()] = n
    _keep.append(t)


def t_sbit(t, j, k):
    """bit k (0 = least significant) of byte j of t (j, k Python ints)."""
    if is_lit(t):
        return j < len(sval(t)) and bool(ord(sval(t)[j]) >> k & 1)
    if is_app(t, sub_f) and z3.is_int_value(t.arg(1)) and z3.is_int_value(t.arg(2)):
        # a byte of a slice is a byte of the whole (both absent when out of range)
        i, n = t.arg(1).as_long(), t.arg(2).as_long()
        if i >= 0 and j < n:
            return t_sbit(t.arg(0), i + j, k)
    m = MKBYTES.get(t.get_id())
    if m is not None:
        return m[j][k] if j < len(m) else False
    return sbit_f(t, z3.IntVal(j), z3.IntVal(k))


# ---------------------------------------------------------------- subterm facts
_factterms = {}


def fact_terms(t):
    """ids of subterms of t that carry facts (memoised)."""
    i = t.get_id()
    r = _factterms.get(i)
    if r is not None:
        return r
    # iterative post-order
    stack = [t]
    while stack:
        x = stack[-1]
        xi = x.get_id()
        if xi in _factterms:
            stack.pop()
            continue
        kids = x.children() if z3.is_app(x) else ([x.body()] if z3.is_quantifier(x) else [])
        todo = [k for k in kids if k.get_id() not in _factterms]
        if todo:
            stack.extend(todo)
            continue
        acc = set()
        for k in kids:
            acc |= _factterms[k.get_id()]
        if xi in FACTS:
            acc.add(xi)
        _factterms[xi] = frozenset(acc)
        _keep.append(x)
        stack.pop()
    return _factterms[i]


def facts_for(formulas, groups=()):
    done = set()
    work = set()
    for f in formulas:
        work |= fact_terms(f)
    out = []
    while work:
        i = work.pop()
        if i in done:
            continue
        done.add(i)
        for g, f in FACTS.get(i, ()):
            if g and g not in groups:
                continue
            out.append(f)
            work |= fact_terms(f) - done
    return out


def atoms(t, acc=None):
    """ids of maximal boolean atoms of t."""
    if acc is None:
        acc = set()
    st = [t]
    while st:
        x = st.pop()
        if z3.is_and(x) or z3.is_or(x) or z3.is_not(x):
            st.extend(x.children())
        else:
            acc.add(x.get_id())
    return acc


_nonneg = {}


NONNEG_DECLS = set()  # functions and constants with values >= 0 (stated as facts where they are introduced)


def nonneg(t):
    """the integer term is syntactically non-negative."""
    r = _nonneg.get(t.get_id())
    if r is None:
        if z3.is_int_value(t):
            r = t.as_long() >= 0
        elif is_app(t, slen_f) or z3.is_app(t) and t.decl().get_id() in NONNEG_DECLS:
            r = True
        elif z3.is_app_of(t, z3.Z3_OP_ITE):
            r = nonneg(t.arg(1)) and nonneg(t.arg(2))
        elif z3.is_app_of(t, z3.Z3_OP_ADD) or z3.is_app_of(t, z3.Z3_OP_MUL):
            r = all(nonneg(c) for c in t.children())
        else:
            r = False
        _nonneg[t.get_id()] = r
        _keep.append(t)
    return r
