"""Field contracts, executable.

Each function states, for one element of a message, what the properties require of it. The
verifier runs them symbolically next to the real code; the search for failing inputs and the
replays run them concretely.  They use no code of /repo.
"""


def denotes(L, enc):
    """value of a length prefix L, or None when it is not a number in the configured format."""
    if enc == "b":
        return int.from_bytes(L, "big")
    if enc == "bcd":
        digits = L.hex()
        if not digits.isdigit():
            return None
        return int(digits)
    try:
        digits = L.decode(enc)
    except Exception:
        return None
    if not (digits.isascii() and digits.isdigit()):
        return None
    return int(digits)


def prefix_of(n, len_type, enc):
    """length prefix denoting n, or None when there is none of the configured size."""
    if enc == "b":
        try:
            return n.to_bytes(len_type, "big")
        except OverflowError:
            return None
    if enc == "bcd":
        digits = "{:0{w}d}".format(n, w=2 * len_type)
        if len(digits) > 2 * len_type:
            return None
        return bytes.fromhex(digits)
    digits = "{:0{w}d}".format(n, w=len_type)
    if len(digits) > len_type:
        return None
    try:
        return digits.encode(enc)
    except Exception:
        return None


def image_of_bytes(D, data_enc):
    """text of data bytes D (pad included), or None when they have none."""
    if data_enc == "b":
        return D.hex().upper()
    try:
        return D.decode(data_enc)
    except Exception:
        return None


def unpad(text, fs):
    """text less its pad digit, or None when the pad digit is not where the specification says."""
    left = fs.get("left_pad", "")[:1]
    right = fs.get("right_pad", "")[:1]
    if len(left) > 0 and text[:1] == left:
        return text[1:]
    if len(right) > 0 and text[-1:] == right:
        return text[:-1]
    return None


def decode_field(s, idx, fs):
    """(tag, position, length part, data part, text, end): tag 'ok' or what is wrong."""
    len_type = fs["len_type"]
    nibbles = fs.get("len_count", "bytes") == "nibbles"
    L = bytes(s[idx:idx + len_type])
    if len(L) != len_type:
        return ("len_short", idx, L, b"", "", idx)
    if len_type == 0:
        n = fs["max_len"]
    else:
        n = denotes(L, fs["len_enc"])
        if n is None:
            return ("len_bad", idx, L, b"", "", idx)
        if n > fs["max_len"]:
            return ("over", idx, L, b"", "", idx)
    start = idx + len_type
    if n == 0:
        return ("ok", start, L, b"", "", start)
    size = (n + 1) // 2 if nibbles else n
    D = bytes(s[start:start + size])
    if len(D) != size:
        return ("data_short", start, L, D, "", start)
    end = start + size
    if fs["data_enc"] != "b" and nibbles and n % 2 == 1:
        return ("odd_text", start, L, D, "", end)
    text = image_of_bytes(D, fs["data_enc"])
    if text is None:
        return ("codec", start, L, D, "", end)
    if fs["data_enc"] == "b" and nibbles and n % 2 == 1:
        text = unpad(text, fs)
        if text is None:
            return ("pad", start, L, D, "", end)
    return ("ok", start, L, D, text, end)


def image_of_text(value, fs):
    """(pad ok, data bytes or None, counted length) of a str value."""
    nibbles = fs.get("len_count", "bytes") == "nibbles"
    if fs["data_enc"] == "b":
        digits = value
        if nibbles and len(value) % 2 == 1:
            left = fs.get("left_pad", "")[:1]
            right = fs.get("right_pad", "")[:1]
            if len(left) > 0:
                digits = left + value
            elif len(right) > 0:
                digits = value + right
        D = from_hex(digits)
        if D is None:
            return (None, 0)
        return (D, len(value) if nibbles else len(D))
    try:
        D = value.encode(fs["data_enc"])
    except Exception:
        return (None, 0)
    return (D, 2 * len(D) if nibbles else len(D))


def from_hex(digits):
    """bytes named by hex digits, or None."""
    if not is_hex(digits):
        return None
    return bytes.fromhex(digits)


def is_hex(digits):
    """an even number of hex digits and nothing else."""
    if len(digits) % 2 == 1:
        return False
    for c in digits:
        if c not in "0123456789abcdefABCDEF":
            return False
    return True


def encode_field(value, fs):
    """(tag, length part, data part, counted length): tag 'ok', 'image' or 'length'."""
    D, n = image_of_text(value, fs)
    if D is None:
        return ("image", b"", b"", 0)
    len_type = fs["len_type"]
    if len_type == 0:
        if n != fs["max_len"]:
            return ("length", b"", D, n)
        return ("ok", b"", D, n)
    if n > fs["max_len"]:
        return ("length", b"", D, n)
    L = prefix_of(n, len_type, fs["len_enc"])
    if L is None:
        return ("length", b"", D, n)
    return ("ok", L, D, n)
