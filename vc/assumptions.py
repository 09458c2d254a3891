"""What each proof leaves unchecked."""
COMMON = [
    "specifications are dictionaries of dictionaries with string keys; lengths are non-negative integers; len_type is at "
    "most 2150 (CPython's limit for int() of a digit string)",
    "text length prefixes, the message type and bitmaps use registered single-byte codecs, or unknown names",
    "Python integers are mathematical; memory and recursion are unlimited",
    "a caller of a field function is checked against the field function's contract; the contract is discharged on the "
    "field function's body in the same check or in the check of the property that owns the clause",
]
DOC = ["documents are plain dictionaries; besides canonical field keys they hold any number of non-numeric string keys and "
       "at most one other key (any numeric or non-string key); keys with custom __eq__ or __hash__ are excluded"]
EXTRA = {
    "C01": ["values are strings; text codecs are one-to-one on what they encode (fact group codec)"],
    "C02": ["text codecs are one-to-one on what they decode (fact group codec); a field has at most one pad; a "
            "codec of text bitmaps can encode the upper-case hex digits"],
    "C17": ["the verifier has no nondeterministic construct: code reading time, randomness, identity or the environment is "
            "refused, so an outcome is a function of the arguments and module state"],
}


def of(prop):
    out = list(COMMON)
    if prop in ("C01", "C03", "C05", "C07", "C10", "C12", "C14", "C16", "C17"):
        out += DOC
    return out + EXTRA.get(prop, [])
