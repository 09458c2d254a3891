"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
DEC="iso8583/decoder.py"; ENC="iso8583/encoder.py"; TOOLS="iso8583/tools.py"; SPECS="iso8583/specs.py"
def P(id,title,statement,over,text,why,files,mech,observe):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
        why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
WF=("A specification is well-formed when it defines h, t, p and 1, its lengths are non-negative integers, its text encodings are "
    "registered one-to-one codecs (single-byte for the type, the bitmaps and length prefixes), and a field has at most one upper-case hex pad.")
props=[
P("C01","Decoding an encoded message returns the document that was encoded",
 "For every well-formed specification and every document that encode accepts, decode accepts the produced bytes under the same specification. "
 "It returns the same header, message type and field values (hex values of binary fields in upper case, bitmaps as encode generated them) and the same dictionary of encoded parts that encode returned. "
 "Nothing is added, dropped, truncated, padded or moved to another field.",
 ["inputs","configurations"],"All documents (any subset of fields 2-192, any string values) and all specifications. "+WF,
 "Tests round-trip a handful of literal messages with one or two fields and three codecs; the combinations of length type, length encoding, count unit, pad, value length and field set are unbounded.",
 [DEC,ENC],[("encode","iso8583/encoder.py:encode"),("decode","iso8583/decoder.py:decode"),("field codecs","_encode_field / _decode_field")],["encode return value","decode return value"]),
P("C02","Encoding a decoded message reproduces the original bytes",
 "For every well-formed specification and every message that decode accepts, encoding the decoded document under the same specification succeeds and reproduces the message byte for byte. "
 "The only permitted differences are the letter case of a hex-text bitmap and continuation bitmaps that were announced but flag no field. "
 "Hence no message, field length or field value has a second accepted spelling.",
 ["inputs","configurations"],"All byte strings accepted by decode, all specifications. "+WF,
 "Tests only decode bytes they built themselves in canonical form; whether some non-canonical byte string is accepted is a question over all byte strings.",
 [DEC,ENC],[("length prefix parsing","iso8583/decoder.py:_decode_field"),("bitmap parsing","iso8583/decoder.py:_decode_bitmap"),("pad removal","iso8583/decoder.py:_remove_pad_field")],["decode return value","encode return value"]),
P("C03","An encoded message is exactly its parts, in ISO8583 order",
 "The bytes returned by encode are exactly the concatenation of the length and data parts listed in the returned dictionary of encoded parts, in the order header (only if the specification enables it), message type, primary bitmap, secondary bitmap with its extension, and the fields in ascending numeric order. "
 "That dictionary has exactly one entry per emitted element and no other, whatever the insertion order or extra non-numeric keys of the document.",
 ["inputs","configurations"],"All documents accepted by encode, all specifications.",
 "Tests compare literal messages with few fields; ordering and completeness for all subsets of 191 fields cannot be sampled.",
 [ENC],[("encode","iso8583/encoder.py:encode"),("_encode_field","iso8583/encoder.py:_encode_field")],["encode return value"]),
P("C04","A decoded message accounts for every input byte exactly once",
 "When decode succeeds, the length and data parts of the returned dictionary of encoded parts, taken in the order header, message type, primary bitmap, secondary bitmap with its extension, and fields in ascending numeric order, concatenate to exactly the input bytes. "
 "No byte is skipped, read twice or left over: input with bytes after the last field is rejected.",
 ["inputs","configurations"],"All byte strings, all specifications.",
 "Tests check trailing data for a few messages; index arithmetic over all length types, units and field sequences is not sampled.",
 [DEC],[("decode","iso8583/decoder.py:decode"),("_decode_field","iso8583/decoder.py:_decode_field"),("_decode_bitmap","iso8583/decoder.py:_decode_bitmap")],["decode return value"]),
P("C05","Generated bitmaps flag exactly the fields that are sent",
 "In every message encode produces, bit n of the bitmaps is set if and only if field n is present in the document, for n in 2-64 and 66-192; bit 1 is set exactly when the secondary bitmap is emitted, which is exactly when a field above 64 is present, and bit 65 exactly when the tertiary extension is emitted, which is exactly when a field above 128 is present. "
 "The document's bitmap entries are replaced by the emitted bitmaps as 16 or 32 upper-case hex digits (entry 1 removed if not emitted), and any bitmap value or field 65 supplied by the caller has no effect.",
 ["inputs","configurations"],"All subsets of fields 2-192 and all caller-supplied p, 1 and 65 entries; binary and text bitmaps.",
 "2^190 field subsets; the tests use about ten.",
 [ENC],[("_encode_bitmap","iso8583/encoder.py:_encode_bitmap"),("encode","iso8583/encoder.py:encode")],["encode return value","document passed to encode"]),
P("C06","Decoded fields are exactly those the bitmaps flag",
 "When decode succeeds, the decoded document and the dictionary of encoded parts have the same keys: t, p, h exactly when the specification enables a header, 1 exactly when bit 1 of the primary bitmap is set, and n exactly when bit n of the bitmaps is set, for n in 2-64 and 66-192. "
 "A third bitmap is read exactly when bit 65 is set, and 65 itself is never decoded as a field. The bitmap entries equal the transmitted bitmaps (upper-case hex for binary ones, the text itself otherwise).",
 ["inputs","configurations"],"All byte strings accepted by decode (all 2^192 bitmap contents), all specifications.",
 "Tests try a few bitmaps; a wrong bit position for one of 192 bits in one of two bitmap encodings goes unnoticed.",
 [DEC],[("_decode_bitmap","iso8583/decoder.py:_decode_bitmap"),("decode","iso8583/decoder.py:decode")],["decode return value"]),
P("C07","Encode never emits a field with a wrong, oversized or ill-formed length",
 "For every field encode emits (header included), a fixed field's data has exactly the specified length, a variable field's data is no longer than the specified maximum, and its length prefix is exactly the configured number of bytes and denotes the data length (in bytes or nibbles, pad excluded) in the configured format: zero-padded text digits, BCD or big-endian binary. "
 "The message type is exactly 2 binary or 4 text bytes. A value that does not meet this is rejected with EncodeError and a value that does is not.",
 ["inputs","configurations"],"All values and all field specifications (length type, encoding, maximum, unit).",
 "Tests sample lengths 0, 1, 16, 99, 256 with a few settings; limits interact with prefix width, unit and codec over all integers.",
 [ENC],[("_encode_field","iso8583/encoder.py:_encode_field"),("_encode_type","iso8583/encoder.py:_encode_type")],["encode return value","EncodeError"]),
P("C08","Decode accepts a field only if its length and data agree with the spec",
 "For every field decode accepts (header included), the length prefix is exactly the configured number of bytes holding only decimal digits (text), BCD digits or a big-endian integer, its value does not exceed the specified maximum, and exactly that many bytes (or nibbles, rounded up to bytes) of data follow and are attributed to the field; a fixed field takes exactly its specified length. "
 "A prefix that is short, malformed or above the maximum, or data that is short, is rejected with DecodeError; nothing else about lengths is.",
 ["inputs","configurations"],"All byte strings, positions and field specifications.",
 "Tests sample about 30 literal prefixes; which of all byte strings parse as a length is not sampled.",
 [DEC],[("_decode_field","iso8583/decoder.py:_decode_field"),("_decode_header","iso8583/decoder.py:_decode_header")],["decode return value","DecodeError"]),
P("C09","Odd-nibble padding is added and removed exactly as specified",
 "When encode sends a binary field counted in nibbles whose value has an odd number of digits, exactly one pad digit (the first character of left_pad on the left, or else of right_pad on the right) is added to the data and not counted in the length; even values and other fields are never padded, and an odd value without a configured pad is rejected. "
 "When decode receives an odd nibble count in such a field, it removes exactly one digit and only if it is that pad digit on the configured side, and otherwise rejects the message; even counts and other fields are never stripped.",
 ["inputs","configurations"],"All binary fields counted in nibbles: all values, lengths and pad settings (left_pad is the one used if both are set, except that decode may then fall back to right_pad).",
 "Tests use three-digit values with pads 0 and F.",
 [DEC,ENC],[("_add_pad_field","iso8583/encoder.py:_add_pad_field"),("_remove_pad_field","iso8583/decoder.py:_remove_pad_field")],["encode return value","decode return value"]),
P("C10","Field values and wire data are exact images of each other",
 "Every value decode returns is exactly the image of the field's data bytes: upper-case hex for binary data (less a pad digit), the text in the configured codec otherwise; every data part encode emits is exactly the image of the value: the bytes named by its hex digits (with a pad digit if any), or the text in the configured codec. "
 "Data or values that have no such image (bytes the codec cannot decode, characters it cannot encode, non-hex or odd-length hex) are rejected with DecodeError or EncodeError; nothing is replaced, trimmed, folded or ignored.",
 ["inputs","configurations"],"All values, byte strings, codecs, and all elements (header, type, bitmaps, fields).",
 "Tests use short ASCII/EBCDIC samples.",
 [DEC,ENC],[("_decode_text_data","iso8583/decoder.py:_decode_text_data"),("_encode_text_field","iso8583/encoder.py:_encode_text_field"),("_encode_bindary_field","iso8583/encoder.py:_encode_bindary_field")],["decode return value","encode return value"]),
P("C11","Decoding any bytes either succeeds or raises DecodeError",
 "For every byte string and every well-formed specification (which need not define every regular field), decode terminates and either returns two dictionaries or raises DecodeError; no other exception escapes. "
 "A first argument that is not bytes or bytearray raises TypeError before anything else happens.",
 ["inputs","configurations"],"All byte strings of any length (including truncated and hostile ones) and all specifications, including unknown codec names and fields the specification does not define.",
 "Hostile input is unbounded; the tests assert specific error messages for about 50 inputs.",
 [DEC],[("decode","iso8583/decoder.py:decode"),("DecodeError","iso8583/decoder.py:DecodeError")],["exception type of decode"]),
P("C12","Encoding any document either succeeds or raises EncodeError",
 "For every dict, whatever its keys and values, and every well-formed specification (which need not define every regular field), encode terminates and either returns a bytearray and a dictionary or raises EncodeError; no other exception escapes. "
 "It succeeds only if every numeric key is a canonically spelled number in 1-192: no key is silently ignored as a misspelled field. A first argument that is not a dict raises TypeError before anything else happens.",
 ["inputs","configurations"],"All dicts: missing type or header, non-string keys and values, keys such as '0', '02', '193' or non-ASCII digits, fields the specification does not define; unknown codec names.",
 "The tests cover integer keys and a few bad values; keys and values are unbounded.",
 [ENC],[("encode","iso8583/encoder.py:encode"),("EncodeError","iso8583/encoder.py:EncodeError")],["exception type of encode"]),
P("C13","A DecodeError names the failing field and position and keeps what was decoded",
 "Every DecodeError carries the input, the message, the key of the first element in message order that could not be decoded (or of the last element decoded, if bytes are left over), and as position the index at which that element's length, or its data once its length is accepted, starts (or the first left-over byte); its text is '<message>: field <field> pos <position>'. "
 "Its partial dictionaries hold every element before the failing one with the same value as a successful decode gives, the failing element itself (except a flagged field the specification does not define), and no other.",
 ["inputs","configurations"],"All rejected byte strings, all specifications.",
 "Tests check the message text of about 50 failures, nearly all in field 2 directly after the primary bitmap, and the partial dictionaries in one.",
 [DEC],[("DecodeError","iso8583/decoder.py:DecodeError"),("raise sites","iso8583/decoder.py")],["DecodeError attributes"]),
P("C14","An EncodeError names the failing field and keeps what was encoded",
 "Every EncodeError carries the document, the message and the key of the first element in message order that could not be encoded (p when the document's keys are invalid), and its text is '<message>: field <field>'. "
 "Its partial dictionary of encoded parts holds every element before the failing one exactly as a successful encode gives it, at most the failing element itself, and no other.",
 ["inputs","configurations"],"All rejected documents, all specifications.",
 "Tests check the text of failures in field 2 and a few others, and partial results in one test.",
 [ENC],[("EncodeError","iso8583/encoder.py:EncodeError"),("raise sites","iso8583/encoder.py")],["EncodeError attributes"]),
P("C15","Decode and encode errors survive pickling and copying unchanged",
 "A DecodeError or EncodeError, with whatever message, data, dictionaries, field and position it carries, can be pickled and unpickled, copied and deep-copied, and every such copy has the same class, text, args and attribute values as the original. "
 "Both are subclasses of ValueError.",
 ["inputs"],"All attribute values of both exceptions.",
 "One test per class with one value.",
 [DEC,ENC],[("__reduce__","iso8583/decoder.py:DecodeError.__reduce__"),("__reduce__","iso8583/encoder.py:EncodeError.__reduce__")],["pickle.loads(pickle.dumps(e))","copy.copy(e)"]),
P("C16","Only the documented parts of the caller's objects are modified",
 "decode modifies neither its input nor the specification; encode does not modify the specification and in the document only replaces or removes the bitmap entries p and 1 and removes 65, whether it succeeds or fails. "
 "pp modifies nothing. The returned dictionaries and bytes are new objects that share no mutable state with the arguments, the package or other results: decoded values are str, encoded parts are immutable bytes under exactly the keys len and data.",
 ["inputs","histories"],"All inputs, including failing ones, and all later modifications of arguments and results.",
 "Tests deep-copy the specification before each call and never compare it afterwards; aliasing shows only in later calls.",
 [DEC,ENC,TOOLS],[("encode","iso8583/encoder.py:encode"),("decode","iso8583/decoder.py:decode"),("pp","iso8583/tools.py:pp")],["arguments after the call","identity and types of results"]),
P("C17","Results depend only on the arguments' values, not on history or container type",
 "The outcome of encode, decode and pp (result or exception) is a function of the values of its arguments alone: earlier calls, other specifications used before, later changes of earlier arguments or results, and object identity have no influence. "
 "decode gives equal results for bytes and bytearray with equal content, and the insertion order of the document's keys does not affect the encoded message.",
 ["histories","inputs"],"All sequences of calls on all arguments, specifications edited between calls, equal arguments in different containers.",
 "Each test makes one call on fresh objects.",
 [DEC,ENC,TOOLS],[("no module state","iso8583/decoder.py, iso8583/encoder.py, iso8583/tools.py")],["results of repeated calls"]),
P("C18","Pretty printing shows every field once, in order, with its exact value",
 "For every document (decoded or encoded) whose keys the specification describes, pp writes one entry for h (if the specification enables it), t, p and each numeric key, in that order with numeric keys ascending, and nothing for other keys. "
 "Each entry shows the key, the first desc_width characters of the description, the non-empty length part of an encoded field, and the value: joining the Python literals that make up the value, folded over lines or not, gives back exactly the value (other types are shown as their repr). No width setting makes it fail or loses, repeats or alters a character or byte.",
 ["inputs","configurations"],"All documents with string, bytes or other values of any length, all desc_width and line_width integers, any stream with write().",
 "Tests compare fixed outputs for three short fields at about eight widths.",
 [TOOLS],[("pp","iso8583/tools.py:pp"),("_wrap_str_repr","iso8583/tools.py:_wrap_str_repr"),("_wrap_bytes_repr","iso8583/tools.py:_wrap_bytes_repr")],["stream contents"]),
P("C19","Pretty printing folds long values to the line width and only then",
 "A value whose entry fits in line_width columns is printed on one line as its repr. A longer string or bytes value is folded: every bytes line fits in line_width and every string line holds at most line_width less indent less two characters of the value, except that a line may always hold one byte or character; no piece is empty, and every line but the last is full in the sense that it could not also hold the next byte or character. "
 "Continuation lines are indented with spaces to the column where the value starts (5, plus the description width and a space if descriptions are shown, plus the shown length part).",
 ["inputs","configurations"],"All values, all widths.",
 "Tests compare a few literal layouts.",
 [TOOLS],[("_pp_field","iso8583/tools.py:_pp_field"),("_wrap_str_repr","iso8583/tools.py:_wrap_str_repr"),("_wrap_bytes_repr","iso8583/tools.py:_wrap_bytes_repr")],["stream contents"]),
P("C20","The shipped specifications can encode and decode everything they declare",
 "Each specification shipped with the package is well-formed: it defines h, t, p and every field 1-128 with all mandatory properties (string encodings naming real codecs, non-negative integer lengths, a description), the type and bitmap entries have the lengths ISO8583 fixes for their encoding, and it survives JSON conversion unchanged. "
 "For each of its regular fields every value of a permitted length in its alphabet encodes and decodes back, in particular the maximum length fits the length prefix.",
 ["configurations","inputs"],"All fields of all shipped specifications and all values of all permitted lengths.",
 "Tests use the shipped specifications for a few fields and override most of their settings.",
 [SPECS],[("default, default_ascii","iso8583/specs.py")],["specification contents","encode/decode under the shipped specification"]),
]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in props:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
