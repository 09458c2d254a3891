"""Which contracts decide which property, as independent proof tasks."""
import time
import traceback

DEC_KINDS = ("bytes", "bytearray")
ENC_KINDS = ("str", "bytes", "object", "none", "int", "list", "dict", "bytearray")
PP_KINDS = ("str", "bytes", "none", "int", "list", "object", "bytearray")
PP_PARTS = ("bytes", "str", "none", "bytearray", "object")
T_KINDS = ("bytes", "bytearray", "none", "int", "list", "object", "dict")


def tasks_of(prop, tier="quick"):
    """[(name, args)]; each runs in a process of its own."""
    df = [("decode_field", k) for k in DEC_KINDS]
    dm = [("decode_message", "bytes")]
    dmb = dm + [("decode_message", "bytearray")]
    ef = [("encode_field", "str")]
    efs = [("encode_field", k) for k in ENC_KINDS]
    em = [("encode_message", "text", "str")]
    ems = [("encode_message", o, "str") for o in ("object", "numeric")]
    ppf = [("pp", "field", "plain", k) for k in PP_KINDS] + [("pp", "field", "parts", k) for k in PP_PARTS]
    ppm = [("pp", "message", o, s) for o in ("text", "object") for s in ("stream", "stdout")]
    emt = [("encode_message", "text", k) for k in T_KINDS]
    # a message of one, two or three bitmaps, binary or text; for decoded ones also how many of them flag a field
    codes = [(p, q) for p in ("b", "text") for q in ("b", "text")]
    rme = [("roundtrip_message_encode", p, q, m) for m in (3, 2, 1) for p, q in codes if m > 1 or q == "b"]
    rmd = [("roundtrip_message_decode", p, q, m, v) for v in (3, 2, 1) for m in (3, 2, 1) if v <= m
           for p, q in codes if m > 1 or q == "b"]
    return {
        "C01": [("roundtrip_field_encode",)] + ef_of("C03", "C07", "C10") + em_of("C03", "C05", "C07", "C10", "accepts") + rme,
        "C02": [("roundtrip_field_decode",)] + df_of("C04", "C08", "C10") + dm_of(
            "C04", "C06", "C08", "C10", "accepts") + rmd,
        "C03": efs + em + ems[1:],
        "C04": df + dmb,
        "C05": em,
        "C06": dmb,
        "C07": ef + em,
        "C08": df + dm,
        "C09": df + ef,
        "C10": df + dmb + ef + em,
        "C11": df + dmb + [("wrong", "decode")],
        "C12": efs + em + ems + emt + [("wrong", "encode")],
        "C13": df + dm,
        "C14": efs + em + ems,
        "C15": [("exceptions", "DecodeError", "bytes"), ("exceptions", "DecodeError", "bytearray"),
                ("exceptions", "EncodeError", "bytes")],
        "C16": df + dmb + efs + em + ems + emt + ppf + ppm,
        "C17": df + dmb + efs + em + ems + emt + ppf + ppm + [("containers", "field")]
        + [("containers", "message", k, 7) for k in range(7)],
        "C18": ppf + ppm,
        "C19": ppf,
        "C20": [("shipped", "wf"), ("shipped", "default"), ("shipped", "default_ascii"), ("shipped", "others")],
    }.get(prop, [])


def ef_of(*props):
    return [("encode_field", "str", p) for p in props]


def df_of(*props):
    return [("decode_field", "bytes", p) for p in props]


def em_of(*props):
    return [("encode_message", "text", "str") + props]


def dm_of(*props):
    return [("decode_message", "bytes") + props]


def run_task(prop, task, deadline, cross=False):
    """the obligations of one task: a plain dictionary."""
    from pyvc import solver
    from pyvc.values import Unsupported

    from . import core, world

    world.SUBCLASSED = prop in ("C11", "C12")
    t0 = time.time()
    solver.CROSS = cross
    ck = core.Checker(prop, deadline)
    err = None
    try:
        _run(prop, task, ck, deadline)
        if ck.total == 0 and not (task[0] == "encode_field" and task[1] != "str") and task[1:] != ("others",):
            err = "no obligation was generated"
    except Unsupported as e:
        err = "the verifier cannot process the code: %s" % e
    except RecursionError:
        err = "the verifier ran out of stack"
    except MemoryError:
        err = "the verifier ran out of memory"
    except Exception:
        err = "the verifier failed: " + traceback.format_exc()[-1500:]
    return {"task": list(task), "total": ck.total + (1 if err else 0), "discharged": ck.discharged,
            "syntactic": ck.syntactic, "groups": ck.by_group, "failed": [f.text() for f in ck.failed[:10]],
            "nfailed": len(ck.failed) + (1 if err else 0), "error": err, "functions": sorted(map(str, ck.functions)),
            "stats": dict(solver.STATS), "cross": dict(solver.CROSS_LOG), "wall": round(time.time() - t0, 2)}


def _run(prop, task, ck, deadline):
    kind = task[0]
    if kind == "decode_field":
        from .field import DecodeField, decode_field
        decode_field(task[2] if len(task) > 2 else prop, ck, DecodeField(task[1], deadline=deadline))
    elif kind == "encode_field":
        from .field import EncodeField, encode_field
        encode_field(task[2] if len(task) > 2 else prop, ck, EncodeField(task[1], deadline=deadline))
    elif kind == "decode_message":
        from .message import DecodeMessage, decode_message
        dm = DecodeMessage(task[1])
        for p in task[2:] or (prop,):
            decode_message(p, ck, dm)
    elif kind == "encode_message":
        from .message_enc import EncodeMessage, encode_message
        em = EncodeMessage(task[1], tkind=task[2])
        for p in task[3:] or (prop,):
            encode_message(p, ck, em)
    elif kind == "wrong":
        from .message_enc import wrong_argument
        wrong_argument(prop, ck, task[1])
    elif kind == "roundtrip_field_encode":
        from .field import field_roundtrip_encode
        field_roundtrip_encode(ck, deadline)
    elif kind == "roundtrip_field_decode":
        from .field import field_roundtrip_decode
        field_roundtrip_decode(ck, deadline)
    elif kind == "roundtrip_message_encode":
        from .roundtrip import message_roundtrip_encode
        message_roundtrip_encode(ck, *task[1:], deadline=deadline)
    elif kind == "roundtrip_message_decode":
        from .roundtrip import message_roundtrip_decode
        message_roundtrip_decode(ck, *task[1:], deadline=deadline)
    elif kind == "pp":
        from .pretty import pretty
        pretty(prop, ck, *task[1:])
    elif kind == "exceptions":
        from .errors import exceptions
        exceptions(prop, ck, *task[1:])
    elif kind == "shipped":
        from .shipped import shipped
        shipped(prop, ck, *task[1:])
    elif kind == "containers":
        from .containers import containers
        containers(prop, ck, *task[1:])
    else:
        raise KeyError(kind)
