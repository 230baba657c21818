"""Shared symbolic inputs and published layouts (from the FDSN / SEED specifications)."""
from ..kit import *

MS3ERR = {"Miniseed3Exception"}
MS2ERR = {"MiniseedException"}
CODEC = {"CodecException"}
STEIMERR = {"SteimException"}
UNSUP = {"UnsupportedCompressionType"}

# miniSEED 3 specification, section "Fixed section of data header"
# (attribute, offset, struct code)
MS3 = [
    ("flags", 3, "B"), ("nanosecond", 4, "I"), ("year", 8, "H"), ("dayOfYear", 10, "H"),
    ("hour", 12, "B"), ("minute", 13, "B"), ("second", 14, "B"), ("encoding", 15, "B"),
    ("sampleRatePeriod", 16, "d"), ("numSamples", 24, "I"), ("crc", 28, "I"),
    ("publicationVersion", 32, "B"), ("identifierLength", 33, "B"),
    ("extraHeadersLength", 34, "H"), ("dataLength", 36, "I"),
]
UR = {"B": (0, 2**8 - 1), "H": (0, 2**16 - 1), "I": (0, 2**32 - 1), "b": (-128, 127), "h": (-2**15, 2**15 - 1), "i": (-2**31, 2**31 - 1)}


def fsym(name, code, lo=None, hi=None):
    if code == "d" or code == "f":
        return sym(name, "real")
    l, h = UR[code]
    return sym(name, "int", l if lo is None else lo, h if hi is None else hi)


def bsym(name, n):
    """n symbolic bytes"""
    return sym(name, "bytes", n=n) if not isinstance(n, int) or n > 0 else b""


def ms3_syms(prefix="", **fixed):
    return {n: fixed[n] if n in fixed else fsym(prefix + n, c) for n, o, c in MS3}


def ms3_bytes(v):
    """the 40 header bytes of field values v, as published"""
    return ct.cat(b"MS\x03", *[ct.fld(c, "<", v[n]) for n, o, c in MS3])


def bb(ctx, v, st):
    """content of bytes-like result"""
    return content_of(v, st)


SETHDR = "\n".join(f"    h.{n} = v[{i}]" for i, (n, o, c) in enumerate(MS3))
GETHDR = "(" + ", ".join(f"h.{n}" for n, o, c in MS3) + ",)"


def ascii_str(name, **kw):
    return sym(name, "str", **kw)


def utf8(ctx, s, st=None):
    from .. import m_str
    return m_str.encode(s, "utf-8")


def crc(c):
    return m_bytes.crc(c)


def tail_from(c, off, facts):
    """content from off to the end"""
    return ct.slice_(c, off, None, facts or NOF)


def parts(c):
    return ct.parts_of(c)


def is_json_of(sec, want, st):
    """content sec is the UTF-8 form of a JSON text of frozen value want"""
    if isinstance(sec, bytes):
        import json
        py = m_misc.to_py(want)
        try:
            return py is not MISSING and json.loads(sec.decode("utf-8")) == py
        except ValueError:
            return False
    t = sec
    if isinstance(t, T) and t.op in ("utf8",):
        t = t.args[0]
    elif isinstance(t, T) and t.op == "enc" and t.args[0] == "ascii":
        t = t.args[1]
    if isinstance(t, T) and t.op == "jdumps":
        if same(t.args[0], want):
            return True
        return None
    return None


# SEED 2.4 fixed section of data header (attribute, offset, struct code)
MS2 = [
    ("year", 20, "H"), ("yday", 22, "H"), ("hour", 24, "B"), ("minute", 25, "B"), ("second", 26, "B"), ("unused", 27, "B"),
    ("tenthMilli", 28, "H"), ("numSamples", 30, "H"), ("sampRateFactor", 32, "h"), ("sampRateMult", 34, "h"),
    ("actFlag", 36, "B"), ("ioFlag", 37, "B"), ("qualFlag", 38, "B"), ("numBlockettes", 39, "B"), ("timeCorr", 40, "i"),
    ("dataOffset", 44, "H"), ("blocketteOffset", 46, "H"),
]
MS2RANGE = {"year": (1970, 2047), "yday": (1, 365), "hour": (0, 23), "minute": (0, 59), "second": (0, 59), "tenthMilli": (0, 9999)}


def ms2_syms(prefix="", **fixed):
    return {n: fixed[n] if n in fixed else fsym(prefix + n, c, *MS2RANGE.get(n, ())) for n, o, c in MS2}


def ms2_bytes(v, order=">", text=b"000001D ABCD 00BHZXX"):
    """the 48 header bytes of field values v; text is the first 20 bytes"""
    return ct.cat(text, *[ct.fld(c, order, v[n]) for n, o, c in MS2])


def b1000(order, nxt, enc, bo, exp):
    return ct.cat(ct.fld("H", order, 1000), ct.fld("H", order, nxt), ct.fld("B", order, enc), ct.fld("B", order, bo), ct.fld("B", order, exp), ct.fld("B", order, 0))


def b100(order, nxt, rate):
    return ct.cat(ct.fld("H", order, 100), ct.fld("H", order, nxt), ct.fld("f", order, rate), b"\0" * 4)


def b1001(order, nxt, tq, us, fc):
    return ct.cat(ct.fld("H", order, 1001), ct.fld("H", order, nxt), ct.fld("B", order, tq), ct.fld("B", order, us), b"\0", ct.fld("B", order, fc))


def bunk(order, num, nxt, body):
    return ct.cat(ct.fld("H", order, num), ct.fld("H", order, nxt), body)


def ms2_rec(p, order=">", exp=7, dataOffset=64, enc=None, bo=None, text=b"000001D ABCD 00BHZXX", extra=(), data=None, **fx):
    """a record with a Blockette 1000 first and then the given extra blockettes (functions of next offset, each with its size)
    -> header values, payload, bytes"""
    blks = [(8, lambda nxt: b1000(order, nxt, fsym(p + "enc", "B") if enc is None else enc, (1 if order == ">" else 0) if bo is None else bo, exp))] + list(extra)
    off = 48
    out = []
    for i, (size, mk_) in enumerate(blks):
        nxt = off + size if i < len(blks) - 1 else 0
        out.append(mk_(nxt))
        off += size
    v = ms2_syms(p, numBlockettes=len(blks), blocketteOffset=48, dataOffset=dataOffset, **fx)
    n = 2**exp
    end = dataOffset if dataOffset else n
    pad = bsym(p + "pad", end - off)
    data = bsym(p + "data", n - end) if data is None else data
    return v, data, ct.cat(ms2_bytes(v, order, text), *out, pad, data)


TYP3 = dict(flags=0, nanosecond=0, year=2024, dayOfYear=60, hour=1, minute=2, second=3, encoding=3, sampleRatePeriod=20, numSamples=2, publicationVersion=1)
CORN3 = dict(flags=(1, 4, 255), nanosecond=(1, 999999999), year=(1900, 2400), dayOfYear=(1, 366), hour=(0, 23), minute=(0, 59), second=(0, 59),
             encoding=(0, 1, 4, 5, 10, 11, 19, 100, 255), sampleRatePeriod=(-10, 0, 1), numSamples=(0, 1, 2**31, 2**32 - 1), publicationVersion=(0, 2, 255))


def ms3_corners():
    """typical constant header values, varied one at a time"""
    yield "typical", dict(TYP3)
    for n, vs in CORN3.items():
        for x in vs:
            yield f"{n}={x}", dict(TYP3, **{n: x})


TYP2 = dict(year=2024, yday=60, hour=1, minute=2, second=3, unused=0, tenthMilli=0, numSamples=2, sampRateFactor=20, sampRateMult=1, actFlag=0, ioFlag=0, qualFlag=0, timeCorr=0)
CORN2 = dict(year=(1970, 2040), yday=(1, 366), hour=(0, 23), minute=(0, 59), second=(0, 59), unused=(1,), tenthMilli=(1, 9999), numSamples=(0, 1, 2**15, 2**16 - 1),
             sampRateFactor=(0, 1, -10, 32767), sampRateMult=(0, -1, 10), actFlag=(1, 2, 255), ioFlag=(32, 255), qualFlag=(128, 255), timeCorr=(-1, 5))


def ms2_corners():
    yield "typical", dict(TYP2)
    for n, vs in CORN2.items():
        for x in vs:
            yield f"{n}={x}", dict(TYP2, **{n: x})
