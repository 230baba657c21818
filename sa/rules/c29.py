"""C29: errors.  A catalogue of invalid inputs to the public functions (symbolic over their
values where the input stays invalid for all of them) is interpreted: each must raise an
exception of the library, on every execution; what the exception says is then asked for with
str(), which must give a message (not an empty one) and not fail; codec errors must be caught by
`except CodecException` and carry the message attribute."""
import struct
from .common import *
from .c17 import build
from .. import m_str

DRV = """
from io import BytesIO
from array import array
from datetime import datetime
import numpy as np
from simplemseed.exceptions import CodecException, SteimException, UnsupportedCompressionType
from simplemseed.fdsnsourceid import FDSNSourceId, NetworkSourceId, StationSourceId, LocationSourceId, FDSNSourceIdException, bandCodeForRate
from simplemseed.mseed3 import MSeed3Header, MSeed3Record, Miniseed3Exception, unpackMSeed3Record, unpackMSeed3FixedHeader, readMSeed3Records, mseed3merge
from simplemseed.miniseed import MiniseedHeader, MiniseedRecord, MiniseedException, unpackMiniseedRecord, unpackMiniseedHeader, unpackFixedHeaderGuessByteOrder, readMiniseed2Records, Blockette1000, BlocketteUnknown
from simplemseed.mseed2to3 import mseed2to3
from simplemseed.seedcodec import EncodedDataSegment, arrayTypecodeFromMSeed, mseed3EncodingFromArrayTypecode, mseed3EncodingFromNumpyDT, numpyDTFromMseed3Encoding, encode, decompress
from simplemseed.steim1 import encodeSteim1, decodeSteim1, encodeSteim1FrameBlock
from simplemseed.steim2 import encodeSteim2, decodeSteim2, encodeSteim2FrameBlock

def says(f, a):
    try:
        f(*a)
    except Exception as e:
        return str(e)
    return "-no exception-"

def codec(f, a):
    try:
        f(*a)
    except CodecException as e:
        return (True, e.message, str(e))
    except Exception as e:
        return (False, "", "")
    return (False, "", "")

def parse(s): return FDSNSourceId.parse(s)
def nslc(n, s, l, c): return FDSNSourceId.fromNslc(n, s, l, c)
def pnslc(x): return FDSNSourceId.parseNslc(x)
def pnslc2(x, sep): return FDSNSourceId.parseNslc(x, sep)
def tempnet(n, y): return NetworkSourceId(n, y)
def temp2(n, y): return FDSNSourceId.fromNslc(n, "ABC", "00", "BHZ", y)
def temp3(n, y): return FDSNSourceId.parseNslc(n + ".ABC.00.BHZ", startYear=y)

def head2(ARGS): return MiniseedHeader("XX", "ABC", "00", "BHZ", "2024-01-02T03:04:05Z", 5, 0, encoding=ARGS)
def head2rate(n, f, m, enc): return MiniseedHeader("XX", "ABC", "00", "BHZ", "2024-01-02T03:04:05Z", n, 0, encoding=enc, sampRateFactor=f, sampRateMult=m)
def head2time(t): return MiniseedHeader("XX", "ABC", "00", "BHZ", t, 5, 20)
def pack2codes(n, s, l, c): return MiniseedRecord(MiniseedHeader(n, s, l, c, "2024-01-02T03:04:05Z", 0, 20), [1, 2, 3]).pack()
def pack2q(q, seq): return MiniseedHeader("XX", "ABC", "00", "BHZ", "2024-01-02T03:04:05Z", 0, 20, dataquality=q, sequence_number=seq).pack()
def rec2(x, enc, n): return MiniseedRecord(MiniseedHeader("XX", "ABC", "00", "BHZ", "2024-01-02T03:04:05Z", n, 20, encoding=enc), x)
def pack2(x, exp, ln, n):
    h = MiniseedHeader("XX", "ABC", "00", "BHZ", "2024-01-02T03:04:05Z", 0, 20)
    r = MiniseedRecord(h, x)
    h.recordLengthExp = exp
    h.recordLength = ln
    h.numSamples = n
    return r.pack()
def pack2set(name, v):
    h = MiniseedHeader("XX", "ABC", "00", "BHZ", "2024-01-02T03:04:05Z", 0, 20)
    r = MiniseedRecord(h, [1, 2, 3])
    setattr(h, name, v)
    return r.pack()
def pack2blk(n):
    h = MiniseedHeader("XX", "ABC", "00", "BHZ", "2024-01-02T03:04:05Z", 0, 20)
    r = MiniseedRecord(h, [1, 2, 3], blockettes=[BlocketteUnknown(500, 500, b"\\0" * n, ">")])
    return r.pack()
class Other:
    blocketteNum = 77
    nextOffset = 0
def pack2other():
    h = MiniseedHeader("XX", "ABC", "00", "BHZ", "2024-01-02T03:04:05Z", 0, 20)
    r = MiniseedRecord(h, [1, 2, 3])
    r.blockettes.append(Other())
    return r.pack()
def unpack2(b): return unpackMiniseedRecord(b)
def fixed2(b): return unpackMiniseedHeader(b)
def guess2(b): return unpackFixedHeaderGuessByteOrder(b)
def read2(c):
    n = 0
    for r in readMiniseed2Records(BytesIO(c)):
        n = n + 1
    return n
def dec2(c):
    n = 0
    for r in readMiniseed2Records(BytesIO(c)):
        r.decompress()
        n = n + 1
    return n
def conv(c):
    n = 0
    for r in readMiniseed2Records(BytesIO(c)):
        mseed2to3(r)
        n = n + 1
    return n

def time3(t):
    h = MSeed3Header()
    h.starttime = t
def rec3(x, enc, n):
    h = MSeed3Header()
    h.encoding = enc
    h.numSamples = n
    return MSeed3Record(h, "FDSN:XX_ABC__B_H_Z", x)
def rec3seg(e, b, n, enc, hn):
    h = MSeed3Header()
    h.encoding = enc
    h.numSamples = hn
    return MSeed3Record(h, "FDSN:XX_ABC__B_H_Z", EncodedDataSegment(e, b, n, True))
def rec2seg(e, b, n, enc, hn):
    return MiniseedRecord(MiniseedHeader("XX", "ABC", "00", "BHZ", "2024-01-02T03:04:05Z", hn, 20, encoding=enc), EncodedDataSegment(e, b, n, True))
def sid3(s): return MSeed3Record(MSeed3Header(), s, [1, 2, 3]).parseIdentifier()
def dec3(e, b, n):
    h = MSeed3Header()
    h.encoding = e
    h.numSamples = n
    return MSeed3Record(h, "FDSN:XX_ABC__B_H_Z", b).decompress()
def dec3none(): return MSeed3Record(MSeed3Header(), "FDSN:XX_ABC__B_H_Z", None).decompress()
def dec3d(e, b, n):
    h = MSeed3Header()
    h.encoding = e
    h.numSamples = n
    return MSeed3Record(h, "FDSN:XX_ABC__B_H_Z", b).decompressedRecord()
def pack3enc(x, e):
    h = MSeed3Header()
    r = MSeed3Record(h, "FDSN:XX_ABC__B_H_Z", x)
    h.encoding = e
    return r.pack()
def fixed3(b): return unpackMSeed3FixedHeader(b)
def unpack3(b): return unpackMSeed3Record(b)
def read3(c):
    n = 0
    for r in readMSeed3Records(BytesIO(c)):
        n = n + 1
    return n
def read3c(c):
    n = 0
    for r in readMSeed3Records(BytesIO(c), check_crc=True):
        n = n + 1
    return n

def tc(e): return arrayTypecodeFromMSeed(e)
def fromtc(c, n): return mseed3EncodingFromArrayTypecode(c, n)
def fromdt(a): return mseed3EncodingFromNumpyDT(a.dtype)
def dt(e): return numpyDTFromMseed3Encoding(e)
def enc(x): return encode(x)
def enc2(x, e): return encode(x, e)
def enc3(x, e): return encode(x, e, True)
def dec(e, b, n, le):
    return decompress(e, b, n, le)
def s1(x): return encodeSteim1(x)
def s2(x): return encodeSteim2(x)
def s1f(x, n): return encodeSteim1FrameBlock(x, n)
def s2f(x, n): return encodeSteim2FrameBlock(x, n)
def s1o(x, n, b, o): return encodeSteim1(x, n, b, o)
def d1(b, n): return decodeSteim1(b, n)
def d2(b, n): return decodeSteim2(b, n)
"""
LIB = {"CodecException", "MiniseedException", "Miniseed3Exception", "FDSNSourceIdException"}
SID = "FDSN:XX_ABC__B_H_Z"


def check(ctx):
    d = ctx.driver(DRV.replace("ARGS", "enc"))
    ctx.I.inline_gens = True
    ctx.I.unroll = 12
    w = ctx.where(ctx.get("exceptions:CodecException.__init__"))
    sites = {}
    for R, names, tab in (("C29.sourceid", LIB, sids), ("C29.miniseed2", LIB, two), ("C29.miniseed3", LIB, three), ("C29.codec", CODEC, codecs)):
        for lab, fn, args in tab(ctx):
            attempt(ctx, R, lab, w, lambda: one(ctx, d, w, R, lab, fn, args, names))
    for n, k in (("sourceid", 60), ("miniseed2", 150), ("miniseed3", 100), ("codec", 250)):
        ctx.floor("C29." + n, k)


def one(ctx, d, w, R, lab, fn, args, names):
    st = ctx.state()
    a = tuple(x(st) if callable(x) else x for x in args)
    r = ctx.run(d[fn], list(a), st=st)
    if not ctx.never_returns(R, f"{lab}: refused with an exception of the library", w, r, names):
        return
    st = ctx.state()
    a = tuple(x(st) if callable(x) else x for x in args)
    r = ctx.run(d["says"], [d[fn], a], st=st)
    if ctx.completes(R, f"{lab}: has a message", w, r):
        ctx.returns(R, f"{lab}: the message can be had", w, r)
        ctx.holds(R, f"{lab}: the message is not empty", w, nonempty(r.value), r.state)
    if names is CODEC or fn in ("dec3", "dec3d", "dec3none", "dec2", "pack2other"):
        st = ctx.state()
        a = tuple(x(st) if callable(x) else x for x in args)
        r = ctx.run(d["codec"], [d[fn], a], st=st)
        if ctx.completes(R, f"{lab}: is a codec exception", w, r):
            ctx.returns(R, f"{lab}: its message can be had", w, r)
            if isinstance(r.value, T) and r.value.op == "ite":
                ctx.eq(R, f"{lab}: is caught as the codec exception", w, pick(r.value, 0), True, r.state)
                ctx.eq(R, f"{lab}: carries its message", w, pick(r.value, 1), pick(r.value, 2), r.state)
            else:
                ctx.eq(R, f"{lab}: is caught as the codec exception", w, r.value[0], True, r.state)
                ctx.eq(R, f"{lab}: carries its message", w, r.value[1], r.value[2], r.state)


def pick(v, i):
    if isinstance(v, T) and v.op == "ite":
        return ite(v.args[0], pick(v.args[1], i), pick(v.args[2], i))
    return v[i]


def nonempty(s):
    if isinstance(s, str):
        return s != ""
    if isinstance(s, T) and s.op == "ite":
        c, a, b = s.args
        return and_(or_(tm.not_(c), nonempty(a)), or_(c, nonempty(b)))
    if isinstance(s, T) and s.op == "scat" and any(nonempty(p) is True for p in s.args):
        return True
    if isinstance(s, T) and s.op == "fmt" and isinstance(s.args[0], T) and s.args[0].ty in ("int", "real", "bool"):
        return True
    if isinstance(s, T):
        return tm.not_(tm.eqv(s, ""))
    return isinstance(s, str)


def ints(n, lo=-100, hi=100):
    return [sym(f"x{i}", "int", lo, hi) for i in range(n)]


def N(dt, xs, en="<"):
    return lambda st: m_np.new_items(list(xs), m_np.dtype(dt, en), st, None)


def sids(ctx):
    """identifiers and codes"""
    out = []
    for s in ("", "FDSN", "fdsn:XX_ABC__B_H_Z", "XFDSN:XX", "XX_ABC__B_H_Z", "FDSN;XX_ABC", " FDSN:XX_ABC", "\u00e9", "FDSN_XX_ABC"):
        out.append((f"id {s!r}", "parse", (s,)))
    out.append(("any id with another prefix", "parse", (m_str.scat("XDSN:", sym("s", "str")),)))
    for n in (4, 5, 7, 8):
        xs = [sym(f"c{i}", "str", free="_") for i in range(n)]
        out.append((f"any id of {n} items", "parse", (m_str.scat("FDSN:", *[p for x in xs for p in (x, "_")][:-1]),)))
        out.append((f"empty id of {n} items", "parse", ("FDSN:" + "_" * (n - 1),)))
    for c in ("", "B", "BH", "BHZZ", "B_H", "BH_Z_", "_BH", "B_", "B__Z", "__", "B_H_Z_Q", "_H_Z", "____", "BB_H_Z", "H-Z-", "BHZ1_", "_" * 5):
        out.append((f"channel {c!r}", "nslc", ("XX", "ABC", "00", c)))
        out.append((f"nslc with channel {c!r}", "pnslc2", (f"XX.ABC.00.{c}", ".")))
    for n in (0, 1, 2, 4, 5):
        out.append((f"any channel code of {n} letters", "nslc", (sym("n", "str"), sym("s", "str"), sym("l", "str"), sym("c", "str", alpha="BHZ", n=n) if n else "")))
    for x in ("", "XX", "XX.ABC", "XX.ABC.00", "..", "XX_ABC_00_BHZ"):
        out.append((f"nslc {x!r}", "pnslc", (x,)))
    for n in (1, 2, 3):
        xs = [sym(f"c{i}", "str", free=".") for i in range(n)]
        out.append((f"any nslc of {n} items", "pnslc", (m_str.scat(*[p for x in xs for p in (x, ".")][:-1]),)))
    for fn in ("tempnet", "temp2", "temp3"):
        for y in (0, 1, -5, 1879, 2101, 19990, 99, "", "1", "12", "123", "12345", "1994 ", "\u0661"):
            out.append((f"{fn} year {y!r}", fn, ("XD", y)))
        out.append((f"{fn} any year too small", fn, ("XD", sym("y", "int", None, 1879))))
        out.append((f"{fn} any year too large", fn, ("XD", sym("y", "int", 2101, None))))
        for n in (1, 2, 3, 5, 6):
            out.append((f"{fn} any year of {n} characters", fn, ("XD", sym("y", "str", n=n))))
    return out


def data_cases(v, ctx):
    out = []
    rec = f"rec{v}"
    L = lambda *xs: lambda st: ctx.I.new_list(list(xs), st)
    for dt in ("float32", "float64", "int16", "int32"):
        for e in (-1, 3, 4):
            out.append((f"two dimensional {dt} in encoding {e}", rec, (sym("x", "ndarray", dtype=dt, endian="<", ndim=2), e, 0)))
    for dt in ("uint8", "int8", "uint16", "float16", "bool") + (("int64", "uint32", "uint64") if v == 2 else ()):
        out.append((f"numpy {dt}", rec, (N(dt, [1, 0] if dt == "bool" else [1, 2]), -1, 0)))
    if v == 3:
        for x in (2**31, -2**31 - 1, 2**40):
            out.append((f"int64 {x}", rec, (N("int64", [1, x]), -1, 0)))
        out.append(("any int64 too large", rec, (N("int64", [sym("x", "int", 2**31, 2**63 - 1)]), -1, 0)))
        out.append(("any int64 too small", rec, (N("int64", [1, sym("x", "int", -2**63, -2**31 - 1)]), -1, 0)))
        out.append(("any uint32 too large", rec, (N("uint32", [sym("x", "int", 2**31, 2**32 - 1)]), -1, 0)))
    for e in (1, 3):
        for x in (1.5, -0.25, 1e10):
            out.append((f"list with {x} in encoding {e}", rec, (L(1, x), e, 0)))
    for e, m in ((1, 2**15), (3, 2**31)):
        for x in (m, -m - 1, m * 5):
            out.append((f"list with {x} in encoding {e}", rec, (L(1, x), e, 0)))
        out.append((f"list with any value too large in encoding {e}", rec, (L(1, sym("x", "int", m, 2**63 - 1)), e, 0)))
    for e in (0, 2, 10, 11, 12, 19, 30, 100):
        out.append((f"list in encoding {e}", rec, (L(1, 2), e, 0)))
    for lab, x in (("str", "abc"), ("any str", sym("s", "str")), ("int", 5), ("any int", sym("i", "int")), ("float", 1.5), ("any float", sym("f", "real")), ("tuple", (1, 2)), ("dict", lambda st: ctx.I.new_dict([], st))):
        for e in (-1, 3):
            out.append((f"{lab} as data in encoding {e}", rec, (x, e, 0)))
    for dt, e in (("int16", 1), ("int32", 3), ("float32", 4), ("float64", 5)):
        for he in (0, 1, 3, 4, 5, 10, 11, 19, 255):
            if he != e:
                out.append((f"{dt} in a header of encoding {he}", rec, (N(dt, [1, 2]), he, 0)))
        for n in (1, 3, 65535):
            out.append((f"{dt} of 2 in a header of {n} samples", rec, (N(dt, [1, 2]), e, n)))
            out.append((f"list of 2 in encoding {e} in a header of {n} samples", rec, (L(1, 2), e, n)))
        out.append((f"{dt} of 2 in a header of any larger count", rec, (N(dt, [1, 2]), -1, sym("n", "int", 3, 60000))))
    for e in (1, 10, 11):
        out.append((f"segment of encoding {e} in another", rec + "seg", (e, b"\0" * 64, 5, 3, 0)))
        out.append((f"segment of encoding {e} of another count", rec + "seg", (e, b"\0" * 64, 5, -1, 7)))
        out.append((f"segment of encoding {e} of any other count", rec + "seg", (e, b"\0" * 64, 5, -1, sym("n", "int", 6, 9000))))
        out.append((f"segment of encoding {e} in any other", rec + "seg", (e, b"\0" * 64, 5, sym("he", "int", e + 1, 255), 0)))
    return out


def two(ctx):
    out = []
    L = lambda *xs: lambda st: ctx.I.new_list(list(xs), st)
    for e in (1, 3, 4, 5, 10, 11, 19, 255):
        out.append((f"rate 0 of encoding {e}", "head2rate", (5, 0, 0, e)))
        out.append((f"rate 0 of encoding {e}, no samples", "head2rate", (0, 0, 0, e)))
    out.append(("rate 0 of any encoding", "head2rate", (sym("n", "int", 0, 65535), 0, 0, sym("e", "int", 1, 255))))
    for lab, t in (("float", 1.5), ("any float", sym("t", "real")), ("None", None), ("int", 20240102), ("any int", sym("t", "int")), ("tuple", (2024, 1)), ("bytes", b"2024-01-02"), ("list", L(1))):
        out.append((f"start time {lab}", "head2time", (t,)))
        out.append((f"miniseed3 start time {lab}", "time3", (t,)))
    good = ("XX", "ABC", "00", "BHZ")
    for i, (nm, wd) in enumerate((("network", 2), ("station", 5), ("location", 2), ("channel", 3))):
        for c in ("A" * (wd + 1), "A" * (wd + 5), " " * (wd + 1), "\u00c9" * wd):
            a = list(good)
            a[i] = c
            out.append((f"{nm} code {c!r}", "pack2codes", tuple(a)))
        for n in (wd + 1, wd + 2, wd + 7):
            a = list(good)
            a[i] = sym("c", "str", alpha="AZ09", n=n)
            out.append((f"any {nm} code of {n} characters", "pack2codes", tuple(a)))
    for n in (2, 3, 5):
        out.append((f"any quality of {n} characters", "pack2q", (sym("q", "str", alpha="DRQM", n=n), 1)))
    for q in (1000000, 12345678):
        out.append((f"sequence number {q}", "pack2q", ("D", q)))
    out += data_cases(2, ctx)
    for exp, ln in ((9, 511), (9, 1024), (9, 0), (8, 512), (12, 512), (10, 512)):
        out.append((f"record length {ln} of exponent {exp}", "pack2", (L(1, 2, 3), exp, ln, 3)))
    for exp in (5, 6):
        out.append((f"record length exponent {exp}: too small for the record", "pack2", (L(1, 2, 3), exp, 2**exp, 3)))
    for k in (1, 60, 65):
        out.append((f"{120 + k} samples in 512 bytes", "pack2", (N("int32", range(120 + k)), 9, 512, 120 + k)))
    out.append(("payload too large for the record", "pack2", (bsym("b", 449), 9, 512, 1)))
    out.append(("payload larger than the record", "pack2", (bsym("b", 600), 9, 512, 1)))
    for nm in ("numSamples", "sampRateFactor", "sampRateMult", "actFlag", "ioFlag", "qualFlag", "timeCorr", "dataOffset"):
        hi = {"numSamples": 2**16, "dataOffset": 2**16, "sampRateFactor": 2**15, "sampRateMult": 2**15, "timeCorr": 2**31}.get(nm, 256)
        lo = {"sampRateFactor": -2**15, "sampRateMult": -2**15, "timeCorr": -2**31}.get(nm, 0) - 1
        if nm != "dataOffset":
            for x in (hi, lo, hi * 3):
                out.append((f"{nm} {x}", "pack2set", (nm, x)))
            out.append((f"any {nm} too large", "pack2set", (nm, sym("x", "int", hi, 2**40))))
    for n in (449, 460, 600):
        out.append((f"blockette of {n} bytes", "pack2blk", (n,)))
    out.append(("object that is no blockette", "pack2other", ()))
    # reading
    out.append(("no bytes", "unpack2", (b"",)))
    for n in (1, 20, 47):
        out.append((f"any {n} bytes", "unpack2", (bsym("b", n),)))
        out.append((f"any {n} bytes as header", "fixed2", (bsym("b", n),)))
        out.append((f"any {n} bytes as header of either order", "guess2", (bsym("b", n),)))
        out.append((f"any {n} bytes read", "read2", (bsym("b", n),)))
    for o in "><":
        def rec(chain, off=48, dataOffset=64, nb=None, **fx):
            """128 bytes: fixed header, then pieces at given offsets"""
            v = dict(TYP2, numBlockettes=len(chain) if nb is None else nb, blocketteOffset=off, dataOffset=dataOffset, **fx)
            b = ms2_bytes(v, o, TXT)
            at = 48
            for where, piece in chain:
                if where > at:
                    b = ct.cat(b, b"\0" * (where - at))
                b = ct.cat(b, piece)
                at = where + ct.clen(piece)
            return ct.cat(b, b"\0" * max(0, 128 - at))
        k = lambda nxt, exp=7, enc=3: b1000(o, nxt, enc, 1 if o == ">" else 0, exp)
        good = rec([(48, k(0))])
        for n in (48, 50, 51, 55, 57, 63, 64, 100, 127):
            out.append((f"{o} record cut at {n}", "read2", (sl(good, 0, n),)))
            out.append((f"{o} record cut at {n} unpacked", "unpack2", (sl(good, 0, n),)))
            out.append((f"{o} second record cut at {n}", "read2", (ct.cat(good, sl(good, 0, n)),)))
        out.append((f"{o} first blockette in the header", "read2", (rec([(48, k(0))], off=40),)))
        for e in (20, 63, 64, 255):
            out.append((f"{o} record length exponent {e}", "read2", (rec([(48, k(0, exp=e))]),)))
        for e in (0, 1, 5, 6):
            out.append((f"{o} record length exponent {e}: shorter than the record's own header", "read2", (rec([(48, k(0, exp=e))], dataOffset=64),)))
        for nxt in (4, 48, 49, 50, 51):
            out.append((f"{o} next blockette at {nxt}: inside the previous", "read2", (rec([(48, k(nxt))], nb=2),)))
        out.append((f"{o} next blockette beyond the record", "read2", (rec([(48, k(4000))], nb=2),)))
        out.append((f"{o} blockette after a blockette 1000, next at 4100", "read2", (rec([(48, k(56)), (56, ct.cat(ct.fld("H", o, 500), ct.fld("H", o, 4100), b"\0" * 4))], nb=3),)))
        for off in (1, 47, 48, 50, 55):
            out.append((f"{o} data at {off}: before the blockette ends", "read2", (rec([(48, k(0))], dataOffset=off),)))
        out.append((f"{o} data beyond the record", "read2", (rec([(48, k(0))], dataOffset=200),)))
        for yr in (0, 200, 32768, 65535):
            out.append((f"{o} year {yr}", "unpack2", (rec([(48, k(0))], year=yr),)))
        for nm, x in (("hour", 24), ("minute", 60), ("hour", 255)):
            out.append((f"{o} {nm} {x}", "unpack2", (rec([(48, k(0))], **{nm: x}),)))
        for e in (2, 12, 19, 32, 100):
            if e != 32:
                out.append((f"{o} encoding {e} decompressed", "dec2", (rec([(48, k(0, enc=e))]),)))
        for e in (1, 3, 4, 5):
            out.append((f"{o} encoding {e} with too little data decompressed", "dec2", (rec([(48, k(0, enc=e))], numSamples=40),)))
        for e in (10, 11):
            out.append((f"{o} encoding {e} with other count decompressed", "dec2", (rec([(48, k(0, enc=e))]),)))
        out.append((f"{o} no blockette 1000 converted", "conv", (ct.cat(rec([(48, b100(o, 0, 20.0))], dataOffset=64), b"\0" * 384),)))
        out.append((f"{o} no blockette converted", "conv", (ct.cat(rec([], off=0, dataOffset=64), b"\0" * 384),)))
    return out


TXT = b"000001D ABCD 00BHZXX"


def three(ctx):
    out = data_cases(3, ctx)
    L = lambda *xs: lambda st: ctx.I.new_list(list(xs), st)
    for s in ("", "XX_ABC__B_H_Z", "XFDSN:XX_ABC__B_H_Z", "fdsn:XX_ABC__B_H_Z", "FDSN", "FDSN:XX_ABC__B", "FDSN:XX_ABC__B_H_Z_Q"):
        out.append((f"identifier {s!r}", "sid3", (s,)))
    out.append(("any identifier of another kind", "sid3", (m_str.scat("XFDSN:", sym("s", "str")),)))
    for e in (0, 2, 12, 19, 30, 32, 100, 255):
        for n in (1, 4):
            if e != 32:
                out.append((f"payload of encoding {e}, {n} samples", "dec3", (e, bsym("b", 64), n)))
                out.append((f"payload of encoding {e}, {n} samples copied", "dec3d", (e, bsym("b", 64), n)))
    out.append(("no data decompressed", "dec3none", ()))
    for e, sz in ((1, 2), (3, 4), (4, 4), (5, 8)):
        for n in (1, 3, 20):
            out.append((f"{n} samples in {n * sz - 1} bytes of encoding {e}", "dec3", (e, bsym("b", n * sz - 1), n)))
        out.append((f"any larger count in 16 bytes of encoding {e}", "dec3", (e, bsym("b", 16), sym("n", "int", 16 // sz + 1, 2**31))))
    for e in (10, 11):
        for n in (1, 63, 65, 127):
            out.append((f"{n} bytes of encoding {e}", "dec3", (e, bsym("b", n), 5)))
        for n in (2, 5, 900):
            out.append((f"{n} samples where one is encoded, encoding {e}", "dec3", (e, b"\0" * 64, n)))
    for e in (0, 2, 10, 11, 12, 19, 100, 255):
        out.append((f"samples packed as encoding {e}", "pack3enc", (N("int32", [1, 2]), e)))
    # reading
    for n in (0, 1, 20, 39):
        out.append((f"any {n} bytes as header", "fixed3", (bsym("b", n),)))
        out.append((f"any {n} bytes as record", "unpack3", (bsym("b", n),)))
        if n:
            out.append((f"any {n} bytes read", "read3", (bsym("b", n),)))
    for b in (b"\0\0", b"Ms", b"SM", b"mS", b"M\0"):
        out.append((f"any bytes after {b!r}", "fixed3", (ct.cat(b, bsym("b", 38)),)))
        out.append((f"any record after {b!r}", "read3", (ct.cat(b, bsym("b", 80)),)))
    x, y = sym("m", "int", 0, 255), sym("s", "int", 0, 76)
    out.append(("any other second letter", "fixed3", (ct.cat(b"M", ct.fld("B", "<", y), bsym("b", 38)),)))
    out.append(("any other first letter", "fixed3", (ct.cat(ct.fld("B", "<", y), b"S", bsym("b", 38)),)))
    for k in (0, 2, 4, 255):
        out.append((f"format version {k}", "fixed3", (ct.cat(b"MS", bytes([k]), bsym("b", 37)),)))
    out.append(("any later format version", "fixed3", (ct.cat(b"MS", ct.fld("B", "<", sym("v", "int", 4, 255)), bsym("b", 37)),)))
    r = build("c", ('{"a":1}',))[0]
    n = ct.clen(r.good)
    for k in (40, 41, 50, 58, 60, 64, n - 1):
        out.append((f"record cut at {k}", "read3", (sl(r.good, 0, k),)))
        out.append((f"record cut at {k} as record", "unpack3", (sl(r.good, 0, k),)))
        out.append((f"second record cut at {k}", "read3", (ct.cat(r.good, sl(r.good, 0, k)),)))
        out.append((f"second record cut at {k}, checked", "read3c", (ct.cat(r.good, sl(r.good, 0, k)),)))
    fx = dict(TYP3, crc=0, identifierLength=3, extraHeadersLength=2, dataLength=8)
    for lab, i, e in (("identifier", b"\xff\xfe\xfd", b"{}"), ("identifier of another kind", b"ab\xc3", b"{}"), ("extra headers", b"abc", b"\xff\xff"), ("cut extra headers", b"abc", b"{\xc3")):
        raw = ct.cat(ms3_bytes(fx), i, e, b"\0" * 8)
        out.append((f"{lab} no text", "read3", (raw,)))
        out.append((f"{lab} no text, as record", "unpack3", (ct.cat(ms3_bytes(dict(fx, crc=crc(raw))), i, e, b"\0" * 8),)))
    for c in (0, 1, 2**32 - 1):
        raw = ct.cat(ms3_bytes(dict(fx, crc=c)), b"abc", b"{}", b"\0" * 8)
        out.append((f"checksum {c}", "unpack3", (raw,)))
        out.append((f"checksum {c} read", "read3c", (raw,)))
    return out


def codecs(ctx):
    out = []
    L = lambda *xs: lambda st: ctx.I.new_list(list(xs), st)
    for e in (-1, 0, 2, 6, 10, 11, 12, 19, 30, 33, 100, 255, 256, sym("e", "int", 33, 1000)):
        if not (isinstance(e, int) and e in (10, 11)):
            out.append((f"type code of encoding {show(e)}", "tc", (e,)))
        if not (isinstance(e, int) and e in (10, 11)):
            out.append((f"numpy type of encoding {show(e)}", "dt", (e,)))
    for c, n in (("b", 1), ("B", 1), ("H", 2), ("I", 4), ("L", 8), ("q", 8), ("u", 4), ("x", 4), ("", 4), ("h", 8), ("i", 8), ("f", 2), ("l", 8), ("d", 16), ("hh", 2)):
        out.append((f"encoding of type code {c!r} of {n} bytes", "fromtc", (c, n)))
    for dt in ("uint8", "int8", "uint16", "uint32", "int64", "uint64", "float16", "bool"):
        for en in "<>":
            if not (en == ">" and dt in ("uint8", "int8", "bool")):
                out.append((f"encoding of {en}{dt}", "fromdt", (N(dt, [0, 1], en),)))
                out.append((f"{en}{dt} encoded", "enc", (N(dt, [0, 1], en),)))
    for lab, x in (("bytes", b"abcd"), ("any bytes", bsym("b", 8)), ("bytearray", lambda st: m_bytes.new_ba(bsym("b", 8), st, None))):
        out.append((f"{lab} encoded", "enc", (x,)))
        for e in (1, 3, 10, 11, 19):
            out.append((f"{lab} encoded as {e}", "enc2", (x, e)))
    out.append(("list of no encoding", "enc", (L(1, 2, 3),)))
    out.append(("any list of no encoding", "enc2", (L(*ints(3)), -1)))
    out.append(("any list of no encoding, any negative", "enc2", (L(*ints(3)), sym("e", "int", None, -1))))
    for e in (0, 2, 10, 11, 12, 19, 30, 100, 255, sym("e", "int", 33, 300)):
        for lab, x in (("list", L(*ints(3))), ("numpy", N("int32", ints(3)))):
            out.append((f"{lab} encoded as {show(e)}", "enc2", (x, e)))
            out.append((f"{lab} encoded little as {show(e)}", "enc3", (x, e)))
    for e, sz in ((1, 2), (3, 4), (4, 4), (5, 8)):
        for le in (True, False):
            for n in (1, 2, 3, 20, 1000):
                out.append((f"{n} samples of encoding {e} in {n * sz - 1} bytes, {le}", "dec", (e, bsym("b", n * sz - 1), n, le)))
            out.append((f"samples of encoding {e} in no bytes, {le}", "dec", (e, b"", 1, le)))
            out.append((f"any larger count of encoding {e}, {le}", "dec", (e, bsym("b", 16), sym("n", "int", 16 // sz + 1, 2**31), le)))
    for e in (0, 2, 6, 12, 19, 30, 33, 100, 255, -1, sym("e", "int", 33, 300)):
        for n in (1, 5, sym("n", "int", 1, 100000)):
            out.append((f"encoding {show(e)} of {show(n)} samples", "dec", (e, bsym("b", 64), n, True)))
    for k in (1, 2):
        for n in (1, 63, 65, 100, 127, 129):
            out.append((f"steim{k} of {n} bytes", f"d{k}", (bsym("b", n), 5)))
            out.append((f"encoding {9 + k} of {n} bytes", "dec", (9 + k, bsym("b", n), 5, False)))
        for n in (2, 5, 1000, sym("n", "int", 2, 100000)):
            out.append((f"steim{k} of {show(n)} samples where one is encoded", f"d{k}", (b"\0" * 64, n)))
        for n in (1, 2, 3):
            out.append((f"steim{k} of a frame with nibble {n} first", f"d{k}", (ct.cat(bytes([n << 6]), b"\0" * 63), 1)))
            for x in (1, 5, 21, 63):
                out.append((f"steim{k} of a frame with nibble {n} first and {x} after", f"d{k}", (ct.cat(bytes([(n << 6) + x]), b"\0" * 63), 1)))
        for x in ("int32", "int16", "int64", "float32"):
            out.append((f"steim{k} of no {x}", f"s{k}", (N(x, []),)))
        out.append((f"steim{k} of no samples", f"s{k}", (L(),)))
        for n in (-1, -5, sym("n", "int", None, -1)):
            out.append((f"steim{k} in {show(n)} frames", f"s{k}f", (L(1, 2, 3), n)))
        for dt in ("float32", "float64", "bool", "float16"):
            for en in "<>":
                out.append((f"steim{k} of {en}{dt}", f"s{k}", (N(dt, [0, 1, 1], en),)))
        out.append((f"steim{k} of a list of floats", f"s{k}", (L(1, 2.5, 3),)))
        out.append((f"steim{k} of a list of any floats", f"s{k}", (L(1, sym("x", "real")),)))
        for dt in ("int32", "int16", "float32"):
            out.append((f"steim{k} of two dimensional {dt}", f"s{k}", (sym("x", "ndarray", dtype=dt, endian="<", ndim=2),)))
        for x in (2**31, -2**31 - 1, 2**40, sym("x", "int", 2**31, 2**63 - 1), sym("x", "int", -2**63, -2**31 - 1)):
            out.append((f"steim{k} of int64 {show(x)}", f"s{k}", (N("int64", [1, x, 2]),)))
            out.append((f"steim{k} of a list with {show(x)}", f"s{k}", (L(1, x, 2),)))
        out.append((f"steim{k} of any uint32 too large", f"s{k}", (N("uint32", [1, sym("x", "int", 2**31, 2**32 - 1)]),)))
    for x in (2**29, -2**29 - 1, 2**30, 2**31 - 1, -2**31, sym("x", "int", 2**29, 2**31 - 1), sym("x", "int", -2**31, -2**29 - 1)):
        out.append((f"steim2 of a difference of {show(x)}", "s2", (L(0, x),)))
        out.append((f"steim2 of a difference of {show(x)} after others", "s2", (N("int32", [1, 5, -3, 0, x]),)))
    for o in (-1, -7, 3, 4, 10, sym("o", "int", None, -1), sym("o", "int", 3, 100)):
        out.append((f"steim1 from offset {show(o)} of 3", "s1o", (L(1, 2, 3), 0, 0, o)))
    # second words with sub-codes that mean nothing
    for nib, dn in ((2, 0), (3, 3)):
        wd = (dn << 30)
        f = struct.pack(">I", nib << (30 - 2 * 3)) + struct.pack(">II", 0, 0) + struct.pack(">I", wd) + b"\0" * 48
        out.append((f"steim2 word with nibble {nib} and sub-code {dn}", "d2", (f, 1)))
        out.append((f"steim2 word with nibble {nib} and sub-code {dn}, any rest", "d2", (ct.cat(struct.pack(">I", nib << 24) + b"\0" * 8, ct.fld("I", ">", sym("x", "int", wd, wd + 2**30 - 1)), b"\0" * 48), 1)))
    return out
