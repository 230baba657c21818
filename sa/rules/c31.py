"""C31: the encoding tables.  Every table function is interpreted for each encoding code, numpy
type (both byte orders) and array type code, and for symbolic ones outside the published set; the
round trips between the tables, the sizes, and the classifications (for any integer whatever) are
compared with the published encodings."""
from .common import *

DRV = """
import struct
import numpy as np
from simplemseed.seedcodec import EncodedDataSegment, arrayTypecodeFromMSeed, mseed3EncodingFromArrayTypecode, mseed3EncodingFromNumpyDT, numpyDTFromMseed3Encoding, isFloatCompression, isPrimitiveCompression, canDecompress, encode, decompress

def tc(e): return arrayTypecodeFromMSeed(e)
def dt(e): return numpyDTFromMseed3Encoding(e)
def fromtc(c, n): return mseed3EncodingFromArrayTypecode(c, n)
def fromdt(a): return mseed3EncodingFromNumpyDT(a.dtype)
def name(e): return np.dtype(numpyDTFromMseed3Encoding(e)).name
def width(e): return np.dtype(numpyDTFromMseed3Encoding(e)).itemsize
def swidth(e): return struct.calcsize("<" + arrayTypecodeFromMSeed(e))
def there(e): return mseed3EncodingFromNumpyDT(np.dtype(numpyDTFromMseed3Encoding(e)))
def swapped(e): return mseed3EncodingFromNumpyDT(np.dtype(numpyDTFromMseed3Encoding(e)).newbyteorder(">"))
def little(e): return mseed3EncodingFromNumpyDT(np.dtype(numpyDTFromMseed3Encoding(e)).newbyteorder("<"))
def arr(a): return mseed3EncodingFromArrayTypecode(a.typecode, a.itemsize)
def arrenc(a): return encode(a).compressionType
def nparr(e): return mseed3EncodingFromNumpyDT(np.zeros(2, dtype=numpyDTFromMseed3Encoding(e)).dtype)
def same(e): return (np.dtype(arrayTypecodeFromMSeed(e)).name, np.dtype(numpyDTFromMseed3Encoding(e)).name)
def back(a): return numpyDTFromMseed3Encoding(mseed3EncodingFromNumpyDT(a.dtype))
def isf(e): return isFloatCompression(e)
def isp(e): return isPrimitiveCompression(e)
def can(e): return canDecompress(e)
def segf(e, le): return EncodedDataSegment(e, b"\\0\\0\\0\\0", 1, le).isFloatCompression()
def truth(f, e):
    if f(e):
        return True
    return False
def dec(e, b, n, le): return decompress(e, b, n, le)
def dectype(e, b, n, le): return decompress(e, b, n, le).dtype.name
def enc(x): return encode(x).compressionType
def encn(x, e): return len(encode(x, e).dataBytes)
"""
TAB = {1: ("h", "int16", 2), 3: ("i", "int32", 4), 4: ("f", "float32", 4), 5: ("d", "float64", 8)}
OTHER = (-100, -2, -1, 0, 2, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 30, 31, 32, 33, 34, 52, 53, 64, 65, 99, 100, 101, 127, 128, 255, 256, 257, 259, 261, 65537, 2**31)


def check(ctx):
    d = ctx.driver(DRV)
    W = {n: ctx.where(ctx.get("seedcodec:" + n)) for n in ("arrayTypecodeFromMSeed", "mseed3EncodingFromArrayTypecode", "mseed3EncodingFromNumpyDT", "numpyDTFromMseed3Encoding", "isFloatCompression", "isPrimitiveCompression", "canDecompress")}
    attempt(ctx, "C31.typecode", "type code of an encoding", W["arrayTypecodeFromMSeed"], lambda: codes(ctx, d, W))
    attempt(ctx, "C31.numpy", "numpy type of an encoding", W["numpyDTFromMseed3Encoding"], lambda: types(ctx, d, W))
    attempt(ctx, "C31.fromcode", "encoding of a type code", W["mseed3EncodingFromArrayTypecode"], lambda: fromcode(ctx, d, W))
    attempt(ctx, "C31.fromnumpy", "encoding of a numpy type", W["mseed3EncodingFromNumpyDT"], lambda: fromnumpy(ctx, d, W))
    attempt(ctx, "C31.roundtrip", "and back", W["numpyDTFromMseed3Encoding"], lambda: trip(ctx, d, W))
    attempt(ctx, "C31.class", "classifications", W["isFloatCompression"], lambda: classes(ctx, d, W))
    for n, k in (("typecode", 40), ("numpy", 40), ("fromcode", 40), ("fromnumpy", 20), ("roundtrip", 40), ("class", 100)):
        ctx.floor("C31." + n, k)


def none(ctx, R, w, d, fn):
    """encodings with no counterpart"""
    for e in OTHER:
        ctx.never_returns(R, f"encoding {e}: none", w, ctx.run(d[fn], [e]), UNSUP)
    for lo, hi in ((None, 0), (6, 9), (12, 31), (33, 255), (6, None)):
        r = ctx.run(d[fn], [sym("e", "int", lo, hi)])
        ctx.never_returns(R, f"any encoding from {lo} to {hi}: none", w, r, UNSUP)


def codes(ctx, d, W):
    R, w = "C31.typecode", W["arrayTypecodeFromMSeed"]
    for e, (c, t, n) in TAB.items():
        r = ctx.run(d["tc"], [e])
        if ctx.returns(R, f"encoding {e}: has a type code", w, r):
            ctx.eq(R, f"encoding {e}: type code", w, r.value, c, r.state)
        for fn in ("swidth",):
            r = ctx.run(d[fn], [e])
            if ctx.returns(R, f"encoding {e}: {fn}", w, r):
                ctx.eq(R, f"encoding {e}: width of its type code ({fn})", w, r.value, n, r.state)
    none(ctx, R, w, d, "tc")
    r = ctx.run(d["tc"], [sym("e", "int")])
    ctx.only_raises(R, "any encoding: errors", w, r, UNSUP)


def types(ctx, d, W):
    R, w = "C31.numpy", W["numpyDTFromMseed3Encoding"]
    for e, (c, t, n) in TAB.items():
        for fn, x in (("name", t), ("width", n)):
            r = ctx.run(d[fn], [e])
            if ctx.returns(R, f"encoding {e}: has a numpy type ({fn})", w, r):
                ctx.eq(R, f"encoding {e}: {fn}", w, r.value, x, r.state)
        r = ctx.run(d["same"], [e])
        if ctx.returns(R, f"encoding {e}: both types", w, r):
            ctx.eq(R, f"encoding {e}: array type code and numpy type are the same", w, r.value, (t, t), r.state)
    none(ctx, R, w, d, "dt")
    r = ctx.run(d["dt"], [sym("e", "int")])
    ctx.only_raises(R, "any encoding: errors", w, r, UNSUP)


def fromcode(ctx, d, W):
    R, w = "C31.fromcode", W["mseed3EncodingFromArrayTypecode"]
    for c, n, e in (("h", 2, 1), ("i", 4, 3), ("l", 4, 3), ("f", 4, 4), ("d", 8, 5), ("i", 2, 1)):
        r = ctx.run(d["fromtc"], [c, n])
        if ctx.returns(R, f"{c} of {n}: has an encoding", w, r):
            ctx.eq(R, f"{c} of {n}: encoding", w, r.value, e, r.state)
    for c, n in (("l", 8), ("b", 1), ("B", 1), ("H", 2), ("I", 4), ("L", 4), ("L", 8), ("q", 8), ("Q", 8), ("u", 2), ("u", 4), ("i", 8), ("i", 1), ("h", 1), ("", 4), ("x", 4), ("D", 8), ("F", 4), ("c", 1), ("hi", 2), ("H", 4), ("e", 2), ("f", 2), ("d", 16), ("f", 16)):
        ctx.never_returns(R, f"{c!r} of {n}: none", w, ctx.run(d["fromtc"], [c, n]), UNSUP)
    for n in (1, 2, 4, 8):
        ctx.never_returns(R, f"any other code of {n} bytes: none", w, ctx.run(d["fromtc"], [sym("c", "str", alpha="bBHILqQuwxgGnN?", n=1), n]), UNSUP)
    for c in "hilfd":
        for lo, hi in ((None, 1), (9, None), (5, 7), (3, 3)):
            ctx.never_returns(R, f"{c} of any {lo} to {hi} bytes: none", w, ctx.run(d["fromtc"], [c, sym("n", "int", lo, hi)]), UNSUP)
    r = ctx.run(d["fromtc"], [sym("c", "str"), sym("n", "int")])
    ctx.only_raises(R, "any type code: errors", w, r, UNSUP)


def fromnumpy(ctx, d, W):
    R, w = "C31.fromnumpy", W["mseed3EncodingFromNumpyDT"]
    want = {t: e for e, (c, t, n) in TAB.items()}
    for dt in m_np.DT:
        for en in "<>":
            for fn in ("fromdt", "enc"):
                st = ctx.state()
                try:
                    a = m_np.new_items([1, 0], m_np.dtype(dt, en), st, None)
                except KeyError:
                    continue
                r = ctx.run(d[fn], [a], st=st)
                con = f"{en}{dt} ({fn})"
                if dt in want:
                    if ctx.returns(R, f"{con}: has an encoding", w, r):
                        ctx.eq(R, f"{con}: encoding", w, r.value, want[dt], r.state)
                else:
                    ctx.never_returns(R, f"{con}: none", w, r, UNSUP)


def trip(ctx, d, W):
    R = "C31.roundtrip"
    w = W["numpyDTFromMseed3Encoding"]
    for e, (c, t, n) in TAB.items():
        for fn in ("there", "swapped", "little", "nparr"):
            r = ctx.run(d[fn], [e])
            if ctx.returns(R, f"encoding {e} ({fn}): returns", w, r):
                ctx.eq(R, f"encoding {e} ({fn}): and back", w, r.value, e, r.state)
        for fn in ("arr", "arrenc"):
            for tc in (c, "l") if e == 3 else (c,):
                r = ctx.run(d[fn], [sym("pa", "pyarr", typecode=tc, itemsize=n)])
                if ctx.returns(R, f"array of type code {tc} ({fn}): returns", w, r):
                    ctx.eq(R, f"array of type code {tc} ({fn}): encoding", w, r.value, e, r.state)
        for en in "<>":
            st = ctx.state()
            r = ctx.run(d["encn"], [m_np.new_items([1, 2, 3], m_np.dtype(t, en), st, None), e], st=st)
            if ctx.returns(R, f"encoding {e} of {en}{t}: returns", w, r):
                ctx.eq(R, f"encoding {e} of {en}{t}: bytes of three samples", w, r.value, 3 * n, r.state)
            r = ctx.run(d["dectype"], [e, bsym("b", 3 * n), 3, en == "<"])
            if ctx.returns(R, f"encoding {e} decoded from {en}: returns", w, r):
                ctx.eq(R, f"encoding {e} decoded from {en}: type", w, r.value, t, r.state)
            r = ctx.run(d["dec"], [e, bsym("b", 3 * n - 1), 3, en == "<"])
            ctx.never_returns(R, f"encoding {e} decoded from {en}: needs {n} bytes a sample", w, r, CODEC)


def classes(ctx, d, W):
    R = "C31.class"
    for fn, name, yes in (("isf", "isFloatCompression", (4, 5)), ("isp", "isPrimitiveCompression", (1, 3, 4, 5)), ("can", "canDecompress", (1, 3, 4, 5, 10, 11))):
        w = W[name]
        for e in sorted(set(OTHER) | set(range(0, 40))):
            r = ctx.run(d["truth"], [d[fn], e])
            if ctx.returns(R, f"{name} {e}: returns", w, r) and not (fn == "can" and e == 32):
                ctx.eq(R, f"{name} {e}", w, r.value, e in yes, r.state)
        e = sym("e", "int")
        r = ctx.run(d["truth"], [d[fn], e])
        if fn != "can" and ctx.returns(R, f"{name} of any: returns", w, r):
            ctx.eq(R, f"{name} of any", w, r.value, or_(*[cmp_("==", e, x) for x in yes]), r.state)
    e = sym("e", "int")
    for le in (True, False):
        r = ctx.run(d["segf"], [e, le])
        if ctx.returns(R, f"segment of any encoding, {le}: returns", w, r):
            ctx.eq(R, f"segment of any encoding, {le}: floating point", w, r.value, or_(cmp_("==", e, 4), cmp_("==", e, 5)), r.state)
