"""C08: decompress, EncodedDataSegment.decode and the Steim decoders are interpreted over
payloads with symbolic bytes: any length and any sample count for the uncompressed encodings,
and for Steim frames with every nibble/sub-code (constant) and symbolic data bits, with
sample counts below, at and above what the frames hold, lengths that are not whole frames,
bad first nibbles and unused sub-codes.  Every normal outcome must have exactly the requested
number of samples; every other one must raise the codec error."""
from .common import *
from .steim import *
from .c06 import PRIM
from .steimdec import constant_frames

ENC = {"UnsupportedCompressionType"}

DRV = """
from simplemseed.seedcodec import decompress, EncodedDataSegment, canDecompress
from simplemseed.steim1 import decodeSteim1
from simplemseed.steim2 import decodeSteim2

def dec(e, b, n, le):
    return len(decompress(e, b, n, le))

def dec_ba(e, b, n, le):
    return len(decompress(e, bytearray(b), n, le))

def seg(e, b, n, le):
    return len(EncodedDataSegment(e, b, n, le).decode())

def steim(e, b, n, le):
    if e == 10:
        return len(decodeSteim1(b, n))
    return len(decodeSteim2(b, n))

def can(e):
    return canDecompress(e)
"""

SIZES = {1: 2, 3: 4, 4: 4, 5: 8}


def check(ctx):
    ctx.I.unroll = 12
    d = ctx.driver(DRV)
    wd = ctx.where(ctx.get("seedcodec:decompress"))
    wc = ctx.where(ctx.get("seedcodec:canDecompress"))
    for e in SIZES:
        for fn in ("dec", "dec_ba", "seg"):
            for le in (True, False):
                attempt(ctx, "C08.plain", f"{fn} encoding {e} {'<>'[not le]}", wd, lambda: plain(ctx, d, wd, fn, e, le))
    for e in (10, 11):
        w = ctx.where(ctx.get(f"steim{e - 9}:decodeSteim{e - 9}"))
        for fn in ("dec", "seg", "steim"):
            attempt(ctx, "C08.steim", f"{fn} encoding {e} any length", w, lambda: partial(ctx, d, w, fn, e))
            for k, codes in enumerate(rotations(e)):
                if fn != "steim" and k % 3 and ctx.tier == "quick":
                    continue
                attempt(ctx, "C08.steim", f"{fn} encoding {e} frame {k}", w, lambda: counts(ctx, d, w, fn, e, k, codes))
            for k in range(3):
                attempt(ctx, "C08.steim", f"{fn} encoding {e} many frames {k}", w, lambda: many(ctx, d, w, fn, e, k))
            attempt(ctx, "C08.steim", f"{fn} encoding {e} first nibble", w, lambda: headnib(ctx, d, w, fn, e))
        attempt(ctx, "C08.steim", f"encoding {e} no data words", w, lambda: nodata(ctx, d, w, e))
    attempt(ctx, "C08.steim", "unused sub-codes", ctx.where(ctx.get("steim2:decodeSteim2")), lambda: unused(ctx, d))
    attempt(ctx, "C08.codes", "encoding codes", wd, lambda: codes_(ctx, d, wd, wc))
    ctx.floor("C08.plain", 60)
    ctx.floor("C08.steim", 200)
    ctx.floor("C08.codes", 400)


def plain(ctx, d, w, fn, e, le):
    sz = SIZES[e]
    lab = f"{fn} encoding {e} {'<>'[not le]}"
    b, n = sym("b", "bytes"), sym("n", "int", 1, None)
    r = ctx.run(d[fn], [e, b, n, le])
    ctx.only_raises("C08.plain", f"{lab}: error kind", w, r, CODEC)
    if ctx.completes("C08.plain", f"{lab}: decodes", w, r):
        ctx.eq("C08.plain", f"{lab}: sample count", w, r.value, n, r.state)
        ctx.holds("C08.plain", f"{lab}: bytes suffice", w, cmp_("<=", mul(sz, n), ct.clen(b)), r.state)
    # enough bytes are enough
    st = ctx.state()
    st.assume(cmp_("<=", mul(sz, n), ct.clen(b)))
    r = ctx.run(d[fn], [e, b, n, le], st=st)
    ctx.returns("C08.plain", f"{lab}: enough bytes decode", w, r)
    # no samples wanted
    r = ctx.run(d[fn], [e, b, 0, le])
    if ctx.returns("C08.plain", f"{lab}: no samples", w, r):
        ctx.eq("C08.plain", f"{lab}: empty result", w, r.value, 0, r.state)


def partial(ctx, d, w, fn, e):
    good, df = frame(e, rotations(e)[0], "a", True)
    for k in (1, 32, 63):
        for n in (1, len(df)):
            r = ctx.run(d[fn], [e, ct.cat(good, bsym("t", k)), n, False])
            ctx.never_returns("C08.steim", f"{fn} encoding {e}: {n} samples in a frame and {k} bytes", w, r, CODEC)
    for lab, c in (("63 bytes", bsym("b", 63)), ("1 byte", bsym("b", 1)), ("32 bytes", bsym("b", 32))):
        for n in (1, 5):
            r = ctx.run(d[fn], [e, c, n, False])
            ctx.never_returns("C08.steim", f"{fn} encoding {e}: {n} samples in {lab}", w, r, CODEC)
    for n in (1, 100):
        r = ctx.run(d[fn], [e, b"", n, False])
        ctx.never_returns("C08.steim", f"{fn} encoding {e}: {n} samples in no bytes", w, r, CODEC)
    if fn != "steim":
        r = ctx.run(d[fn], [e, sym("b", "bytes"), 0, False])
        if ctx.returns("C08.steim", f"{fn} encoding {e}: no samples", w, r):
            ctx.eq("C08.steim", f"{fn} encoding {e}: empty result", w, r.value, 0, r.state)


def counts(ctx, d, w, fn, e, k, codes):
    cap = capacity(e, codes)
    one, df = frame(e, codes, "a", True)
    rest = [0] + codes[3:] + codes[3:5]
    two, df2 = frame(e, rest, "b", False)
    cap2 = cap + capacity(e, rest)
    for c, m, nm in ((one, cap, "one frame"), (ct.cat(one, two), cap2, "two frames")):
        if c is not one and fn != "steim" and ctx.tier == "quick":
            continue
        ns = {1, 2, cap - 1, cap, m - 1, m} if ctx.tier != "quick" else {1, cap, m} if c is one else {cap + 1, m}
        for n in sorted(ns):
            if n > m:
                continue
            r = ctx.run(d[fn], [e, c, n, False])
            lab = f"{fn} encoding {e} frame {k}: {n} of {m} in {nm}"
            if ctx.returns("C08.steim", f"{lab} decodes", w, r):
                ctx.eq("C08.steim", f"{lab}: sample count", w, r.value, n, r.state)
        for n in (m + 1, m + 4, 2 * m + 50, 100000) if ctx.tier != "quick" else (m + 1, 100000):
            r = ctx.run(d[fn], [e, c, n, False])
            ctx.never_returns("C08.steim", f"{fn} encoding {e} frame {k}: {n} of {m} in {nm} refused", w, r, CODEC)


def many(ctx, d, w, fn, e, k):
    """several frames of constants"""
    c, df = constant_frames(e, k, 7 if e == 10 else 3)
    un = ctx.I.unroll
    ctx.I.unroll = 1500
    try:
        m = len(df)
        for n in (m, m - 1, m // 2, 1):
            r = ctx.run(d[fn], [e, c, n, False])
            lab = f"{fn} encoding {e} many frames {k}: {n} of {m}"
            if ctx.returns("C08.steim", f"{lab} decodes", w, r):
                ctx.eq("C08.steim", f"{lab}: sample count", w, r.value, n, r.state)
        for n in (m + 1, m + 70):
            r = ctx.run(d[fn], [e, c, n, False])
            ctx.never_returns("C08.steim", f"{fn} encoding {e} many frames {k}: {n} of {m} refused", w, r, CODEC)
    finally:
        ctx.I.unroll = un


def headnib(ctx, d, w, fn, e):
    good, df = frame(e, rotations(e)[0], "a", True)
    for h in (1, 2, 3):
        for codes in rotations(e)[:1]:
            c0 = ct.cat(ct.fld("I", ">", (h << 30) + 1), sl(good, 4, 60))
            r = ctx.run(d[fn], [e, c0, 2, False])
            ctx.never_returns("C08.steim", f"{fn} encoding {e}: first frame starting with {h} refused", w, r, CODEC)
            c1 = ct.cat(good, ct.fld("I", ">", (h << 30) + 1), sl(good, 4, 60))
            for n in (1, len(df), len(df) + 1) if ctx.tier != "quick" else (len(df) + 1, len(df)):
                r = ctx.run(d[fn], [e, c1, n, False])
                ctx.never_returns("C08.steim", f"{fn} encoding {e}: {n} samples, second frame starting with {h} refused", w, r, CODEC)


def nodata(ctx, d, w, e):
    one, df = frame(e, [0] * 16, "a", True)
    for n in (1, 3, 12, 13, 14):
        r = ctx.run(d["steim"], [e, one, n, False])
        ctx.never_returns("C08.steim", f"encoding {e}: {n} samples from a frame without data refused", w, r, CODEC)
    two, df = frame(e, [0] * 16, "b", False)
    for n in (1, 15, 16):
        r = ctx.run(d["steim"], [e, ct.cat(one, two), n, False])
        ctx.never_returns("C08.steim", f"encoding {e}: {n} samples from two frames without data refused", w, r, CODEC)


def unused(ctx, d):
    w = ctx.where(ctx.get("steim2:decodeSteim2"))
    for bad in ((2, 0), (3, 3)):
        for pos in (3, 4, 9, 15):
            codes = [0, 0, 0] + [1] * 13
            codes[pos] = bad
            c, df = frame(11, codes, "a", True)
            for n in (1, 4 * (pos - 3), 48, 52):
                if n > 0:
                    r = ctx.run(d["steim"], [11, c, n, False])
                    ctx.never_returns("C08.steim", f"encoding 11: {n} samples, unused code {bad} in word {pos} refused", w, r, CODEC)
        g, df = frame(11, [0, 0, 0] + [1] * 13, "a", True)
        codes = [0] + [1] * 15
        codes[7] = bad
        c, df = frame(11, codes, "b", False)
        r = ctx.run(d["steim"], [11, ct.cat(g, c), 60, False])
        ctx.never_returns("C08.steim", f"encoding 11: unused code {bad} in second frame refused", w, r, CODEC)


def codes_(ctx, d, w, wc):
    # declared decodable codes are decoded, undecodable codes raise
    good = {}
    for e in range(256):
        r = ctx.run(d["can"], [e])
        if not ctx.returns("C08.codes", f"canDecompress({e})", wc, r):
            continue
        v = r.value
        good[e] = v
        if e in (1, 3, 4, 5, 10, 11):
            ctx.eq("C08.codes", f"canDecompress({e}) is true", wc, v, True, r.state)
    big = ct.cat(bsym("b", 16))
    for e in range(256):
        if e in (10, 11):
            continue
        r = ctx.run(d["dec"], [e, big, 2, True])
        ctx.only_raises("C08.codes", f"encoding {e}: error kind", w, r, UNSUP)
        if good.get(e) is True:
            ctx.returns("C08.codes", f"encoding {e}: decodable", w, r)
        elif e not in (1, 3, 4, 5, 32):
            ctx.never_returns("C08.codes", f"encoding {e}: refused", w, r, UNSUP)
    for e in (-1, 256, 1000, 2**31):
        r = ctx.run(d["dec"], [e, big, 2, True])
        ctx.never_returns("C08.codes", f"encoding {e}: refused", w, r, UNSUP)
    e = sym("e", "int")
    st = ctx.state()
    for x in (1, 3, 4, 5, 10, 11, 16, 30, 32, 33):
        st.assume(not_(eqv(e, x)))
    r = ctx.run(d["dec"], [e, sym("b", "bytes"), sym("n", "int", 1, None), True], st=st)
    ctx.only_raises("C08.codes", "any other encoding: error kind", w, r, CODEC)
    r = ctx.run(d["can"], [e], st=st.copy())
    if ctx.returns("C08.codes", "canDecompress of any other encoding", wc, r):
        ctx.eq("C08.codes", "canDecompress of any other encoding is false", wc, r.value, False, r.state)
