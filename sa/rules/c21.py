"""C21: packing a miniSEED 2 record is interpreted for every record length exponent, blockette
list and payload kind, with payload sizes on either side of what fits (and of unknown size).
Either exactly two-to-the-exponent bytes come back, declaring that exponent and holding the
whole payload at the data offset, or the miniSEED 2 exception is raised."""
from .common import *
from .c20 import SIZE, NUM, blks

DRV = """
import numpy as np
from array import array
from simplemseed.miniseed import MiniseedHeader, MiniseedRecord, Blockette100, Blockette1000, Blockette1001, BlocketteUnknown
from simplemseed.seedcodec import EncodedDataSegment

def mk(b):
    if b[0] == 100:
        return Blockette100(100, b[1], b[2])
    if b[0] == 1000:
        return Blockette1000(1000, b[1], b[2], b[3], b[4])
    if b[0] == 1001:
        return Blockette1001(1001, b[1], b[2], b[3], b[4])
    return BlocketteUnknown(b[0], b[1], b[2])

def hdr(byteorder, enc, exp, length, n):
    h = MiniseedHeader("XX", "ABCD", "00", "BHZ", "2024-02-29T01:02:03Z", n, 20, encoding=enc, byteorder=byteorder)
    h.recordLengthExp = exp
    h.recordLength = length
    return h

def packed(byteorder, enc, exp, length, n, data, bs):
    r = MiniseedRecord(hdr(byteorder, enc, exp, length, n), data, blockettes=[mk(b) for b in bs])
    return bytes(r.pack())

def segment(byteorder, enc, exp, length, n, data, bs):
    r = MiniseedRecord(hdr(byteorder, enc, exp, length, n), EncodedDataSegment(enc, data, n, byteorder == 0), blockettes=[mk(b) for b in bs])
    return bytes(r.pack())

def nodata(byteorder, enc, exp, length, n, data, bs):
    r = MiniseedRecord(hdr(byteorder, enc, exp, length, n), None, blockettes=[mk(b) for b in bs])
    return bytes(r.pack())
"""
PRIM = {1: ("h", 2, "int16"), 3: ("i", 4, "int32"), 4: ("f", 4, "float32"), 5: ("d", 8, "float64")}


def pyb(bl, o):
    return tuple(b[1] if b[0] in "ABC" else (b[1][0], b[1][1], ct.cat(ct.fld("H", o, b[1][0]), b"\0\0", b[1][2])) for b in bl)


def start(word, enc):
    end = 48 + sum(SIZE[c] for c in word) + (0 if "B" in word else 8)
    return end + -end % 64 if enc in (10, 11) else end


def check(ctx):
    ctx.I.unroll = 14
    d = ctx.driver(DRV)
    w = ctx.where(ctx.get("miniseed:MiniseedRecord.pack"))
    for o in "><":
        for exp in (7, 8, 9, 12, 6, 16):
            attempt(ctx, "C21.bytes", f"{o} 2^{exp}", w, lambda: sizes(ctx, d, w, o, exp))
        attempt(ctx, "C21.blockettes", f"{o}", w, lambda: blockettes(ctx, d, w, o))
        attempt(ctx, "C21.any", f"{o}", w, lambda: anysize(ctx, d, w, o))
        attempt(ctx, "C21.arrays", f"{o}", w, lambda: arrays(ctx, d, w, o))
        attempt(ctx, "C21.mismatch", f"{o}", w, lambda: mismatch(ctx, d, w, o))
    for n, k in (("bytes", 400), ("blockettes", 100), ("any", 20), ("arrays", 100), ("mismatch", 20)):
        ctx.floor("C21." + n, k)


def judge(ctx, R, w, lab, r, o, exp, off, data, nd):
    """nd bytes of payload: exactly the record, or the exception"""
    L = 2**exp
    if off + nd > L:
        ctx.never_returns(R, f"{lab}: refused", w, r, MS2ERR)
        return
    if not ctx.completes(R, f"{lab}: packs", w, r):
        return
    g, st = content_of(r.value, r.state), r.state
    F = st.facts
    ctx.eq(R, f"{lab}: length", w, ct.clen(g, F), L, st)
    do = u("H", o, g, 44, F)
    p = u("H", o, g, 46, F)
    k = 0
    while isinstance(p, int) and 48 <= p <= L - 8 and u("H", o, g, p, F) != 1000 and k < 20:
        p, k = u("H", o, g, p + 2, F), k + 1
    if isinstance(p, int) and 48 <= p <= L - 8:
        ctx.eq(R, f"{lab}: declared length exponent", w, u("B", o, g, p + 6, F), exp, st)
    else:
        ctx.ok(R, f"{lab}: has a blockette 1000", w, False if isinstance(p, int) else None)
    if isinstance(do, int) and data is not None and nd:
        ctx.ok(R, f"{lab}: payload inside the record", w, do + nd <= L, f"data offset {do}")
        ctx.eq(R, f"{lab}: payload", w, sl(g, do, nd, F), data, st)


def sizes(ctx, d, w, o, exp):
    R = "C21.bytes"
    bo = 1 if o == ">" else 0
    for enc in (0, 3, 11, 19):
        for word in ("", "A", "CBA"):
            bl = blks(word, enc, bo, exp)
            off = start(word, enc)
            cap = 2**exp - off
            for nd in sorted({0, 1, cap - 64, cap - 1, cap, cap + 1, cap + 7, cap + 8, cap + 9, cap + 64, 2 * cap + 1, 2**exp}):
                if nd < 0:
                    continue
                data = bsym("data", nd)
                for fn in ("packed", "segment"):
                    r = ctx.run(d[fn], [bo, enc, exp, 2**exp, 5, data, pyb(bl, o)])
                    judge(ctx, R, w, f"{o} 2^{exp} encoding {enc} blockettes '{word}' {nd} bytes ({fn})", r, o, exp, off, data, nd)


def blockettes(ctx, d, w, o):
    """blockettes alone fill or overfill the record"""
    R = "C21.blockettes"
    bo = 1 if o == ">" else 0
    for exp, words in ((7, ("ABC", "YU", "YY", "YWU", "YWUV", "WWW", "WWWW", "UUUUU", "VVVVV", "YYY", "AAAAAA", "UUUUUU", "UUUUUUU")), (6, ("", "V", "VV", "VVV", "A", "X", "C", "B")), (8, ("YYYY", "YYYYY", "WWWWWWWWW", "WWWWWWWWWW"))):
        for word in words:
            for enc in (3, 10):
                off = start(word, enc)
                for nd in (0, 8):
                    data = bsym("data", nd)
                    r = ctx.run(d["segment"], [bo, enc, exp, 2**exp, 2, data, pyb(blks(word, enc, bo, exp), o)])
                    judge(ctx, R, w, f"{o} 2^{exp} encoding {enc} blockettes '{word}' {nd} bytes", r, o, exp, off, data, nd)
    for word in ("", "A"):
        r = ctx.run(d["nodata"], [bo, 3, 7, 128, 0, None, pyb(blks(word, 3, bo, 7), o)])
        judge(ctx, R, w, f"{o} no data, blockettes '{word}'", r, o, 7, start(word, 3), None, 0)


def anysize(ctx, d, w, o):
    R = "C21.any"
    bo = 1 if o == ">" else 0
    for exp in (7, 9, 12):
        for enc in (3, 11):
            n = sym("size", "int", 1, 10**6)
            data = sym("data", "bytes", n=n)
            r = ctx.run(d["segment"], [bo, enc, exp, 2**exp, 2, data, ()])
            lab = f"{o} 2^{exp} encoding {enc} any size"
            ctx.only_raises(R, f"{lab}: errors", w, r, MS2ERR)
            if r.alive:
                ctx.eq(R, f"{lab}: length", w, ct.clen(content_of(r.value, r.state), r.state.facts), 2**exp, r.state)
                ctx.holds(R, f"{lab}: returns only what fits", w, cmp_("<=", n, 2**exp - start("", enc)), r.state)
            else:
                ctx.ok(R, f"{lab}: returns", w, False)


def arrays(ctx, d, w, o):
    R = "C21.arrays"
    for enc, (code, size, name) in PRIM.items():
        for exp in (7, 8):
            off = start("", enc)
            cap = (2**exp - off) // size
            for n in (1, cap - 1, cap, cap + 1, cap + 5):
                st = ctx.state()
                xs = [fsym(f"x{k}", code) for k in range(n)]
                data = m_np.new_items(xs, m_np.dtype(name, o), st, None)
                r = ctx.run(d["packed"], [1 if o == ">" else 0, enc, exp, 2**exp, n, data, ()], st=st)
                judge(ctx, R, w, f"{o} 2^{exp} encoding {enc} array of {n}", r, o, exp, off, ct.cat(*[ct.fld(code, o, x) for x in xs]), n * size)


def mismatch(ctx, d, w, o):
    """a length that is not two to the exponent is never packed as if it were"""
    R = "C21.mismatch"
    bo = 1 if o == ">" else 0
    for exp, length in ((9, 4096), (12, 512), (7, 129), (7, 127), (8, 200), (9, 0), (7, 256), (10, 1000)):
        for nd in (0, 8, 60):
            r = ctx.run(d["segment"], [bo, 3, exp, length, 2, bsym("data", nd), ()])
            if r.alive:
                g = content_of(r.value, r.state)
                ctx.eq(R, f"{o} 2^{exp} {length} {nd} bytes: length", w, ct.clen(g, r.state.facts), 2 ** u("B", o, g, 54, r.state.facts), r.state)
            ctx.only_raises(R, f"{o} 2^{exp} {length} {nd} bytes: errors", w, r, MS2ERR)
