"""C07: reading is interpreted over records with symbolic payload bytes for every encoding and
declared byte order, writing over every kind of data container in both byte orders with
symbolic samples; the payload bytes of packed records, the byte order declared in the
Blockette 1000, and the samples obtained by reading packed records back are compared with
the samples in the byte order of the format."""
import itertools
from .common import *
from .c06 import PRIM, samples, rounded
from .c03 import frec, A

DRV = """
from io import BytesIO
from simplemseed.mseed3 import MSeed3Header, MSeed3Record, unpackMSeed3Record, readMSeed3Records
from simplemseed.miniseed import MiniseedHeader, MiniseedRecord, readMiniseed2Records, unpackMiniseedRecord
from simplemseed.seedcodec import EncodedDataSegment, encode
from simplemseed.steim1 import encodeSteim1
from simplemseed.steim2 import encodeSteim2

def list_of(out):
    return tuple([out[i] for i in range(len(out))])

def read3(b):
    return list_of(unpackMSeed3Record(b, check_crc=False).decompress())

def file3(b):
    for r in readMSeed3Records(BytesIO(b), check_crc=False):
        return list_of(r.decompress())

def merge3(b):
    for r in readMSeed3Records(BytesIO(b), check_crc=False, merge=True):
        return list_of(r.decompress())

def read2(b):
    return list_of(unpackMiniseedRecord(b).decompress())

def file2(b):
    for r in readMiniseed2Records(BytesIO(b)):
        return list_of(r.decompress())

def pack3(enc, data):
    h = MSeed3Header()
    h.encoding = enc
    return MSeed3Record(h, "FDSN:XX_AAA_00_B_H_Z", data).pack()

def loop3(enc, data):
    return read3(bytes(pack3(enc, data)))

def pack3seg(enc, data, le):
    h = MSeed3Header()
    return MSeed3Record(h, "FDSN:XX_AAA_00_B_H_Z", encode(data, enc, le)).pack()

def pack3st(enc, data, n):
    h = MSeed3Header()
    h.encoding = enc
    h.numSamples = n
    return MSeed3Record(h, "FDSN:XX_AAA_00_B_H_Z", data).pack()

def pack3st1(data):
    return pack3st(10, encodeSteim1(data), len(data))

def pack3st2(data):
    return pack3st(11, encodeSteim2(data), len(data))

def seg3st1(data):
    h = MSeed3Header()
    return MSeed3Record(h, "FDSN:XX_AAA_00_B_H_Z", EncodedDataSegment(10, encodeSteim1(data), len(data), False)).pack()

def seg3st2(data):
    h = MSeed3Header()
    return MSeed3Record(h, "FDSN:XX_AAA_00_B_H_Z", EncodedDataSegment(11, encodeSteim2(data), len(data), False)).pack()

def make2(enc, data):
    h = MiniseedHeader("XX", "ABC", "00", "BHZ", "2024-01-01T00:00:00Z", 0, 20.0, encoding=enc)
    return MiniseedRecord(h, data)

def make2le(enc, data):
    h = MiniseedHeader("XX", "ABC", "00", "BHZ", "2024-01-01T00:00:00Z", 0, 20.0, encoding=enc, byteorder=0)
    return MiniseedRecord(h, data)

def pack2(enc, data):
    return make2(enc, data).pack()

def pack2le(enc, data):
    return make2le(enc, data).pack()

def loop2(enc, data):
    return read2(bytes(make2(enc, data).pack()))

def loop2le(enc, data):
    return read2(bytes(make2le(enc, data).pack()))

def pack2seg(enc, data, le):
    return make2(-1, encode(data, enc, le)).pack()

def loop2seg(enc, data, le):
    return read2(bytes(pack2seg(enc, data, le)))

def pack2st(enc, data, n):
    h = MiniseedHeader("XX", "ABC", "00", "BHZ", "2024-01-01T00:00:00Z", n, 20.0, encoding=enc)
    return MiniseedRecord(h, data).pack()

def pack2st1(data):
    return pack2st(10, encodeSteim1(data), len(data))

def pack2st2(data):
    return pack2st(11, encodeSteim2(data), len(data))

def seg2st1(data):
    return make2(-1, EncodedDataSegment(10, encodeSteim1(data), len(data), False)).pack()

def seg2st2(data):
    return make2(-1, EncodedDataSegment(11, encodeSteim2(data), len(data), False)).pack()

def repack2(b):
    return unpackMiniseedRecord(b).pack()

def repack2read(b):
    r = unpackMiniseedRecord(b)
    a = list_of(r.decompress())
    return a, list_of(unpackMiniseedRecord(bytes(r.pack())).decompress())

def repack2both(b):
    r = unpackMiniseedRecord(b)
    r.decompress()
    return r.pack()
"""


def check(ctx):
    ctx.I.inline_gens = True
    ctx.I.unroll = 12
    d = ctx.driver(DRV)
    w3r = ctx.where(ctx.get("mseed3:MSeed3Record.decompress"))
    w3w = ctx.where(ctx.get("mseed3:MSeed3Record.pack"))
    w2r = ctx.where(ctx.get("miniseed:MiniseedRecord.decompress"))
    w2w = ctx.where(ctx.get("miniseed:MiniseedRecord.pack"))
    for e, n in itertools.product((1, 3, 4, 5), (1, 2, 3, 8)):
        for fn in ("read3", "file3", "merge3"):
            attempt(ctx, "C07.read3", f"{fn} encoding {e}, {n}", w3r, lambda: read3(ctx, d, fn, w3r, e, n))
        attempt(ctx, "C07.write3", f"encoding {e}, {n}", w3w, lambda: write3(ctx, d, w3w, e, n))
        for ho in "<>":
            for bo in (0, 1):
                attempt(ctx, "C07.read2", f"encoding {e}, {n} header {ho} payload {bo}", w2r, lambda: read2(ctx, d, w2r, e, ho, bo, n))
        attempt(ctx, "C07.write2", f"encoding {e}, {n}", w2w, lambda: write2(ctx, d, w2w, e, n))
        for ho in "<>":
            for bo in (0, 1):
                attempt(ctx, "C07.write2", f"rewritten encoding {e}, {n} header {ho} payload {bo}", w2w, lambda: rewrite2(ctx, d, w2w, e, ho, bo, n))
    for e in (10, 11):
        attempt(ctx, "C07.read3", f"encoding {e}", w3r, lambda: steim3(ctx, d, w3r, e))
        attempt(ctx, "C07.read2", f"encoding {e}", w2r, lambda: steim2(ctx, d, w2r, e))
        attempt(ctx, "C07.write3", f"encoding {e}", w3w, lambda: wsteim(ctx, d, w3w, w2w, e))
    ctx.floor("C07.read3", 120)
    ctx.floor("C07.write3", 300)
    ctx.floor("C07.read2", 200)
    ctx.floor("C07.write2", 500)


def cmpsamples(ctx, rule, lab, w, got, want, st):
    ctx.ok(rule, f"{lab}: {len(want)} samples", w, len(got) == len(want), f"{len(got)} samples")
    for i, (g, x) in enumerate(zip(got, want)):
        ctx.eq(rule, f"{lab}: sample {i}", w, g, x, st)


def read3(ctx, d, fn, w, e, n=3):
    code = PRIM[e][0]
    sz = ct.SIZE[code]
    v, rest, c = frec("r.", A, neh=0, nd=n * sz, encoding=e, numSamples=n)
    r = ctx.run(d[fn], [c])
    lab = f"{fn} encoding {e}, {n}"
    if ctx.completes("C07.read3", f"{lab}: decodes", w, r):
        cmpsamples(ctx, "C07.read3", lab, w, r.value, [u(code, "<", c, 40 + len(A) + i * sz) for i in range(n)], r.state)


def frame(e, p="w"):
    """one Steim frame holding word 3 = one 32-bit / two 15-bit / ... differences, all else symbolic"""
    ws = [sym(f"{p}{i}", "int", 0, 2**32 - 1) for i in range(16)]
    if e == 10:
        nib = 3 << 24   # word 3 holds one 32-bit difference
        w3 = ws[3]
    else:
        nib = 2 << 24   # word 3: nibble 2, sub-code 1: one 30-bit difference
        w3 = add(1 << 30, sym(f"{p}3d", "int", 0, 2**30 - 1))
    return ct.cat(*[ct.fld("I", ">", nib if i == 0 else w3 if i == 3 else 0 if i > 3 else ws[i]) for i in range(16)]), ws


def steim3(ctx, d, w, e):
    p, ws = frame(e)
    v = ms3_syms("r.", identifierLength=len(A), extraHeadersLength=0, dataLength=64, encoding=e, numSamples=1)
    c = ct.cat(ms3_bytes(v), A, p)
    for fn in ("read3", "file3", "merge3"):
        r = ctx.run(d[fn], [c])
        lab = f"{fn} encoding {e}"
        if ctx.completes("C07.read3", f"{lab}: decodes", w, r):
            cmpsamples(ctx, "C07.read3", lab, w, r.value, [u("i", ">", c, 40 + len(A) + 4)], r.state)


def read2(ctx, d, w, e, ho, bo, n=3):
    code = PRIM[e][0]
    sz = ct.SIZE[code]
    v, data, c = ms2_rec("r.", ho, 7, 64, enc=e, bo=bo, numSamples=n)
    for fn in ("read2", "file2"):
        r = ctx.run(d[fn], [c])
        lab = f"{fn} encoding {e}, {n} header {ho} payload {bo}"
        if ctx.completes("C07.read2", f"{lab}: decodes", w, r):
            cmpsamples(ctx, "C07.read2", lab, w, r.value, [u(code, ">" if bo == 1 else "<", c, 64 + i * sz) for i in range(n)], r.state)


def steim2(ctx, d, w, e):
    p, ws = frame(e)
    for ho in "<>":
        v, data, c = ms2_rec("r.", ho, 7, 64, enc=e, bo=1, numSamples=1)
        c = ct.cat(sl(c, 0, 64), p)
        for fn in ("read2", "file2"):
            r = ctx.run(d[fn], [c])
            lab = f"{fn} encoding {e} header {ho}"
            if ctx.completes("C07.read2", f"{lab}: decodes", w, r):
                cmpsamples(ctx, "C07.read2", lab, w, r.value, [u("i", ">", c, 64 + 4)], r.state)


def conts(ctx, e, n, st):
    """data containers holding the same samples: (name, value, byte order of its bytes or None)"""
    code, kind, name, tc = PRIM[e]
    xs = samples(e, n)
    out = [("list", ctx.I.new_list(list(xs), st)), ("numpy", m_np.new_items(xs, m_np.dtype(name, "<"), st, None)),
           ("numpy big-endian", m_np.new_items(xs, m_np.dtype(name, ">"), st, None)), ("numpy native", m_np.new_items(xs, m_np.dtype(name, "="), st, None))]
    return xs, out


def payload(e, en, xs):
    return ct.cat(*[ct.fld(PRIM[e][0], en, x) for x in xs])


def write3(ctx, d, w, e, n=3):
    code, kind, name, tc = PRIM[e]
    sz = ct.SIZE[code]
    st = ctx.state()
    xs, cs = conts(ctx, e, n, st)
    off = 40 + 20
    for cn, data in cs:
        lab = f"encoding {e}, {n} {cn}"
        r = ctx.run(d["pack3"], [e, data], st=st.copy())
        if ctx.returns("C07.write3", f"{lab}: packs", w, r):
            c = content_of(r.value, r.state)
            ctx.eq("C07.write3", f"{lab}: payload little-endian", w, sl(c, off, n * sz, r.state.facts), payload(e, "<", xs), r.state)
            ctx.eq("C07.write3", f"{lab}: size", w, ct.clen(c, r.state.facts), off + n * sz, r.state)
        r = ctx.run(d["loop3"], [e, data], st=st.copy())
        if ctx.returns("C07.write3", f"{lab}: rereads", w, r):
            cmpsamples(ctx, "C07.write3", f"{lab} reread", w, r.value, [rounded(e, x) for x in xs], r.state)
    pa = sym("pa", "pyarr", typecode=tc, itemsize=sz)
    for lab, data in ((f"encoding {e} array", pa), (f"encoding {e} numpy any length", sym("na", "ndarray", dtype=name, endian="<", ndim=1)), (f"encoding {e} numpy big-endian any length", sym("nb", "ndarray", dtype=name, endian=">", ndim=1))):
        r = ctx.run(d["pack3"], [e, data])
        if ctx.completes("C07.write3", f"{lab}: packs", w, r):
            c = content_of(r.value, r.state)
            k = mk("alen", data, ty="int")
            ctx.eq("C07.write3", f"{lab}: payload little-endian", w, tail_from(c, off, r.state.facts), mk("packarr", "<", code, k, data, ty="bytes"), r.state)
    # an encoded segment is little-endian or refused
    for le in (True, False):
        r = ctx.run(d["pack3seg"], [e, cs[1][1], le], st=st.copy())
        lab = f"encoding {e}, {n} segment {'<>'[not le]}"
        if not le and not r.alive:
            ctx.never_returns("C07.write3", f"{lab}: refused", w, r, MS3ERR)
            continue
        if ctx.completes("C07.write3", f"{lab}: packs", w, r):
            c = content_of(r.value, r.state)
            ctx.eq("C07.write3", f"{lab}: payload little-endian", w, sl(c, off, n * sz, r.state.facts), payload(e, "<", xs), r.state)


def b1000_of(c, st):
    """byte order and data offset declared in a packed record (created with big-endian header and one blockette)"""
    F = st.facts
    return u("B", ">", c, 48 + 5, F), u("H", ">", c, 44, F)


def write2(ctx, d, w, e, n=3):
    code, kind, name, tc = PRIM[e]
    sz = ct.SIZE[code]
    st = ctx.state()
    xs, cs = conts(ctx, e, n, st)
    for pk, lp, hb in (("pack2", "loop2", ">"), ("pack2le", "loop2le", "<")):
        for cn, data in cs:
            lab = f"encoding {e}, {n} {cn} {hb} header"
            r = ctx.run(d[pk], [e, data], st=st.copy())
            if ctx.returns("C07.write2", f"{lab}: packs", w, r):
                written(ctx, lab, w, r, e, xs, hb)
            r = ctx.run(d[lp], [e, data], st=st.copy())
            if ctx.returns("C07.write2", f"{lab}: rereads", w, r):
                cmpsamples(ctx, "C07.write2", f"{lab} reread", w, r.value, [rounded(e, x) for x in xs], r.state)
    for le in (True, False):
        lab = f"encoding {e}, {n} segment {'<>'[not le]}"
        r = ctx.run(d["pack2seg"], [e, cs[1][1], le], st=st.copy())
        if ctx.returns("C07.write2", f"{lab}: packs", w, r):
            written(ctx, lab, w, r, e, xs, ">")
        r = ctx.run(d["loop2seg"], [e, cs[1][1], le], st=st.copy())
        if ctx.returns("C07.write2", f"{lab}: rereads", w, r):
            cmpsamples(ctx, "C07.write2", f"{lab} reread", w, r.value, [rounded(e, x) for x in xs], r.state)


def rewrite2(ctx, d, w, e, ho, bo, n=3):
    """a record read and written again, before and after its samples were looked at"""
    code = PRIM[e][0]
    sz = ct.SIZE[code]
    v, data, c = ms2_rec("r.", ho, 7, 64, enc=e, bo=bo, numSamples=n, year=2024, yday=100, hour=1, minute=2, second=3, tenthMilli=4567)
    for fn in ("repack2", "repack2both"):
        lab = f"{fn} encoding {e}, {n} header {ho} payload {bo}"
        r = ctx.run(d[fn], [c])
        if ctx.completes("C07.write2", f"{lab}: packs", w, r):
            o = content_of(r.value, r.state)
            F = r.state.facts
            off = u("H", ho, o, 44, F)
            if isinstance(off, int):
                ctx.eq("C07.write2", f"{lab}: declares its order", w, u("B", ho, o, 53, F), bo, r.state)
                for i in range(n):
                    ctx.eq("C07.write2", f"{lab}: sample {i}", w, u(code, "<>"[bo], o, off + i * sz, F), u(code, "<>"[bo], c, 64 + i * sz), r.state)
    r = ctx.run(d["repack2read"], [c])
    lab = f"encoding {e}, {n} header {ho} payload {bo} read, packed, read"
    if ctx.completes("C07.write2", f"{lab}: works", w, r):
        cmpsamples(ctx, "C07.write2", lab, w, r.value[1], list(r.value[0]), r.state)


def written(ctx, lab, w, r, e, xs, hb):
    """the payload is in the order the record declares"""
    code = PRIM[e][0]
    sz = ct.SIZE[code]
    c = content_of(r.value, r.state)
    F = r.state.facts
    off = u("H", hb, c, 44, F)
    bo = u("B", hb, c, 53, F)
    if not isinstance(bo, int) or not isinstance(off, int):
        return ctx.ok("C07.write2", f"{lab}: declared byte order", w, None, f"byte order {show(bo)[:80]} offset {show(off)[:80]}")
    ctx.ok("C07.write2", f"{lab}: declared byte order is 0 or 1", w, bo in (0, 1), f"byte order {bo}")
    ctx.eq("C07.write2", f"{lab}: payload in declared order", w, sl(c, off, len(xs) * sz, F), payload(e, "<>"[bo == 1], xs), r.state)


def wsteim(ctx, d, w3, w2, e):
    """Steim payloads go into both formats as encoded, declared big-endian in miniSEED 2"""
    x = [100, 101, 103, 90, 1000, 5]
    k = {10: "st1", 11: "st2"}[e]
    un = ctx.I.unroll
    ctx.I.unroll = 40
    try:
        for how in ("pack", "seg"):
            lab = f"encoding {e} {'segment' if how == 'seg' else 'bytes'}"
            st = ctx.state()
            r = ctx.run(d[f"{how}3{k}"], [ctx.I.new_list(list(x), st)], st=st)
            if ctx.returns("C07.write3", f"{lab}: packs", w3, r):
                c = content_of(r.value, r.state)
                ctx.eq("C07.write3", f"{lab}: first sample big-endian", w3, u("i", ">", c, 60 + 4, r.state.facts), 100, r.state)
                ctx.eq("C07.write3", f"{lab}: last sample big-endian", w3, u("i", ">", c, 60 + 8, r.state.facts), 5, r.state)
            st = ctx.state()
            r = ctx.run(d[f"{how}2{k}"], [ctx.I.new_list(list(x), st)], st=st)
            if ctx.returns("C07.write2", f"{lab}: packs", w2, r):
                c = content_of(r.value, r.state)
                F = r.state.facts
                ctx.eq("C07.write2", f"{lab}: declares big-endian", w2, u("B", ">", c, 53, F), 1, r.state)
                off = u("H", ">", c, 44, F)
                if isinstance(off, int):
                    ctx.eq("C07.write2", f"{lab}: first sample big-endian", w2, u("i", ">", c, off + 4, F), 100, r.state)
                    ctx.eq("C07.write2", f"{lab}: last sample big-endian", w2, u("i", ">", c, off + 8, F), 5, r.state)
    finally:
        ctx.I.unroll = un
