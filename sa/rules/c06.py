"""C06: decompress / EncodedDataSegment.decode are interpreted over symbolic payload bytes
for each uncompressed encoding and byte order, with a symbolic sample count and a symbolic
sample index (result length, kind, width, and the sample at that index) and with fixed counts
and payload lengths (every sample); encode is interpreted over every container kind (numpy
arrays of both byte orders, array.array, list, tuple) with symbolic samples, fixed and free
lengths, and its bytes, encoding code, count and byte-order flag compared with the format."""
from .common import *

# encoding -> struct code, numpy kind, numpy name, array typecode, value range
PRIM = {1: ("h", "i", "int16", "h"), 3: ("i", "i", "int32", "i"), 4: ("f", "f", "float32", "f"), 5: ("d", "f", "float64", "d")}

DRV = """
from simplemseed.seedcodec import decompress, encode, EncodedDataSegment

def at(enc, b, n, le, j):
    out = decompress(enc, b, n, le)
    return (len(out), out.dtype.kind, out.dtype.itemsize, out[j])

def allof(enc, b, n, le):
    out = decompress(enc, b, n, le)
    return (len(out), out.dtype.kind, out.dtype.itemsize, tuple([out[i] for i in range(n)]))

def seg(enc, b, n, le):
    out = EncodedDataSegment(enc, b, n, le).decode()
    return (len(out), out.dtype.kind, out.dtype.itemsize, tuple([out[i] for i in range(n)]))

def enc(data, e, le):
    s = encode(data, e, le)
    return (s.compressionType, bytes(s.dataBytes), s.numSamples, s.littleEndian)

def encd(data):
    s = encode(data)
    return (s.compressionType, bytes(s.dataBytes), s.numSamples, s.littleEndian)

def loop(data, e, le):
    s = encode(data, e, le)
    out = s.decode()
    return (len(out), tuple([out[i] for i in range(len(out))]))
"""


def samples(e, n, p="x"):
    code = PRIM[e][0]
    return [fsym(f"{p}{i}", code) for i in range(n)]


def rounded(e, x):
    """sample after storage in its own format"""
    return ct.unp(PRIM[e][0], "<", ct.fld(PRIM[e][0], "<", x))


def check(ctx):
    ctx.I.unroll = 220
    d = ctx.driver(DRV)
    wd = ctx.where(ctx.get("seedcodec:decompress"))
    we = ctx.where(ctx.get("seedcodec:encode"))
    ws = ctx.where(ctx.get("seedcodec:EncodedDataSegment.decode"))
    for e in (1, 3, 4, 5):
        for le in (True, False):
            attempt(ctx, "C06.decode", f"encoding {e} {'<>'[not le]} any count", wd, lambda: decany(ctx, d, wd, e, le))
            for n in (1, 2, 3, 4, 5, 6, 7, 8, 17, 64, 200):
                attempt(ctx, "C06.decode", f"encoding {e} {'<>'[not le]} {n}", wd, lambda: decn(ctx, d, "allof", wd, e, le, n))
                attempt(ctx, "C06.segment", f"encoding {e} {'<>'[not le]} {n}", ws, lambda: decn(ctx, d, "seg", ws, e, le, n))
            attempt(ctx, "C06.encode", f"encoding {e} {'<>'[not le]}", we, lambda: enc(ctx, d, we, e, le))
            attempt(ctx, "C06.encode", f"encoding {e} {'<>'[not le]} round trip", we, lambda: loop(ctx, d, we, e, le))
        attempt(ctx, "C06.encode", f"encoding {e} default", we, lambda: encdef(ctx, d, we, e))
    attempt(ctx, "C06.guess", "unsupported arrays", we, lambda: guess(ctx, d, we))
    ctx.floor("C06.decode", 1000)
    ctx.floor("C06.segment", 1000)
    ctx.floor("C06.encode", 1000)
    ctx.floor("C06.guess", 30)


def decany(ctx, d, w, e, le):
    code, kind, name, tc = PRIM[e]
    b, n, j = sym("b", "bytes"), sym("n", "int", 1, None), sym("j", "int", 0, None)
    st = ctx.state()
    st.assume(cmp_("<", j, n))
    r = ctx.run(d["at"], [e, b, n, le, j], st=st)
    lab = f"encoding {e} {'<>'[not le]}"
    if not ctx.completes("C06.decode", f"{lab}: decodes", w, r):
        return
    en = "<" if le else ">"
    got = r.value
    ctx.eq("C06.decode", f"{lab}: sample count", w, got[0], n, r.state)
    ctx.eq("C06.decode", f"{lab}: kind", w, got[1], kind, r.state)
    ctx.eq("C06.decode", f"{lab}: width", w, got[2], ct.SIZE[code], r.state)
    want = mk("elem", mk("frombuffer", b, name, en, n, ty="ndarray"), j, ty="int" if kind == "i" else "real")
    ctx.eq("C06.decode", f"{lab}: any sample", w, got[3], want, r.state)
    ctx.holds("C06.decode", f"{lab}: bytes are enough", w, cmp_("<=", mul(ct.SIZE[code], n), ct.clen(b)), r.state)


def decn(ctx, d, fn, w, e, le, n):
    code, kind, name, tc = PRIM[e]
    en = "<" if le else ">"
    for extra in (0, 1, 7):
        k = ct.SIZE[code] * n + extra
        b = sym("b", "bytes", n=k)
        r = ctx.run(d[fn], [e, b, n, le])
        lab = f"encoding {e} {en} {n} of {k} bytes"
        rule = "C06.decode" if fn == "allof" else "C06.segment"
        if not ctx.returns(rule, f"{lab}: decodes", w, r):
            continue
        got = r.value
        ctx.eq(rule, f"{lab}: count, kind, width", w, got[:3], (n, kind, ct.SIZE[code]), r.state)
        ctx.ok(rule, f"{lab}: {n} samples", w, len(got[3]) == n, "wrong number of samples")
        for i, x in enumerate(got[3][:n]):
            ctx.eq(rule, f"{lab}: sample {i}", w, x, u(code, en, b, i * ct.SIZE[code]), r.state)


def containers(ctx, e, xs, st):
    code, kind, name, tc = PRIM[e]
    return [
        ("tuple", tuple(xs), False), ("list", ctx.I.new_list(list(xs), st), False),
        ("numpy", m_np.new_items(xs, m_np.dtype(name, "<"), st, None), True),
        ("numpy big-endian", m_np.new_items(xs, m_np.dtype(name, ">"), st, None), True),
    ]


def enc(ctx, d, w, e, le):
    code, kind, name, tc = PRIM[e]
    en = "<" if le else ">"
    for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 17, 64, 200):
        xs = samples(e, n)
        st = ctx.state()
        for cn, data, typed in containers(ctx, e, xs, st):
            for given in (e, None, -1) if typed else (e,):
                r = ctx.run(d["enc"], [data, given, le], st=st.copy())
                lab = f"encoding {e} {en} {cn} of {n} given {given}"
                if not ctx.returns("C06.encode", f"{lab}: encodes", w, r):
                    continue
                got = r.value
                ctx.eq("C06.encode", f"{lab}: bytes", w, got[1], ct.cat(*[ct.fld(code, en, x) for x in xs]) if n else b"", r.state)
                ctx.eq("C06.encode", f"{lab}: described as", w, (got[0], got[2], got[3]), (e, n, le), r.state)
    for cn, data in (("array", sym("pa", "pyarr", typecode=tc, itemsize=ct.SIZE[code])), ("numpy", sym("na", "ndarray", dtype=name, endian="<", ndim=1)), ("numpy big-endian", sym("nb", "ndarray", dtype=name, endian=">", ndim=1))):
        for given in (e, None, -1):
            r = ctx.run(d["enc"], [data, given, le])
            lab = f"encoding {e} {en} {cn} of any length given {given}"
            if not ctx.returns("C06.encode", f"{lab}: encodes", w, r):
                continue
            k = mk("alen", data, ty="int")
            got = r.value
            ctx.eq("C06.encode", f"{lab}: bytes", w, got[1], mk("packarr", en, code, k, data, ty="bytes"), r.state)
            ctx.eq("C06.encode", f"{lab}: described as", w, (got[0], got[2], got[3]), (e, k, le), r.state)


def loop(ctx, d, w, e, le):
    code, kind, name, tc = PRIM[e]
    xs = samples(e, 3)
    st = ctx.state()
    for cn, data, typed in containers(ctx, e, xs, st):
        r = ctx.run(d["loop"], [data, e, le], st=st.copy())
        lab = f"encoding {e} {'<>'[not le]} {cn} round trip"
        if ctx.returns("C06.encode", f"{lab}: works", w, r):
            ctx.eq("C06.encode", f"{lab}: count", w, r.value[0], 3, r.state)
            for i, x in enumerate(xs):
                ctx.eq("C06.encode", f"{lab}: sample {i}", w, r.value[1][i], rounded(e, x), r.state)


def encdef(ctx, d, w, e):
    code, kind, name, tc = PRIM[e]
    xs = samples(e, 2)
    st = ctx.state()
    data = m_np.new_items(xs, m_np.dtype(name, "<"), st, None)
    r = ctx.run(d["encd"], [data], st=st)
    if ctx.returns("C06.encode", f"encoding {e} default: encodes", w, r):
        ctx.eq("C06.encode", f"encoding {e} default: little-endian bytes and description", w, r.value, (e, ct.cat(*[ct.fld(code, "<", x) for x in xs]), 2, True), r.state)


def guess(ctx, d, w):
    for name in ("int8", "uint8", "uint16", "uint32", "int64", "uint64", "bool", "complex128"):
        if name not in m_np.DT:
            continue
        st = ctx.state()
        data = m_np.new_items([sym("x", "int", 0, 1)], m_np.dtype(name, "<"), st, None)
        r = ctx.run(d["enc"], [data, None, True], st=st)
        ctx.never_returns("C06.guess", f"numpy {name}: no encoding of that type", w, r, UNSUP)
    for tc, sz in (("b", 1), ("B", 1), ("H", 2), ("I", 4), ("q", 8), ("l", 8), ("L", 8)):
        r = ctx.run(d["enc"], [sym("pa", "pyarr", typecode=tc, itemsize=sz), None, True])
        ctx.never_returns("C06.guess", f"array {tc}: no encoding of that type", w, r, UNSUP)
    r = ctx.run(d["enc"], [(1, 2), None, True])
    ctx.never_returns("C06.guess", "tuple: encoding unknown", w, r, UNSUP)
    for e in (0, 2, 10, 11, 16, 19, 30, 33, 100):
        r = ctx.run(d["enc"], [(1, 2), e, True])
        ctx.never_returns("C06.guess", f"encoding {e} is not uncompressed", w, r, UNSUP)
        for lab, data in (("numpy", sym("na", "ndarray", dtype="int32", endian="<", ndim=1)), ("array", sym("pa", "pyarr", typecode="f", itemsize=4))):
            r = ctx.run(d["enc"], [data, e, True])
            ctx.never_returns("C06.guess", f"encoding {e} is not uncompressed ({lab})", w, r, UNSUP)
