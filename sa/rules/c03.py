"""C03: unpackMSeed3Record and readMSeed3Records are interpreted over records whose header
fields and section bytes are all symbolic (CRC checking on by default).  The path condition
of every normal outcome must entail crc == CRC-32C(header with crc zero ++ sections); the
only exception allowed is Miniseed3Exception.  Readers are covered at the first record, in
a stream after another record, behind a filter and while merging."""
from .common import *

DRV = """
from io import BytesIO
from simplemseed.mseed3 import readMSeed3Records, unpackMSeed3Record

def one(c):
    return unpackMSeed3Record(c)

def one_on(c):
    return unpackMSeed3Record(c, check_crc=True)

def one_ba(c):
    return unpackMSeed3Record(bytearray(c))

def one_mv(c):
    return unpackMSeed3Record(memoryview(c))

def one_off(c):
    return unpackMSeed3Record(c, check_crc=False)

def first(c):
    return next(readMSeed3Records(BytesIO(c)))

def first_on(c):
    return next(readMSeed3Records(BytesIO(c), check_crc=True))

def first_off(c):
    return next(readMSeed3Records(BytesIO(c), check_crc=False))

def every(c, matchsid=None, merge=False):
    out = []
    for r in readMSeed3Records(BytesIO(c), matchsid=matchsid, merge=merge):
        out.append(r)
    return out

def aslist(c, merge=False):
    return list(readMSeed3Records(BytesIO(c), merge=merge))
"""


def frec(p, ident=None, nid=3, neh=2, nd=5, **fx):
    """a record with the given section lengths, everything else symbolic"""
    if ident is not None:
        nid = len(ident)
    v = ms3_syms(p, identifierLength=nid, extraHeadersLength=neh, dataLength=nd, **fx)
    rest = ct.cat(ident if ident is not None else bsym(p + "id", nid), bsym(p + "eh", neh), bsym(p + "data", nd))
    return v, rest, ct.cat(ms3_bytes(v), rest)


def crc_ok(v, rest):
    return eqv(v["crc"], crc(ct.cat(ms3_bytes(dict(v, crc=0)), rest)))


def vrec(p=""):
    """a record with symbolic section lengths"""
    v = ms3_syms(p)
    rest = ct.cat(*[sym(p + n, "bytes", n=v[le]) for n, le in (("id", "identifierLength"), ("eh", "extraHeadersLength"), ("data", "dataLength"))])
    return v, rest, ct.cat(ms3_bytes(v), rest)


def check(ctx):
    ctx.I.inline_gens = True
    ctx.I.unroll = 12
    d = ctx.driver(DRV)
    wp = ctx.where(ctx.get("mseed3:unpackMSeed3Record"))
    wr = ctx.where(ctx.get("mseed3:readMSeed3Records"))
    for fn in ("one", "one_on", "one_ba", "one_mv"):
        for tail in (0, 1):
            attempt(ctx, "C03.parser", f"{fn}{'+tail' if tail else ''}", wp, lambda: single(ctx, d, fn, "C03.parser", wp, tail))
    for fn in ("first", "first_on"):
        for tail in (0, 1):
            attempt(ctx, "C03.reader", f"{fn}{'+tail' if tail else ''}", wr, lambda: single(ctx, d, fn, "C03.reader", wr, tail))
    # sections of length zero and larger, every combination
    for nid in (0, 3):
        for neh in (0, 2):
            for nd in (0, 5):
                for fn, rule, w in (("one", "C03.parser", wp), ("first", "C03.reader", wr)):
                    attempt(ctx, rule, f"{fn} lengths {nid},{neh},{nd}", w, lambda: fixed(ctx, d, fn, rule, w, nid, neh, nd))
    for fn in ("every", "aslist"):
        attempt(ctx, "C03.stream", fn, wr, lambda: stream(ctx, d, fn, wr))
    attempt(ctx, "C03.filter", "filtered", wr, lambda: filtered(ctx, d, wr))
    for enc in (1, 3, 4, 5, 10, 11, 19, 0, 100):
        attempt(ctx, "C03.merge", f"encoding {enc}", wr, lambda: merging(ctx, d, wr, enc))
    ctx.floor("C03.parser", 24)
    ctx.floor("C03.reader", 16)
    ctx.floor("C03.stream", 4)
    ctx.floor("C03.filter", 4)
    ctx.floor("C03.merge", 18)


def single(ctx, d, fn, rule, w, tail):
    v, rest, c = vrec()
    if tail:
        c = ct.cat(c, sym("tail", "bytes"))
    r = ctx.run(d[fn], [c])
    lab = fn + ("+tail" if tail else "")
    ctx.only_raises(rule, f"{lab}: error kind", w, r, MS3ERR)
    if not r.alive:
        return ctx.completes(rule, f"{lab}: accepts intact records", w, r)
    ctx.holds(rule, f"{lab}: returned record has a matching CRC", w, crc_ok(v, rest), r.state)


def fixed(ctx, d, fn, rule, w, nid, neh, nd):
    v, rest, c = frec("r.", None, nid, neh, nd)
    r = ctx.run(d[fn], [c])
    lab = f"{fn} lengths {nid},{neh},{nd}"
    if not r.alive:
        return ctx.completes(rule, f"{lab}: accepts intact records", w, r)
    ctx.holds(rule, f"{lab}: returned record has a matching CRC", w, crc_ok(v, rest), r.state)


def stream(ctx, d, fn, w):
    rs = [frec(p) for p in ("a.", "b.", "c.")]
    r = ctx.run(d[fn], [ct.cat(*[x[2] for x in rs])])
    ctx.only_raises("C03.stream", f"{fn}: error kind", w, r, MS3ERR)
    if not r.alive:
        return ctx.completes("C03.stream", f"{fn}: accepts intact records", w, r)
    for (v, rest, c), nm in zip(rs, "abc"):
        ctx.holds("C03.stream", f"{fn}: record {nm} has a matching CRC", w, crc_ok(v, rest), r.state)


A, B = b"FDSN:XX_AAA_00_B_H_Z", b"FDSN:YY_BBB_10_L_H_N"


def filtered(ctx, d, w):
    for pat, want in (("XX_", (0,)), ("YY_", (1,)), ("FDSN", (0, 1)), ("_[BL]_H", (0, 1)), ("Z$", (0,))):
        rs = [frec("a.", A), frec("b.", B)]
        r = ctx.run(d["every"], [ct.cat(*[x[2] for x in rs]), pat])
        ctx.only_raises("C03.filter", f"{pat}: error kind", w, r, MS3ERR)
        if not r.alive:
            ctx.completes("C03.filter", f"{pat}: accepts intact records", w, r)
            continue
        for i in want:
            v, rest, c = rs[i]
            ctx.holds("C03.filter", f"{pat}: record {i} passing the filter has a matching CRC", w, crc_ok(v, rest), r.state)
    # any pattern, any identifier: whenever it is found the CRC was checked
    pat = sym("pat", "str")
    v, rest, c = frec("a.", A)
    st = ctx.state()
    r = ctx.run(d["every"], [c, pat], st=st)
    if r.alive:
        cond = r.state.pc
        ctx.only_raises("C03.filter", "any pattern: error kind", w, r, MS3ERR | {"error", "re.error", "PatternError"})


def merging(ctx, d, w, enc):
    # Steim decoders deliver the requested number of 32-bit samples (C08)
    if enc in (10, 11, 19):
        for q in ("steim1:decodeSteim1", "steim2:decodeSteim2"):
            ctx.I.call_hooks[q] = steim_samples
    try:
        nd = 8
        fx = dict(encoding=enc, numSamples={1: 4, 3: 2, 4: 2, 5: 1}.get(enc, 4))
        rs = [frec(p, A, nd=nd, **fx) for p in ("a.", "b.")]
        lab = f"encoding {enc}"
        v, rest, c = rs[0]
        r = ctx.run(d["aslist"], [c, True])
        if not r.alive:
            ctx.completes("C03.merge", f"{lab}: accepts an intact record", w, r)
        else:
            ctx.holds("C03.merge", f"{lab}: single record has a matching CRC", w, crc_ok(v, rest), r.state)
        r = ctx.run(d["aslist"], [ct.cat(*[x[2] for x in rs]), True])
        if not r.alive:
            return ctx.completes("C03.merge", f"{lab}: accepts intact records", w, r)
        for (v, rest, c), nm in zip(rs, "ab"):
            ctx.holds("C03.merge", f"{lab}: record {nm} has a matching CRC", w, crc_ok(v, rest), r.state)
    finally:
        ctx.I.call_hooks.clear()


def steim_samples(I, fn, args, kwargs, st, node):
    return m_np.new_items([fresh("smp", "int", -2**31, 2**31 - 1) for i in range(4)], m_np.dtype("int32", "="), st, node)
