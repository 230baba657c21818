"""C22: reading miniSEED 2.  Records are assembled from symbolic field values in either byte
order with blockettes 1000, 100, 1001 and unknown ones in every order and the readers are
interpreted on them: every fixed header field and blockette field must come back through the
order the year field was written in, independent of what blockette 1000 says about the data;
blockette 1000's values decide encoding, data byte order and record length, blockette 100 the
rate and blockette 1001 the microseconds.  Headers whose year is plausible in neither order
must be refused."""
import itertools
import struct
from .common import *
from .c14 import inst
from ..m_time import dt

DRV = """
import io
from simplemseed.miniseed import unpackMiniseedRecord, unpackFixedHeaderGuessByteOrder, readMiniseed2Records

def hdr(c):
    h = unpackFixedHeaderGuessByteOrder(c)
    return (h.byteorder, h.starttime, h.numSamples, h.sampRateFactor, h.sampRateMult, h.actFlag, h.ioFlag, h.qualFlag, h.numBlockettes, h.timeCorr, h.dataOffset, h.blocketteOffset)

def hrec(r):
    h = r.header
    return (h.encoding, h.byteorder, h.recordLengthExp, h.recordLength, h.sampleRate, h.starttime, r.starttime(), h.numSamples, h.timeCorr, bytes(r.encodedDataBytes), [desc(b) for b in r.blockettes])

def desc(b):
    if b.blocketteNum == 100:
        return (100, b.nextOffset, b.sampleRate)
    if b.blocketteNum == 1000:
        return (1000, b.nextOffset, b.encoding, b.byteorder, b.recLength)
    if b.blocketteNum == 1001:
        return (1001, b.nextOffset, b.timeQuality, b.microseconds, b.frameCount)
    return (b.blocketteNum, b.nextOffset)

def rec(c):
    return hrec(unpackMiniseedRecord(c))

def recs(c):
    return [hrec(r) for r in readMiniseed2Records(io.BytesIO(c))]

def samples(c):
    return [x for x in unpackMiniseedRecord(c).decompress()]

def period(c):
    r = unpackMiniseedRecord(c)
    return (r.starttime(), r.next_starttime(), r.endtime())
"""
SIZE = {"A": 12, "B": 8, "C": 8, "U": 12}
NUM = {"A": 100, "B": 1000, "C": 1001, "U": 500}
HF = ("numSamples", "sampRateFactor", "sampRateMult", "actFlag", "ioFlag", "qualFlag", "numBlockettes", "timeCorr", "dataOffset", "blocketteOffset")


def us_of(v):
    return inst(v["year"], v["yday"], v["hour"], v["minute"], v["second"], mul(v["tenthMilli"], 100))


def record(p, o, word, enc, bo, exp, doff, vals, **fx):
    """bytes of a record whose blockettes are word, written in order o"""
    off, out = 48, []
    for i, ch in enumerate(word):
        nxt = off + SIZE[ch] if i < len(word) - 1 else 0
        x = vals[i]
        out.append({"A": lambda: b100(o, nxt, *x), "B": lambda: b1000(o, nxt, enc, bo, exp), "C": lambda: b1001(o, nxt, *x), "U": lambda: bunk(o, 500, nxt, *x)}[ch]())
        off += SIZE[ch]
    v = ms2_syms(p, **{**dict(numBlockettes=len(word), blocketteOffset=48 if word else 0, dataOffset=doff), **fx})
    n = 2**exp if "B" in word else 512
    data = fx_data(p, n - doff)
    return v, data, ct.cat(ms2_bytes(v, o), *out, bsym(p + "pad", doff - off), data)


def fx_data(p, n):
    return bsym(p + "data", n)


def values(p, word):
    out = []
    for k, ch in enumerate(word):
        out.append({"A": (sym(f"{p}rate{k}", "real", Fraction(1, 100), 1000),), "B": (), "U": (bsym(f"{p}body{k}", 8),),
                    "C": (sym(f"{p}tq{k}", "int", 0, 255), sym(f"{p}us{k}", "int", 0, 99), sym(f"{p}fc{k}", "int", 0, 255))}[ch])
    return out


def f32(x):
    return ct.unp("f", "<", ct.fld("f", "<", x))


def check(ctx):
    ctx.I.inline_gens = True
    ctx.I.unroll = 14
    d = ctx.driver(DRV)
    wg = ctx.where(ctx.get("miniseed:unpackFixedHeaderGuessByteOrder"))
    wr = ctx.where(ctx.get("miniseed:readMiniseed2Records"))
    words = [x for n in (1, 2, 3, 4) for x in ("".join(y) for y in itertools.permutations("ABCU", n)) if "B" in x] + ["A", "C", "AC", "CA"]
    for o in "><":
        attempt(ctx, "C22.order", f"{o} symbolic", wg, lambda: order(ctx, d, wg, o))
        attempt(ctx, "C22.order", f"{o} years", wg, lambda: years(ctx, d, wg, o))
        for i in range(0, len(words), 5):
            ws = words[i:i + 5]
            attempt(ctx, "C22.blockettes", f"{o} {ws[0]} … {ws[-1]}", wr, lambda: [blockettes(ctx, d, wr, o, x) for x in ws])
        attempt(ctx, "C22.length", o, wr, lambda: lengths(ctx, d, wr, o))
        attempt(ctx, "C22.samples", o, wr, lambda: samples(ctx, d, wr, o))
        attempt(ctx, "C22.rate", o, wr, lambda: rates(ctx, d, wr, o))
        attempt(ctx, "C22.micro", o, wr, lambda: micros(ctx, d, wr, o))
        for o2 in "><":
            attempt(ctx, "C22.mixed", o + o2, wr, lambda: mixed(ctx, d, wr, o, o2))
    attempt(ctx, "C22.neither", "symbolic", wg, lambda: neither(ctx, d, wg))
    attempt(ctx, "C22.neither", "years", wg, lambda: badyears(ctx, d, wg, wr))
    for n, k in (("order", 700), ("blockettes", 1000), ("length", 60), ("samples", 80), ("rate", 80), ("micro", 80), ("mixed", 100), ("neither", 100)):
        ctx.floor("C22." + n, k)


def hdr_ok(ctx, R, w, lab, r, o, v):
    if not ctx.returns(R, f"{lab}: returns", w, r):
        return
    st, g = r.state, r.value
    ctx.eq(R, f"{lab}: byte order", w, g[0], 1 if o == ">" else 0, st)
    ctx.eq(R, f"{lab}: start", w, g[1], dt(us_of(v), 0), st)
    for k, n in enumerate(HF):
        ctx.eq(R, f"{lab}: {n}", w, g[2 + k], v[n], st)


def order(ctx, d, w, o):
    v = ms2_syms()
    hdr_ok(ctx, "C22.order", w, f"{o} header", ctx.run(d["hdr"], [ms2_bytes(v, o)]), o, v)
    for lab, c in ms2_corners():
        v = dict(c, numBlockettes=1, blocketteOffset=48, dataOffset=64)
        if v["yday"] == 366:
            v["year"] = 2024
        for nb, bof, dof in ((1, 48, 64), (0, 0, 0), (3, 56, 128), (255, 48, 513)):
            v = dict(v, numBlockettes=nb, blocketteOffset=bof, dataOffset=dof)
            hdr_ok(ctx, "C22.order", w, f"{o} {lab} {nb} {bof} {dof}", ctx.run(d["hdr"], [ms2_bytes(v, o)]), o, v)


def years(ctx, d, w, o):
    """every year from 1970 to 2054 is written in bytes that only one order explains"""
    for y in list(range(1970, 2055)) + [1900, 1960, 2060]:
        for yday in (1, 7, 8, 258, 300, 365):
            v = dict(TYP2, year=y, yday=yday, numBlockettes=1, blocketteOffset=48, dataOffset=64)
            r = ctx.run(d["hdr"], [ms2_bytes(v, o)])
            R = "C22.order"
            if ctx.returns(R, f"{o} {y},{yday}: returns", w, r):
                ctx.eq(R, f"{o} {y},{yday}: byte order", w, r.value[0], 1 if o == ">" else 0, r.state)
                ctx.eq(R, f"{o} {y},{yday}: start", w, r.value[1], dt(us_of(v), 0), r.state)
    for y in (2055, 2056):
        # either order makes a year of these bytes: never the other one's reading
        v = dict(TYP2, year=y, numBlockettes=1, blocketteOffset=48, dataOffset=64)
        r = ctx.run(d["hdr"], [ms2_bytes(v, o)])
        ctx.only_raises("C22.order", f"{o} {y}: errors", w, r, MS2ERR)
        if r.alive:
            ctx.eq("C22.order", f"{o} {y}: start", w, r.value[1], dt(us_of(v), 0), r.state)


def neither(ctx, d, w):
    """year bytes that no order makes a year of this age"""
    R = "C22.neither"
    for la, ha in ((0, 6), (9, 255)):
        for lb, hb in ((0, 6), (9, 255)):
            a, b = sym("y0", "int", la, ha), sym("y1", "int", lb, hb)
            v = ms2_syms()
            c = ms2_bytes(v, ">")
            c = ct.cat(sl(c, 0, 20, NOF), ct.fld("B", ">", a), ct.fld("B", ">", b), sl(c, 22, 26, NOF))
            r = ctx.run(d["hdr"], [c])
            ctx.never_returns(R, f"year bytes {la}-{ha} {lb}-{hb}", w, r, MS2ERR)


def badyears(ctx, d, w, wr):
    R = "C22.neither"
    ys = [0, 1, 5, 6, 9, 10, 100, 1500, 1535, 2304, 2560, 3000, 9999, 20000, 0x0606, 0x0909, 0xFFFF, 0x2020, 0x3030, 0x3230, 0x0106, 0x0100]
    for o in "><":
        for y in ys:
            v = dict(TYP2, year=y, numBlockettes=1, blocketteOffset=48, dataOffset=64)
            ctx.never_returns(R, f"{o} year {y}", w, ctx.run(d["hdr"], [ms2_bytes(v, o)]), MS2ERR)
            c = ct.cat(ms2_bytes(v, o), b1000(o, 0, 3, 1, 7), bytes(72))
            ctx.never_returns(R, f"{o} record of year {y}", wr, ctx.run(d["rec"], [c]), MS2ERR)
            good = ct.cat(ms2_bytes(dict(v, year=2024), o), b1000(o, 0, 3, 1, 7), bytes(72))
            ctx.never_returns(R, f"{o} year {y} after a good record", wr, ctx.run(d["recs"], [ct.cat(good, c)]), MS2ERR)


def rec_ok(ctx, R, w, lab, g, st, o, word, vals, v, data, enc, bo, exp):
    hasb = "B" in word
    want = [("encoding", enc if hasb else -1), ("data byte order", bo if hasb else (1 if o == ">" else 0)), ("length exponent", exp if hasb else 9), ("length", 2**exp if hasb else 512)]
    for k, (n, x) in enumerate(want):
        ctx.eq(R, f"{lab}: {n}", w, g[k], x, st)
    rate = next((vals[k][0] for k in range(len(word) - 1, -1, -1) if word[k] == "A"), None)
    if rate is not None:
        ctx.eq(R, f"{lab}: rate is that of blockette 100", w, g[4], f32(rate), st)
    else:
        f, m = v["sampRateFactor"], v["sampRateMult"]
        if isinstance(f, int) and isinstance(m, int):
            x = Fraction(1) * (f if f > 0 else Fraction(-1, f) if f else 0) * (m if m > 0 else Fraction(-1, m) if m else 0)
            ctx.eq(R, f"{lab}: rate is that of the factor and multiplier", w, g[4], x, st)
    us = sum_([vals[k][1] for k in range(len(word)) if word[k] == "C"])
    t = dt(add(us_of(v), us), 0)
    ctx.eq(R, f"{lab}: header start time", w, g[5], t, st)
    ctx.eq(R, f"{lab}: start time", w, g[6], t, st)
    ctx.eq(R, f"{lab}: samples", w, g[7], v["numSamples"], st)
    ctx.eq(R, f"{lab}: time correction", w, g[8], v["timeCorr"], st)
    ctx.eq(R, f"{lab}: payload", w, content_of(g[9], st), data, st)
    items = st.heap[g[10]].get("items") if g[10] in st.heap else None
    if not isinstance(items, tuple):
        return ctx.ok(R, f"{lab}: blockettes", w, None)
    ctx.eq(R, f"{lab}: number of blockettes", w, len(items), len(word), st)
    off = 48
    for k, (b, ch) in enumerate(zip(items, word)):
        nxt = off + SIZE[ch] if k < len(word) - 1 else 0
        x = {"A": lambda: (f32(vals[k][0]),), "B": lambda: (enc, bo, exp), "C": lambda: vals[k], "U": lambda: ()}[ch]()
        ctx.eq(R, f"{lab}: blockette {k}", w, tuple(b), (NUM[ch], nxt) + tuple(x), st)
        off += SIZE[ch]


def sum_(xs):
    t = 0
    for x in xs:
        t = add(t, x)
    return t


def blockettes(ctx, d, w, o, word):
    R = "C22.blockettes"
    for bo in (0, 1):
        for doff in (64, 88, 128):
            if doff < 48 + sum(SIZE[c] for c in word):
                continue
            exp = 8 if "B" in word else 9
            vals = values("", word)
            enc = sym("enc", "int", 0, 255) if "B" in word else -1
            v, data, c = record("", o, word, enc, bo, exp, doff, vals, sampRateFactor=20, sampRateMult=-10)
            r = ctx.run(d["rec"], [c])
            lab = f"{o} '{word}' data order {bo} data at {doff}"
            if ctx.returns(R, f"{lab}: reads", w, r):
                rec_ok(ctx, R, w, lab, r.value, r.state, o, word, vals, v, data, enc, bo, exp)


def lengths(ctx, d, w, o):
    R = "C22.length"
    for exp in (7, 8, 9, 10, 12, 13, 16):
        for word in ("B", "AB", "BAC"):
            vals = values("", word)
            v, data, c = record("", o, word, 11, 1, exp, 128 if exp > 7 else 88, vals, **TYP2)
            for tail in (0, 40):
                r = ctx.run(d["rec"], [ct.cat(c, bytes(tail))])
                lab = f"{o} '{word}' 2^{exp} then {tail} bytes"
                if ctx.returns(R, f"{lab}: reads", w, r):
                    rec_ok(ctx, R, w, lab, r.value, r.state, o, word, vals, v, data, 11, 1, exp)


PRIM = {1: ("h", 2), 3: ("i", 4), 4: ("f", 4), 5: ("d", 8)}


def samples(ctx, d, w, o):
    """decompressing follows encoding and byte order of blockette 1000, whatever the header's order"""
    R = "C22.samples"
    for enc, (code, size) in PRIM.items():
        for bo in (0, 1):
            for word in ("B", "BA", "AB", "CUB"):
                n = 5
                xs = [fsym(f"x{k}", code) for k in range(n)]
                end = ">" if bo == 1 else "<"
                off = 48 + sum(SIZE[c] for c in word)
                vals = values("", word)
                v, data, c = record("", o, word, enc, bo, 8, off, vals, **dict(TYP2, numSamples=n))
                c = ct.cat(sl(c, 0, off, NOF), *[ct.fld(code, end, x) for x in xs], bytes(256 - off - n * size))
                r = ctx.run(d["samples"], [c])
                lab = f"{o} '{word}' encoding {enc} data order {bo}"
                if ctx.returns(R, f"{lab}: decompresses", w, r):
                    st = r.state
                    items = st.heap[r.value].get("items") if r.value in st.heap else None
                    if not isinstance(items, tuple):
                        ctx.ok(R, f"{lab}: samples", w, None)
                        continue
                    ctx.eq(R, f"{lab}: count", w, len(items), n, st)
                    for k, (g, x) in enumerate(zip(items, xs)):
                        ctx.eq(R, f"{lab}: sample {k}", w, g, f32(x) if code == "f" else x, st)


def rates(ctx, d, w, o):
    R = "C22.rate"
    for f, m in ((20, 1), (1, 1), (-10, 1), (100, -3), (0, 0), (-5, -2), (32767, 1)):
        for rate in (1, 20, Fraction(1, 4), Fraction(1, 64), 100, 250, Fraction(199, 2), 1000):
            for word in ("AB", "BA"):
                vals = [(rate,) if c == "A" else () for c in word]
                v, data, c = record("", o, word, 3, 1, 8, 88, vals, **dict(TYP2, sampRateFactor=f, sampRateMult=m, numSamples=9))
                r = ctx.run(d["rec"], [c])
                lab = f"{o} '{word}' {f} {m} blockette 100 says {rate}"
                if ctx.returns(R, f"{lab}: reads", w, r):
                    ctx.eq(R, f"{lab}: rate", w, r.value[4], rate, r.state)
                r = ctx.run(d["period"], [c])
                if ctx.returns(R, f"{lab}: times", w, r):
                    st = r.state
                    # each sample lasts 1/rate seconds; whole microseconds for the chosen rates
                    p = Fraction(10**6) / rate
                    if p.denominator == 1:
                        ctx.eq(R, f"{lab}: next start", w, r.value[1], dt(add(us_of(v), int(9 * p)), 0), st)
                        ctx.eq(R, f"{lab}: end", w, r.value[2], dt(add(us_of(v), int(8 * p)), 0), st)


def micros(ctx, d, w, o):
    R = "C22.micro"
    for tm_ in (0, 1, 9999):
        for sec in (0, 59):
            for us in (0, 1, 49, 50, 99):
                for word in ("BC", "CB", "AUBC", "CAB"):
                    vals = [{"A": (20,), "B": (), "C": (100, us, 7), "U": (bytes(8),)}[c] for c in word]
                    v, data, c = record("", o, word, 3, 0, 8, 128, vals, **dict(TYP2, tenthMilli=tm_, second=sec, minute=59, hour=23, yday=366))
                    r = ctx.run(d["rec"], [c])
                    lab = f"{o} '{word}' {sec}.{tm_:04} and {us} us"
                    if ctx.returns(R, f"{lab}: reads", w, r):
                        t = dt(add(us_of(v), us), 0)
                        ctx.eq(R, f"{lab}: header start", w, r.value[5], t, r.state)
                        ctx.eq(R, f"{lab}: start", w, r.value[6], t, r.state)


def mixed(ctx, d, w, o, o2):
    """records in one file keep their own order, values and blockettes"""
    R = "C22.mixed"
    for wa, wb in itertools.product(("B", "BA", "BC", "CAB"), repeat=2):
        va, vb = values("a", wa), values("b", wb)
        a, da, ca = record("a", o, wa, 11, 1, 7, 88, va, sampRateFactor=20, sampRateMult=1)
        b, db, cb = record("b", o2, wb, 3, 0, 8, 128, vb, sampRateFactor=-5, sampRateMult=1)
        r = ctx.run(d["recs"], [ct.cat(ca, cb)])
        lab = f"'{wa}' {o} then '{wb}' {o2}"
        if not ctx.returns(R, f"{lab}: reads", w, r):
            continue
        st = r.state
        items = st.heap[r.value].get("items") if r.value in st.heap else None
        if not isinstance(items, tuple):
            ctx.ok(R, f"{lab}: records", w, None)
            continue
        ctx.eq(R, f"{lab}: records", w, len(items), 2, st)
        if len(items) == 2:
            rec_ok(ctx, R, w, f"{lab}: first", items[0], st, o, wa, va, a, da, 11, 1, 7)
            rec_ok(ctx, R, w, f"{lab}: second", items[1], st, o2, wb, vb, b, db, 3, 0, 8)
