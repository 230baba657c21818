"""C19: the miniSEED 2 fixed header is written and parsed with every field symbolic, and over
constant corner values, in both byte orders; the 48 bytes are compared with the SEED 2.4 table
(offset, width, signedness, byte order), and records read are packed again and compared byte
for byte."""
from .common import *
from ..m_time import dt, SEC

ARGS = "net sta loc chan t n f m act io qual nb tc do bo seq q"
DRV = """
from simplemseed.miniseed import MiniseedHeader, MiniseedRecord, BTime, unpackMiniseedHeader, unpackMiniseedRecord

def make(byteorder, ARGS):
    h = MiniseedHeader(net, sta, loc, chan, t, n, 0, byteorder=byteorder, sampRateFactor=f, sampRateMult=m, actFlag=act, ioFlag=io, qualFlag=qual, numBlockettes=nb,
        timeCorr=tc, dataOffset=do, blocketteOffset=bo, sequence_number=seq, dataquality=q)
    return bytes(h.pack())

def made(byteorder, y, yd, hh, mm, ss, tm, ARGS):
    return make(byteorder, net, sta, loc, chan, BTime(y, yd, hh, mm, ss, tm), n, f, m, act, io, qual, nb, tc, do, bo, seq, q)

def changed(byteorder, n, f, m, act, io, qual, tc, seq, q, t):
    h = MiniseedHeader("AA", "BB", "CC", "DDD", "2001-02-03T04:05:06Z", 0, 0, byteorder=byteorder)
    h.network = "XX"
    h.station = "ABCD"
    h.location = "00"
    h.channel = "BHZ"
    h.numSamples = n
    h.sampRateFactor = f
    h.sampRateMult = m
    h.actFlag = act
    h.ioFlag = io
    h.qualFlag = qual
    h.timeCorr = tc
    h.sequence_number = seq
    h.dataquality = q
    h.setStartTime(t)
    p = bytes(h.pack())
    h.setStartTime("2001-02-03T04:05:06Z")
    h.starttime = t
    return (p, bytes(h.pack()))

def parse(b, e):
    h = unpackMiniseedHeader(b, e)
    return (h.sequence_number, h.dataquality, h.station, h.location, h.channel, h.network, tuple(h.btime), h.numSamples, h.sampRateFactor, h.sampRateMult, h.actFlag, h.ioFlag, h.qualFlag, h.numBlockettes,
        h.timeCorr, h.dataOffset, h.blocketteOffset, h.byteorder, h.codes(), h.starttime)

def again(b, e):
    return bytes(unpackMiniseedHeader(b, e).pack())

def rec(c):
    return bytes(unpackMiniseedRecord(c).pack())
""".replace("ARGS", ARGS.replace(" ", ", "))
BT = ("year", "yday", "hour", "minute", "second", "tenthMilli")
CODES = (("XX", "ABCD", "00", "BHZ"), ("CO", "HODGE", "", "LHN"), ("Z", "A", "1", "X"), ("", "", "", ""), ("99", "12345", "--", "VM0"), ("0A", "0BC0", "10", "a0z"), ("7Q", "q_-.5", "0", "0"))


def text(seq, q, net, sta, loc, chan):
    return ("%06d" % seq + q + " " + sta.ljust(5) + loc.ljust(2) + chan.ljust(3) + net.ljust(2)).encode()


def args(v, codes, t, seq, q):
    net, sta, loc, chan = codes
    return [net, sta, loc, chan, t, v["numSamples"], v["sampRateFactor"], v["sampRateMult"], v["actFlag"], v["ioFlag"], v["qualFlag"], v["numBlockettes"], v["timeCorr"], v["dataOffset"], v["blocketteOffset"], seq, q]


def check(ctx):
    ctx.I.inline_gens = True
    ctx.I.unroll = 12
    d = ctx.driver(DRV)
    w = ctx.where(ctx.get("miniseed:MiniseedHeader.pack"))
    wu = ctx.where(ctx.get("miniseed:unpackMiniseedHeader"))
    for o in "><":
        attempt(ctx, "C19.pack", f"{o} any", w, lambda: packany(ctx, d, w, o))
        attempt(ctx, "C19.parse", f"{o} any", wu, lambda: parseany(ctx, d, wu, o))
        attempt(ctx, "C19.codes", f"{o}", w, lambda: codes(ctx, d, w, wu, o))
        for lab, fx in ms2_corners():
            attempt(ctx, "C19.corner", f"{o} {lab}", w, lambda: corner(ctx, d, w, wu, o, lab, fx))
        for lab, fx in more():
            attempt(ctx, "C19.corner", f"{o} {lab}", w, lambda: corner(ctx, d, w, wu, o, lab, fx))
        attempt(ctx, "C19.record", f"{o}", w, lambda: record(ctx, d, w, o))
    for n, k in (("pack", 40), ("parse", 40), ("codes", 100), ("corner", 800), ("record", 100)):
        ctx.floor("C19." + n, k)


def more():
    for n, vs in dict(sampRateFactor=(-32768, -1, 255, 256), sampRateMult=(-32768, 32767, 256), timeCorr=(-2**31, 2**31 - 1, 65536, -256), numBlockettes=(1, 255), dataOffset=(48, 64, 65535), blocketteOffset=(48, 56, 65535),
                      actFlag=(128, 64), ioFlag=(1, 64), qualFlag=(1, 2), tenthMilli=(255, 256, 5000), yday=(255, 256, 365), second=(60,), year=(1970, 1999, 2047)).items():
        for x in vs:
            yield f"{n}={x}", dict(TYP2, **{n: x})


def full(fx):
    return dict(dict(numBlockettes=0, dataOffset=0, blocketteOffset=0), **fx)


def same48(ctx, R, w, lab, r, v, o, txt):
    if not ctx.returns(R, f"{lab}: returns", w, r):
        return
    g, st = content_of(r.value, r.state), r.state
    ctx.eq(R, f"{lab}: length", w, ct.clen(g), 48, st)
    ctx.eq(R, f"{lab}: sequence, quality, codes", w, sl(g, 0, 20, st.facts), txt, st)
    for n, off, code in MS2:
        if n != "unused":
            ctx.eq(R, f"{lab}: {n}", w, u(code, o, g, off, st.facts), v[n], st)


def attrs(ctx, R, w, lab, r, v, o, seq, q, codes):
    if not ctx.returns(R, f"{lab}: returns", w, r):
        return
    g, st = r.value, r.state
    net, sta, loc, chan = codes
    ctx.eq(R, f"{lab}: sequence, quality, codes", w, tuple(g[:6]), (seq, q, sta, loc, chan, net), st)
    ctx.eq(R, f"{lab}: time", w, tuple(g[6]), tuple(v[k] for k in BT), st)
    for k, n in enumerate(("numSamples", "sampRateFactor", "sampRateMult", "actFlag", "ioFlag", "qualFlag", "numBlockettes", "timeCorr", "dataOffset", "blocketteOffset")):
        ctx.eq(R, f"{lab}: {n}", w, g[7 + k], v[n], st)
    ctx.eq(R, f"{lab}: byte order", w, g[17], 1 if o == ">" else 0, st)
    ctx.eq(R, f"{lab}: joined codes", w, g[18], ".".join(codes), st)


def packany(ctx, d, w, o):
    R = "C19.pack"
    for c, seq, q in ((CODES[0], 1, "D"), (CODES[1], 999999, "M")):
        v = ms2_syms()
        r = ctx.run(d["made"], [1 if o == ">" else 0] + [v[k] for k in BT] + args(v, c, None, seq, q))
        same48(ctx, R, w, f"{o} any values, {c} {seq}{q}", r, v, o, text(seq, q, *c))
    v = ms2_syms()
    t = dt(1700000000 * SEC + 123456, 0)
    r = ctx.run(d["changed"], [1 if o == ">" else 0, v["numSamples"], v["sampRateFactor"], v["sampRateMult"], v["actFlag"], v["ioFlag"], v["qualFlag"], v["timeCorr"], 77, "Q", t])
    v.update(year=2023, yday=318, hour=22, minute=13, second=20, tenthMilli=1234, numBlockettes=0, dataOffset=0, blocketteOffset=0)
    for k, lab in enumerate(("start time set by method", "start time set")):
        same48(ctx, R, w, f"{o} attributes and {lab}", pick(r, k), v, o, text(77, "Q", "XX", "ABCD", "00", "BHZ"))


def pick(r, k):
    """the k-th of the values returned"""
    import copy
    q = copy.copy(r)
    if isinstance(r.value, tuple):
        q.value = r.value[k]
    return q


def parseany(ctx, d, w, o):
    R = "C19.parse"
    for c, seq, q in ((CODES[0], 1, "D"), (CODES[1], 999999, "M"), (CODES[2], 12, "R")):
        v = ms2_syms()
        r = ctx.run(d["parse"], [ms2_bytes(v, o, text(seq, q, *c)), o])
        attrs(ctx, R, w, f"{o} any values, {c} {seq}{q}", r, v, o, seq, q, c)
        r = ctx.run(d["parse"], [ct.cat(ms2_bytes(v, o, text(seq, q, *c)), bsym("more", 16)), o])
        attrs(ctx, R, w, f"{o} any values, {c} {seq}{q} and more", r, v, o, seq, q, c)
        v = ms2_syms(unused=0)
        r = ctx.run(d["again"], [ms2_bytes(v, o, text(seq, q, *c)), o])
        same48(ctx, R, w, f"{o} any values again, {c} {seq}{q}", r, v, o, text(seq, q, *c))


def codes(ctx, d, w, wu, o):
    R = "C19.codes"
    v = full(TYP2)
    b = 1 if o == ">" else 0
    for c in CODES:
        for seq, q in ((0, "D"), (1, "R"), (123456, "Q"), (999999, "M"), (42, "X")):
            lab = f"{o} {c} {seq}{q}"
            bt_ = [v[k] for k in BT]
            r = ctx.run(d["made"], [b] + bt_ + args(v, c, None, seq, q))
            same48(ctx, R, w, f"{lab} written", r, v, o, text(seq, q, *c))
            r = ctx.run(d["parse"], [ms2_bytes(v, o, text(seq, q, *c)), o])
            attrs(ctx, R, wu, f"{lab} read", r, v, o, seq, q, c)
    # any codes, of full width and shorter
    for ns in ((2, 5, 2, 3), (1, 4, 2, 3), (2, 3, 1, 1), (2, 2, 2, 2), (2, 1, 2, 3)):
        cs = [sym(n, "str", n=k, alpha="ABCXYZ0189") for n, k in zip(("net", "sta", "loc", "chan"), ns)]
        r = ctx.run(d["made"], [b] + [v[k] for k in BT] + args(v, cs, None, 5, "D"))
        if ctx.completes(R, f"{o} any codes {ns}: packs", w, r) and r.alive:
            g, st = content_of(r.value, r.state), r.state
            for (off, n), x, k in zip(((18, 2), (8, 5), (13, 2), (15, 3)), cs, ns):
                ctx.eq(R, f"{o} any codes {ns}: bytes {off} to {off + n}", w, sl(g, off, n, st.facts), ct.cat(utf8(ctx, x), b" " * (n - k)), st)


def corner(ctx, d, w, wu, o, lab, fx):
    R = "C19.corner"
    v = full(fx)
    b = 1 if o == ">" else 0
    c, seq, q = CODES[0], 1, "D"
    r = ctx.run(d["made"], [b] + [v[k] for k in BT] + args(v, c, None, seq, q))
    same48(ctx, R, w, f"{o} {lab} written", r, v, o, text(seq, q, *c))
    txt = text(seq, q, *c)
    r = ctx.run(d["parse"], [ms2_bytes(v, o, txt), o])
    attrs(ctx, R, wu, f"{o} {lab} read", r, v, o, seq, q, c)
    r = ctx.run(d["again"], [ms2_bytes(v, o, txt), o])
    same48(ctx, R, w, f"{o} {lab} read and written", r, v, o, txt)


def record(ctx, d, w, o):
    """header bytes of a record read and packed again"""
    R = "C19.record"
    cases = [("any values", dict(unused=0, sampRateFactor=sym("f", "int", 1, 32767), sampRateMult=sym("m", "int", 1, 32767)))]
    for lab, fx in list(ms2_corners()) + list(more()):
        if not {"numBlockettes", "dataOffset", "blocketteOffset"} & set(fx) and fx["unused"] == 0 and fx["sampRateFactor"] and fx["sampRateMult"]:
            cases.append((lab, fx))
    for lab, fx in cases:
        v, data, c = ms2_rec("", o, 7, 64, 11, None, text(7, "R", *CODES[0]), **fx)
        r = ctx.run(d["rec"], [c])
        if not ctx.returns(R, f"{o} {lab}: packs again", w, r):
            continue
        g, st = content_of(r.value, r.state), r.state
        ctx.eq(R, f"{o} {lab}: sequence, quality, codes", w, sl(g, 0, 20, st.facts), text(7, "R", *CODES[0]), st)
        for n, off, code in MS2:
            if n != "unused":
                ctx.eq(R, f"{o} {lab}: {n}", w, u(code, o, g, off, st.facts), v[n], st)
        ctx.eq(R, f"{o} {lab}: blockette 1000", w, sl(g, 48, 8, st.facts), sl(c, 48, 8, st.facts), st)
        ctx.eq(R, f"{o} {lab}: payload", w, sl(g, 64, 64, st.facts), data, st)
    # with a blockette 1001 the time in the header excludes its microseconds
    for us in (0, 7, 49):
        for fx in ({}, dict(tenthMilli=9999, second=59, minute=59, hour=23), dict(second=60, minute=59, hour=23), dict(second=60, minute=59, hour=23, tenthMilli=1)):
            v, data, c = ms2_rec("", o, 8, 128, 11, None, text(7, "R", *CODES[0]), [(8, lambda nxt: b1001(o, nxt, 9, us, 0))], **dict(TYP2, **fx))
            r = ctx.run(d["rec"], [c])
            lab = f"{o} {fx} with {us} microseconds"
            if ctx.returns(R, f"{lab}: packs again", w, r):
                g, st = content_of(r.value, r.state), r.state
                for n, off, code in MS2[:5] + MS2[6:7]:
                    ctx.eq(R, f"{lab}: {n}", w, u(code, o, g, off, st.facts), v[n], st)
