"""C18: mseed2to3 is interpreted on miniSEED 2 records parsed from symbolic bytes (all header
fields, payload, both byte orders, with and without Blockettes 100 and 1001) and from constant
corner records; the miniSEED 3 record it returns, and the bytes that record packs to, are
compared field by field with what the two formats say: instant, rate, sample count, encoding,
identifier, flags, extra headers, and the payload (Steim and other opaque encodings byte for
byte, primitive encodings sample by sample in little endian)."""
import json
import struct
from .common import *
from .c14 import inst
from .c16 import M_freeze, jd
from ..m_time import dt, SEC

DRV = """
from simplemseed.miniseed import unpackMiniseedRecord
from simplemseed.mseed2to3 import mseed2to3

def conv(c):
    m = unpackMiniseedRecord(c)
    r = mseed2to3(m)
    h = r.header
    return (h.starttime, h.sampleRate, h.samplePeriod, h.numSamples, h.encoding, r.identifier, h.flags, r.eh if r.hasExtraHeaders() else None, bytes(r.encodedDataBytes()), m.encodedDataBytes, h.publicationVersion)

def packed(c):
    r = mseed2to3(unpackMiniseedRecord(c))
    return bytes(r.pack())

def samples(c):
    r = mseed2to3(unpackMiniseedRecord(c))
    return [x for x in r.decompress()]
"""
PRIM = {1: ("h", 2), 3: ("i", 4), 4: ("f", 4), 5: ("d", 8)}
X100 = lambda o, rate: (12, lambda nxt: b100(o, nxt, rate))
X1001 = lambda o, tq, us: (8, lambda nxt: b1001(o, nxt, tq, us, 0))
SID = "FDSN:XX_ABCD_00_B_H_Z"


def text(q="D", seq="000001", codes=" ABCD 00BHZXX"):
    return (seq + q + codes).encode()


def usec(v):
    return mul(v["tenthMilli"], 100)


def flags(v):
    bit = lambda x, k, to: mul(tm.mod_(tm.floordiv(x, 1 << k), 2), 1 << to)
    return add(bit(v["actFlag"], 0, 0), add(bit(v["qualFlag"], 7, 1), bit(v["ioFlag"], 5, 2)))


def check(ctx):
    ctx.I.inline_gens = True
    ctx.I.unroll = 12
    d = ctx.driver(DRV)
    w = ctx.where(ctx.get("mseed2to3:mseed2to3"))
    for o in "><":
        for enc in (1, 3, 4, 5, 10, 11):
            for bl in ("", "100", "1001", "both"):
                attempt(ctx, "C18.any", f"{o} encoding {enc} {bl}", w, lambda: anyrec(ctx, d, w, o, enc, bl))
        for enc in (0, 19, 30, 32, 255):
            attempt(ctx, "C18.any", f"{o} encoding {enc}", w, lambda: anyrec(ctx, d, w, o, enc, ""))
        for enc in (1, 3, 4, 5):
            attempt(ctx, "C18.samples", f"{o} encoding {enc}", w, lambda: samples(ctx, d, w, o, enc))
        for enc in (0, 1, 3, 4, 5, 10, 11, 19):
            attempt(ctx, "C18.const", f"{o} encoding {enc}", w, lambda: const(ctx, d, w, o, enc))
        attempt(ctx, "C18.rate", f"{o}", w, lambda: rates(ctx, d, w, o))
        attempt(ctx, "C18.extra", f"{o}", w, lambda: extra(ctx, d, w, o))
        attempt(ctx, "C18.time", f"{o}", w, lambda: times(ctx, d, w, o))
        attempt(ctx, "C18.ident", f"{o}", w, lambda: ident(ctx, d, w, o))
        attempt(ctx, "C18.mixed", f"{o}", w, lambda: mixed(ctx, d, w, o))
        for lab, fx in ms2_corners():
            attempt(ctx, "C18.corner", f"{o} {lab}", w, lambda: corner(ctx, d, w, o, lab, fx))
    for n, k in (("any", 400), ("samples", 30), ("rate", 60), ("const", 200), ("extra", 100), ("time", 60), ("ident", 20), ("mixed", 10), ("corner", 200)):
        ctx.floor("C18." + n, k)


def describe(ctx, R, w, lab, r, v, enc, order, data, us=0, rate=None, eh=None, sid=SID, q="D"):
    """compare a conversion with the header values v it was made from"""
    if not ctx.returns(R, f"{lab}: converts", w, r):
        return
    g, st = r.value, r.state
    ctx.eq(R, f"{lab}: start time", w, g[0], dt(inst(v["year"], v["yday"], v["hour"], v["minute"], v["second"], add(usec(v), us)), 0), st)
    if rate is not None:
        ctx.eq(R, f"{lab}: rate", w, g[1], rate, st)
        ctx.eq(R, f"{lab}: period", w, g[2], div(1, rate) if not (isinstance(rate, (int, float)) and rate == 0) else 0.0, st)
    ctx.eq(R, f"{lab}: sample count", w, g[3], v["numSamples"], st)
    ctx.eq(R, f"{lab}: encoding", w, g[4], enc, st)
    ctx.eq(R, f"{lab}: identifier", w, g[5], sid, st)
    ctx.eq(R, f"{lab}: flags", w, g[6], flags(v), st)
    ctx.eq(R, f"{lab}: extra headers", w, M_freeze(g[7], st), jd(eh), st)
    payload(ctx, R, w, lab, g[8], v["numSamples"], enc, order, data, st)


def payload(ctx, R, w, lab, got, n, enc, order, data, st):
    got = content_of(got, st)
    if enc in PRIM and n == 0:
        return
    if enc not in PRIM:
        return ctx.eq(R, f"{lab}: payload unchanged", w, got, data, st)
    code, size = PRIM[enc]
    if isinstance(n, T):
        return
    for k in range(n):
        want = u(code, order, data, k * size, st.facts)
        ctx.eq(R, f"{lab}: sample {k}", w, u(code, "<", got, k * size, st.facts), want, st)


def anyrec(ctx, d, w, o, enc, bl):
    R = "C18.any"
    extra, us, eh, rate = [], 0, None, None
    big = bool(bl)
    if bl in ("100", "both"):
        rate = sym("b100", "real", Fraction(1, 1000), 10**5)
        extra.append(X100(o, rate))
    if bl in ("1001", "both"):
        us = sym("us", "int", 0, 49)
        extra.append(X1001(o, 90, us))
        eh = {"FDSN": {"Time": {"Quality": 90}}}
    n = {1: 3, 3: 2, 4: 2, 5: 2}.get(enc)
    fx = dict(numSamples=n) if n else {}
    v, data, c = ms2_rec("", o, 8 if big else 7, 128 if big else 64, enc, None, text(), extra, sampRateFactor=sym("f", "int", 1, 32767), sampRateMult=sym("m", "int", 1, 32767), **fx)
    r = ctx.run(d["conv"], [c])
    if rate is None:
        rate = mul(v["sampRateFactor"], v["sampRateMult"])
    describe(ctx, R, w, f"{o} encoding {enc} blockettes 1000 {bl}", r, v, enc, o, data, us, rate, eh)


def samples(ctx, d, w, o, enc):
    R = "C18.samples"
    code, size = PRIM[enc]
    for n in (1, 2, 5, 64 // size):
        v, data, c = ms2_rec("", o, 7, 64, enc, None, text(), **dict(TYP2, numSamples=n))
        r = ctx.run(d["samples"], [c])
        lab = f"{o} encoding {enc} {n} samples"
        if not ctx.returns(R, f"{lab}: decompresses", w, r):
            continue
        items = r.state.heap[r.value].get("items") if r.value in r.state.heap else None
        if not isinstance(items, tuple):
            ctx.ok(R, f"{lab}: samples", w, None)
            continue
        for k in range(n):
            if k < len(items):
                ctx.eq(R, f"{lab}: sample {k}", w, items[k], u(code, o, data, k * size, r.state.facts), r.state)
        ctx.ok(R, f"{lab}: at least the samples", w, len(items) >= n, f"{len(items)} samples")


def const(ctx, d, w, o, enc):
    R = "C18.const"
    n = {1: 32, 3: 16, 4: 16, 5: 8}.get(enc, 3)
    for k, data in enumerate((bytes(64), b"\xff" * 64, bytes(range(1, 65)), b"abc\n\r " + bytes(58), bytes(32) + b"\1" * 32, b"\1" * 32 + bytes(32), b" " * 64)):
        v, data, c = ms2_rec("", o, 7, 64, enc, None, text(), (), data, **dict(TYP2, numSamples=n))
        r = ctx.run(d["conv"], [c])
        describe(ctx, R, w, f"{o} encoding {enc} payload {data[:8]}…{data[-8:]}", r, v, enc, o, data, 0, 20)
        r = ctx.run(d["packed"], [c])
        if ctx.returns(R, f"{o} encoding {enc} payload {k}: packs", w, r):
            p, F = content_of(r.value, r.state), r.state.facts
            ctx.eq(R, f"{o} encoding {enc} payload {k}: packed length", w, u("I", "<", p, 36, F), 64, r.state)
            payload(ctx, R, w, f"{o} encoding {enc} payload {k}: packed", sl(p, 40 + len(SID), 64, F), n, enc, o, data, r.state)


def fm_rate(f, m):
    if f == 0 or m == 0:
        return 0
    a = Fraction(f) if f > 0 else 1 / Fraction(-f)
    return a * m if m > 0 else a / -m


def rates(ctx, d, w, o):
    R = "C18.rate"
    for f, m in ((20, 1), (1, 1), (-1, 1), (1, -1), (200, -10), (-10, 1), (-60, -60), (1, -10), (-3, 1), (32767, 1), (-32768, 1), (5, 20), (125, -2), (-8, 5), (0, 0), (-2, 3), (10000, -32768), (999, -1000)):
        v, data, c = ms2_rec("", o, 7, 64, 3, None, text(), **dict(TYP2, sampRateFactor=f, sampRateMult=m))
        r = ctx.run(d["conv"], [c])
        rate = fm_rate(f, m)
        describe(ctx, R, w, f"{o} factor {f} multiplier {m}", r, v, 3, o, data, 0, float(rate) if rate else 0)
    for x in (0.1, 1.0, 20.0, 100.5, 0.001, 500.0, 250000.0):
        x = struct.unpack("f", struct.pack("f", x))[0]
        v, data, c = ms2_rec("", o, 8, 128, 3, None, text(), [X100(o, x)], **TYP2)
        r = ctx.run(d["conv"], [c])
        describe(ctx, R, w, f"{o} blockette 100 {x}", r, v, 3, o, data, 0, x)


def extra(ctx, d, w, o):
    R = "C18.extra"
    for q in "DRQM":
        for tq in (None, 0, 1, 60, 100, 101, 255):
            for sec in (5, 60):
                ex = [] if tq is None else [X1001(o, tq, 7)]
                v, data, c = ms2_rec("", o, 8, 128, 3, None, text(q), ex, **dict(TYP2, second=sec, hour=23, minute=59))
                want = {}
                if q != "D":
                    want["DataQuality"] = q
                if tq:
                    want["Time"] = {"Quality": tq}
                if sec == 60:
                    want.setdefault("Time", {})["LeapSecond"] = 1
                r = ctx.run(d["conv"], [c])
                lab = f"{o} quality {q}, time quality {tq}, second {sec}"
                describe(ctx, R, w, lab, r, v, 3, o, data, 0 if tq is None else 7, 20, {"FDSN": want} if want else None)
                r = ctx.run(d["packed"], [c])
                if not ctx.returns(R, f"{lab}: packs", w, r):
                    continue
                p = content_of(r.value, r.state)
                n = u("H", "<", p, 34, r.state.facts)
                e = json.dumps({"FDSN": want}).encode() if want else b""
                i = len(SID)
                if isinstance(n, int):
                    ctx.ok(R, f"{lab}: extra headers in the packed record", w, is_json_of(sl(p, 40 + i, n, r.state.facts), jd({"FDSN": want}), r.state) if want else n == 0)


def times(ctx, d, w, o):
    """the packed header's date and time"""
    R = "C18.time"
    for k, (fx, us) in enumerate((({}, 0), (dict(tenthMilli=1234), 0), (dict(tenthMilli=9999), 49), (dict(yday=366, hour=23, minute=59, second=59, tenthMilli=9999), 1), (dict(second=60, hour=23, minute=59, yday=366), 0),
                                  (dict(second=60, hour=23, minute=59, tenthMilli=5000), 20), (dict(year=1999, yday=365), 0), (dict(yday=1, hour=0, minute=0, second=0), 5), (dict(year=2023, yday=59, tenthMilli=1), 3))):
        v, data, c = ms2_rec("", o, 8, 128, 3, None, text(), [X1001(o, 0, us)] if us else [], **dict(TYP2, **fx))
        r = ctx.run(d["packed"], [c])
        lab = f"{o} {fx} +{us} us"
        if not ctx.returns(R, f"{lab}: packs", w, r):
            continue
        p, F = content_of(r.value, r.state), r.state.facts
        for nm, off, code, want in (("nanosecond", 4, "I", v["tenthMilli"] * 100000 + us * 1000), ("year", 8, "H", v["year"]), ("day of year", 10, "H", v["yday"]), ("hour", 12, "B", v["hour"]), ("minute", 13, "B", v["minute"]),
                                    ("second", 14, "B", v["second"]), ("encoding", 15, "B", 3), ("samples", 24, "I", 2), ("flags", 3, "B", 0)):
            ctx.eq(R, f"{lab}: packed {nm}", w, u(code, "<", p, off, F), want, r.state)
        ctx.eq(R, f"{lab}: packed rate", w, u("d", "<", p, 16, F), 20.0, r.state)
        ctx.eq(R, f"{lab}: packed identifier", w, sl(p, 40, len(SID), F), SID.encode(), r.state)


def ident(ctx, d, w, o):
    R = "C18.ident"
    for codes, sid in ((" ABCD 00BHZXX", SID), (" ABC    LHNCO", "FDSN:CO_ABC__L_H_N"), (" A    10HN1Z ", "FDSN:Z_A_10_H_N_1"), (" ABCDE  VM0IU", "FDSN:IU_ABCDE__V_M_0"), (" HODGE01LOGCO", "FDSN:CO_HODGE_01_L_O_G")):
        for seq, q in (("000001", "D"), ("999999", "Q")):
            v, data, c = ms2_rec("", o, 7, 64, 3, None, text(q, seq, codes), **TYP2)
            r = ctx.run(d["conv"], [c])
            describe(ctx, R, w, f"{o} codes '{codes}' {q}", r, v, 3, o, data, 0, 20, {"FDSN": {"DataQuality": q}} if q != "D" else None, sid)


def mixed(ctx, d, w, o):
    """header order and data order differ"""
    R = "C18.mixed"
    other = "<" if o == ">" else ">"
    for enc in (1, 3, 4, 5, 10, 11):
        fx = dict(numSamples={1: 3, 3: 2, 4: 2, 5: 2}[enc]) if enc in PRIM else {}
        v, data, c = ms2_rec("", o, 7, 64, enc, 1 if other == ">" else 0, text(), **dict(TYP2, **fx))
        r = ctx.run(d["conv"], [c])
        describe(ctx, R, w, f"header {o}, data {other}, encoding {enc}", r, v, enc, other, data, 0, 20)


def corner(ctx, d, w, o, lab, fx):
    R = "C18.corner"
    for enc in (3, 11):
        if fx["numSamples"] > 16 and enc == 3:
            continue
        v, data, c = ms2_rec("", o, 7, 64, enc, None, text(), **fx)
        r = ctx.run(d["conv"], [c])
        rate = fm_rate(fx["sampRateFactor"], fx["sampRateMult"])
        describe(ctx, R, w, f"{o} encoding {enc} {lab}", r, v, enc, o, data, 0, float(rate) if rate else 0)
