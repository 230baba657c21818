"""C15: the rate and period accessors and setters of the miniSEED 3 header and the rate
computation of the miniSEED 2 header are interpreted with symbolic real rates and periods and
symbolic integer factors and multipliers in each sign case, and over constant corner values;
results are compared with the two formats' conventions as rational functions."""
from .common import *
from ..m_time import td, SEC
from ..m_num import round_

DRV = """
import struct
from simplemseed.mseed3 import MSeed3Header, MSeed3Record, unpackMSeed3FixedHeader
from simplemseed.miniseed import MiniseedHeader, MiniseedRecord, unpackMiniseedHeader, unpackMiniseedRecord

def get3(x):
    h = MSeed3Header()
    h.sampleRatePeriod = x
    return (h.sampleRate, h.samplePeriod)

def setr3(x):
    h = MSeed3Header()
    h.sampleRate = x
    return (h.sampleRate, h.samplePeriod, h.sampleRatePeriod)

def setp3(x):
    h = MSeed3Header()
    h.samplePeriod = x
    return (h.sampleRate, h.samplePeriod, h.sampleRatePeriod)

def reset3(x, y):
    h = MSeed3Header()
    h.sampleRate = y
    h.samplePeriod = x
    a = (h.sampleRate, h.samplePeriod)
    h.sampleRate = y
    return (a, (h.sampleRate, h.samplePeriod))

def wire3(b):
    h = unpackMSeed3FixedHeader(b)
    return (h.sampleRate, h.samplePeriod)

def pack3r(x):
    h = MSeed3Header()
    h.sampleRate = x
    h.encoding = 3
    return bytes(MSeed3Record(h, "FDSN:XX_ABC__B_H_Z", b"").pack())[16:24]

def pack3p(x):
    h = MSeed3Header()
    h.samplePeriod = x
    h.encoding = 3
    return bytes(MSeed3Record(h, "FDSN:XX_ABC__B_H_Z", b"").pack())[16:24]

def make2(rate, f, m):
    h = MiniseedHeader("XX", "ABC", "00", "BHZ", "2024-01-02T03:04:05Z", 1, rate, sampRateFactor=f, sampRateMult=m)
    return (h.sampleRate, h.sampPeriod)

def setr2(rate):
    h = MiniseedHeader("XX", "ABC", "00", "BHZ", "2024-01-02T03:04:05Z", 1, 7)
    h.setSampleRate(rate)
    return (h.sampleRate, h.sampPeriod)

def wire2(b, o):
    h = unpackMiniseedHeader(b, o)
    return (h.sampleRate, h.sampPeriod, h.sampRateFactor, h.sampRateMult)

def rec2(b):
    h = unpackMiniseedRecord(b).header
    return (h.sampleRate, h.sampPeriod)

def loop2(rate):
    h = MiniseedHeader("XX", "ABC", "00", "BHZ", "2024-01-02T03:04:05Z", 1, rate)
    g = unpackMiniseedHeader(h.pack())
    return (g.sampleRate, g.sampPeriod)
"""


def check(ctx):
    ctx.I.inline_gens = True
    ctx.I.unroll = 12
    d = ctx.driver(DRV)
    w3 = ctx.where(ctx.prop_fn("mseed3:MSeed3Header.sampleRate", "fget"))
    wp = ctx.where(ctx.prop_fn("mseed3:MSeed3Header.samplePeriod", "fget"))
    w2 = ctx.where(ctx.get("miniseed:MiniseedHeader.__init__"))
    ws = ctx.where(ctx.get("miniseed:MiniseedHeader.setSampleRate"))
    wc = ctx.where(ctx.get("miniseed:MiniseedHeader.calcSeedMultipilerFactor"))
    attempt(ctx, "C15.get3", "accessors", w3, lambda: get3(ctx, d, w3))
    attempt(ctx, "C15.set3", "setters", wp, lambda: set3(ctx, d, wp))
    attempt(ctx, "C15.make2", "factor and multiplier", w2, lambda: make2(ctx, d, w2))
    attempt(ctx, "C15.wire2", "factor and multiplier as read", w2, lambda: wire2(ctx, d, w2))
    attempt(ctx, "C15.rate2", "given rate", w2, lambda: rate2(ctx, d, w2))
    attempt(ctx, "C15.rate2", "set rate", ws, lambda: setr2(ctx, d, ws))
    attempt(ctx, "C15.loop2", "written rate", wc, lambda: loop2(ctx, d, wc))
    attempt(ctx, "C15.b100", "blockette 100", ws, lambda: b100_(ctx, d, ws))
    for n, k in (("get3", 40), ("set3", 60), ("make2", 100), ("wire2", 40), ("rate2", 20), ("loop2", 60), ("b100", 8)):
        ctx.floor("C15." + n, k)


CONST = (1, 20, 100, 1000, 250000, Fraction(1, 2), Fraction(1, 10), Fraction(1, 4), 2, 3600, 86400, Fraction(5, 2), Fraction(3, 8))


def fl(x):
    return float(x) if isinstance(x, Fraction) else x


def rcp(x):
    return fl(Fraction(1) / x) if isnum(x) else div(1, x)


POS = lambda n: sym(n, "real", Fraction(1, 10**9), 10**9)


def get3(ctx, d, w):
    R = "C15.get3"
    rate, per = POS("rate"), POS("period")
    cases = [("any rate", rate, (rate, rcp(rate))), ("any period", neg(per), (rcp(per), per))]
    for c in CONST:
        cases.append((f"rate {fl(c)}", fl(c), (c, rcp(c))))
        cases.append((f"period {fl(c)}", fl(-c), (rcp(c), c)))
    for lab, x, want in cases:
        r = ctx.run(d["get3"], [x])
        if ctx.returns(R, f"{lab}: returns", w, r):
            ctx.eq(R, f"{lab}: rate and period", w, nums(r.value), nums(want), r.state)
        b = ct.fld("d", "<", x)
        r = ctx.run(d["wire3"], [ms3_bytes(ms3_syms(sampleRatePeriod=x))])
        if ctx.completes(R, f"{lab} as read: returns", w, r):
            ctx.eq(R, f"{lab} as read: rate and period", w, nums(r.value), nums(want), r.state)


def nums(t):
    return tuple(nums(x) if isinstance(x, tuple) else fl(Fraction(x)) if isinstance(x, (int, Fraction)) and not isinstance(x, bool) else x for x in t)


def set3(ctx, d, w):
    R = "C15.set3"
    rate, per = POS("rate"), POS("period")
    for lab, x in [("any", rate)] + [(str(fl(c)), c) for c in CONST]:
        for fn, want, stored in (("setr3", (x, rcp(x)), x), ("setp3", (rcp(x), x), neg(x) if isinstance(x, T) else -x)):
            r = ctx.run(d[fn], [fl(x)])
            con = f"{'rate' if fn == 'setr3' else 'period'} {lab}"
            if ctx.returns(R, f"{con}: set", w, r):
                ctx.eq(R, f"{con}: read back", w, nums(r.value[:2]), nums(want), r.state)
                # what is stored must mean the same on the wire
                r2 = ctx.run(d["get3"], [r.value[2]])
                if ctx.returns(R, f"{con}: stored value is valid", w, r2):
                    ctx.eq(R, f"{con}: stored value means the same", w, nums(r2.value), nums(want), r2.state)
            r = ctx.run(d["pack3" + fn[3]], [fl(x)])
            if isinstance(x, T) and ctx.completes(R, f"{con}: packs", w, r):
                g = u("d", "<", r.value, 0, r.state.facts)
                r2 = ctx.run(d["get3"], [g])
                if ctx.completes(R, f"{con}: packed value is valid", w, r2):
                    ctx.eq(R, f"{con}: packed value means the same", w, nums(r2.value), nums(want), r2.state)
    r = ctx.run(d["reset3"], [per, rate])
    if ctx.returns(R, "set in turn: returns", w, r):
        ctx.eq(R, "set in turn: last one holds", w, nums(r.value), nums(((rcp(per), per), (rate, rcp(rate)))), r.state)


def us(rate):
    """whole microseconds of one period"""
    if isnum(rate):
        return round(Fraction(SEC) / Fraction(rate))
    return round_(div(SEC, rate))


def four(f, m):
    """SEED: sign cases of factor f > 0 and multiplier m > 0"""
    if isnum(f) and isnum(m):
        return [(f, m, Fraction(f * m)), (f, -m, Fraction(f, m)), (-f, m, Fraction(m, f)), (-f, -m, Fraction(1, f * m))]
    return [(f, m, mul(f, m)), (f, neg(m), div(f, m)), (neg(f), m, div(m, f)), (neg(f), neg(m), div(1, mul(f, m)))]


FM = ((1, 1), (20, 1), (1, 20), (200, 10), (3, 7), (7, 3), (32767, 32767), (32767, 1), (1, 32767), (100, 100), (5, 2))


def pairs():
    f, m = sym("f", "int", 1, 32767), sym("m", "int", 1, 32767)
    yield "any", f, m
    for a, b in FM:
        yield "", a, b
    yield "", f, 1
    yield "", 1, m


def make2(ctx, d, w):
    R = "C15.make2"
    for lab, f, m in pairs():
        for a, b, rate in four(f, m):
            r = ctx.run(d["make2"], [0, a, b])
            con = f"factor {show(a)} multiplier {show(b)}"
            if ctx.returns(R, f"{con}: accepted", w, r):
                ctx.eq(R, f"{con}: rate", w, nums(r.value[:1]), nums((rate,)), r.state)
                ctx.eq(R, f"{con}: period", w, r.value[1], td(us(rate)), r.state)


def wire2(ctx, d, w):
    R = "C15.wire2"
    for lab, f, m in pairs():
        for a, b, rate in four(f, m):
            for o in "<>":
                r = ctx.run(d["wire2"], [ms2_bytes(ms2_syms(sampRateFactor=a, sampRateMult=b), o), o])
                con = f"{o} factor {show(a)} multiplier {show(b)}"
                if ctx.completes(R, f"{con}: read", w, r):
                    ctx.eq(R, f"{con}: rate", w, nums(r.value[:1]), nums((rate,)), r.state)
                    ctx.eq(R, f"{con}: period", w, r.value[1], td(us(rate)), r.state)
                    ctx.eq(R, f"{con}: as read", w, r.value[2:], (a, b), r.state)


def rate2(ctx, d, w):
    R = "C15.rate2"
    rate = POS("rate")
    f, m = sym("f", "int", -32768, 32767), sym("m", "int", -32768, 32767)
    for lab, x, a, b in [("any rate", rate, 0, 0), ("any rate with factors", rate, f, m)] + [(f"{fl(c)} Hz", c, 0, 0) for c in CONST] + [(f"{fl(c)} Hz with factors", c, 3, -7) for c in CONST]:
        r = ctx.run(d["make2"], [fl(x), a, b])
        if ctx.returns(R, f"{lab}: accepted", w, r):
            ctx.eq(R, f"{lab}: rate", w, nums(r.value[:1]), nums((x,)), r.state)
            ctx.eq(R, f"{lab}: period", w, r.value[1], td(us(x)), r.state)


def setr2(ctx, d, w):
    R = "C15.rate2"
    for lab, x in [("any rate", POS("rate"))] + [(f"{fl(c)} Hz", c) for c in CONST]:
        r = ctx.run(d["setr2"], [fl(x)])
        if ctx.returns(R, f"set {lab}: accepted", w, r):
            ctx.eq(R, f"set {lab}: rate", w, nums(r.value[:1]), nums((x,)), r.state)
            ctx.eq(R, f"set {lab}: period", w, r.value[1], td(us(x)), r.state)


def loop2(ctx, d, w):
    """whole rates and whole periods survive the factor and multiplier of the fixed header"""
    R = "C15.loop2"
    for c in (1, 2, 3, 7, 10, 20, 31, 40, 50, 64, 99, 100, 101, 125, 127, 200, 250, 256, 333, 400, 500, 511, 512, 999, 1000, 1024, 2000, 2047, 4000, 4095, 4096, 5000, 8000, 8191, 10000, 10922, 10923, 16000, 16382, 16383, 16384, 20000, 32000, 32765, 32766):
        for x in {Fraction(c), Fraction(1, c)} if c < 16000 else {Fraction(c)}:
            r = ctx.run(d["loop2"], [fl(x) if x.denominator > 1 else int(x)])
            con = f"{c} Hz" if x == c else f"{c} s"
            if ctx.returns(R, f"{con}: written and read", w, r):
                v = r.value[0]
                ok = isnum(v) and abs(Fraction(v) - x) <= x * Fraction(1, 10**12)
                ctx.ok(R, f"{con}: same rate", w, ok if isnum(v) else None, f"rate {show(v)}")
                ctx.eq(R, f"{con}: same period", w, r.value[1], td(us(x)), r.state)
    k = sym("rate", "int", 1, 32766)
    r = ctx.run(d["loop2"], [k])
    if ctx.completes(R, "any whole rate: written and read", w, r):
        ctx.ok(R, "any whole rate: possible", w, True)


def b100_(ctx, d, w):
    R = "C15.b100"
    for o in "<>":
        for lab, x in [("any rate", POS("rate")), ("20 Hz", 20), ("0.5 Hz", Fraction(1, 2)), ("100 s", Fraction(1, 128))]:
            v, data, b = ms2_rec("", o, 8, 128, 3, extra=[(12, lambda nxt: b100(o, nxt, fl(x)))], numSamples=0, sampRateFactor=3, sampRateMult=-7, year=2024)
            r = ctx.run(d["rec2"], [b])
            if ctx.completes(R, f"{o} {lab}: read", w, r):
                y = ct.unp("f", o, ct.fld("f", o, fl(x)))
                ctx.eq(R, f"{o} {lab}: rate", w, nums(r.value[:1]), nums((y,)), r.state)
                ctx.eq(R, f"{o} {lab}: period", w, r.value[1], td(us(y)), r.state)
