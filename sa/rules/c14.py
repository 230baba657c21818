"""C14: the start time accessors and setters of both formats are interpreted with symbolic
time fields, wall clocks, zone offsets, rates and counts (instants are microsecond terms), and
over constant corner instants: leap days, year and day boundaries, leap seconds, zones on both
sides, fractions.  The instant read must be the fields' UTC instant, the fields stored must be
those of the given instant in UTC, and the end time start + period*(count-1)."""
import datetime as pydt
from .common import *
from .. import m_time
from ..m_time import dt, ystart, dtf, DAY, HOUR, MIN, SEC

DRV = """
from simplemseed.mseed3 import MSeed3Header, MSeed3Record, unpackMSeed3Record, unpackMSeed3FixedHeader
from simplemseed.miniseed import MiniseedHeader, MiniseedRecord, BTime, unpackMiniseedRecord, unpackMiniseedHeader

def get3(y, doy, h, m, s, ns):
    x = MSeed3Header()
    x.year = y
    x.dayOfYear = doy
    x.hour = h
    x.minute = m
    x.second = s
    x.nanosecond = ns
    return x.starttime

def rec3(y, doy, h, m, s, ns):
    x = MSeed3Header()
    x.year = y
    x.dayOfYear = doy
    x.hour = h
    x.minute = m
    x.second = s
    x.nanosecond = ns
    r = MSeed3Record(x, "FDSN:XX_ABC__B_H_Z", b"")
    return r.starttime

def set3(t):
    x = MSeed3Header()
    x.starttime = t
    return (x.year, x.dayOfYear, x.hour, x.minute, x.second, x.nanosecond)

def setget3(t):
    x = MSeed3Header()
    x.starttime = t
    return x.starttime

def end3(t, srp, n):
    x = MSeed3Header()
    x.starttime = t
    x.sampleRatePeriod = srp
    x.numSamples = n
    r = MSeed3Record(x, "FDSN:XX_ABC__B_H_Z", b"")
    return (x.endtime, r.endtime)

def read3(b):
    h = unpackMSeed3FixedHeader(b)
    return h.starttime

def hdr2(t):
    return MiniseedHeader("XX", "ABC", "00", "BHZ", t, 1, 20)

def get2(y, yday, h, m, s, tm):
    x = hdr2(BTime(y, yday, h, m, s, tm))
    return (x.starttime, tuple(x.btime))

def rec2(y, yday, h, m, s, tm):
    x = hdr2(BTime(y, yday, h, m, s, tm))
    return MiniseedRecord(x, b"").starttime()

def set2(t):
    x = hdr2(t)
    return tuple(x.btime)

def setget2(t):
    return hdr2(t).starttime

def reset2(t):
    x = hdr2("2001-02-03T04:05:06Z")
    x.setStartTime(t)
    return (x.starttime, tuple(x.btime))

def pack2(t):
    x = hdr2(t)
    return bytes(x.pack())

def end2(t, rate, n):
    x = MiniseedHeader("XX", "ABC", "00", "BHZ", t, n, rate, encoding=3)
    r = MiniseedRecord(x, b"")
    return (r.endtime(), r.next_starttime())

def end2fm(t, f, m, n):
    x = MiniseedHeader("XX", "ABC", "00", "BHZ", t, n, 0, encoding=3, sampRateFactor=f, sampRateMult=m)
    r = MiniseedRecord(x, b"")
    return (r.endtime(), r.next_starttime())

def read2(b, o):
    h = unpackMiniseedHeader(b, o)
    return (h.starttime, tuple(h.btime))
"""
F3 = dict(y=("year", 1970, 2400), doy=("dayOfYear", 1, 366), h=("hour", 0, 23), m=("minute", 0, 59), s=("second", 0, 60), ns=("nanosecond", 0, 999999999))
ALL = [(y, d, h, m, s, f) for y, d, h, m, s, f in (
    (2024, 60, 12, 30, 15, 123456), (2024, 366, 23, 59, 59, 999999), (2023, 365, 23, 59, 59, 999999), (2000, 366, 0, 0, 0, 0), (1900, 365, 23, 0, 59, 1),
    (2100, 59, 0, 59, 0, 999900), (2024, 1, 0, 0, 0, 0), (2016, 366, 23, 59, 60, 0), (2016, 366, 23, 59, 60, 500000), (2015, 181, 23, 59, 60, 999999), (1970, 1, 0, 0, 0, 100), (2038, 19, 3, 14, 8, 0), (2024, 31, 23, 59, 59, 99), (2024, 32, 5, 6, 7, 50))]
OFFS = (0, 3600, -3600, 5 * 3600 + 1800, -8 * 3600, 14 * 3600, -12 * 3600, 23 * 3600 + 59 * 60, 37)
INST = ((2024, 2, 29, 12, 30, 15, 123456), (2023, 12, 31, 23, 59, 59, 999999), (2024, 1, 1, 0, 0, 0, 0), (2024, 12, 31, 22, 45, 1, 100), (2000, 3, 1, 0, 0, 0, 99), (1999, 12, 31, 12, 0, 0, 900000), (2100, 2, 28, 23, 30, 0, 5), (2024, 6, 30, 0, 0, 59, 999900))


def inst(y, doy, h, m, s, us):
    return add(mul(DAY, add(ystart(y), sub(doy, 1))), add(mul(HOUR, h), add(mul(MIN, m), add(mul(SEC, s), us))))


def floor_(x, n):
    return x // n if isinstance(x, int) else m_time.fdiv(x, n)


def check(ctx):
    d = ctx.driver(DRV)
    H = {3: "mseed3:MSeed3Header.starttime", 2: "miniseed:MiniseedHeader.setStartTime"}
    w3 = ctx.where(ctx.prop_fn("mseed3:MSeed3Header.starttime", "fget"))
    ws = w3
    w2 = ctx.where(ctx.get(H[2]))
    attempt(ctx, "C14.get3", "fields", w3, lambda: get3(ctx, d, w3))
    attempt(ctx, "C14.read3", "fields", w3, lambda: read3(ctx, d, w3))
    attempt(ctx, "C14.set3", "instants", ws, lambda: setter(ctx, d, ws, 3))
    attempt(ctx, "C14.set3", "text", ws, lambda: text(ctx, d, ws, 3))
    attempt(ctx, "C14.end3", "end", w3, lambda: end3(ctx, d, w3))
    attempt(ctx, "C14.get2", "fields", w2, lambda: get2(ctx, d, w2))
    attempt(ctx, "C14.read2", "fields", w2, lambda: read2(ctx, d, w2))
    attempt(ctx, "C14.set2", "instants", w2, lambda: setter(ctx, d, w2, 2))
    attempt(ctx, "C14.set2", "text", w2, lambda: text(ctx, d, w2, 2))
    attempt(ctx, "C14.end2", "end", w2, lambda: end2(ctx, d, w2))
    for n, k in (("get3", 25), ("read3", 10), ("set3", 300), ("end3", 60), ("get2", 25), ("read2", 20), ("set2", 300), ("end2", 30)):
        ctx.floor("C14." + n, k)


def get3(ctx, d, w):
    R = "C14.get3"
    v = {k: sym(*(a[:1] + ("int",) + a[1:])) for k, a in F3.items()}
    args = [v[k] for k in ("y", "doy", "h", "m", "s", "ns")]
    want = dt(inst(*args[:5], floor_(args[5], 1000)), 0)
    for fn in ("get3", "rec3"):
        r = ctx.run(d[fn], args)
        if ctx.returns(R, f"{fn} any fields: returns", w, r):
            ctx.eq(R, f"{fn} any fields: instant", w, r.value, want, r.state)
        for c in ALL:
            for x in (0, 999):
                a = list(c[:5]) + [c[5] * 1000 + x]
                r = ctx.run(d[fn], a)
                if ctx.returns(R, f"{fn} {a}: returns", w, r):
                    ctx.eq(R, f"{fn} {a}: instant", w, r.value, dt(inst(*c), 0), r.state)


def read3(ctx, d, w):
    R = "C14.read3"
    v = ms3_syms(year=sym("year", "int", 1970, 2400), dayOfYear=sym("dayOfYear", "int", 1, 366), hour=sym("hour", "int", 0, 23), minute=sym("minute", "int", 0, 59),
                 second=sym("second", "int", 0, 60), nanosecond=sym("nanosecond", "int", 0, 999999999))
    r = ctx.run(d["read3"], [ms3_bytes(v)])
    if ctx.completes(R, "any header: returns", w, r):
        ctx.eq(R, "any header: instant", w, r.value, dt(inst(v["year"], v["dayOfYear"], v["hour"], v["minute"], v["second"], floor_(v["nanosecond"], 1000)), 0), r.state)
    for c in ALL:
        v = ms3_syms(**dict(TYP3, year=c[0], dayOfYear=c[1], hour=c[2], minute=c[3], second=c[4], nanosecond=c[5] * 1000, crc=0, identifierLength=0, extraHeadersLength=0, dataLength=0))
        r = ctx.run(d["read3"], [ms3_bytes(v)])
        if ctx.completes(R, f"{c}: returns", w, r):
            ctx.eq(R, f"{c}: instant", w, r.value, dt(inst(*c), 0), r.state)


def fields3(u):
    return tuple(dtf(n, u) for n in ("year", "yday", "hour", "minute", "second")) + (mul(1000, dtf("microsecond", u)),)


def fields2(u):
    return tuple(dtf(n, u) for n in ("year", "yday", "hour", "minute", "second")) + (floor_(dtf("microsecond", u), 100),)


def setter(ctx, d, w, v):
    """the stored fields are those of the instant in UTC, whatever zone it is given in"""
    R = f"C14.set{v}"
    fields = fields3 if v == 3 else fields2
    wall = sym("wall", "int", 0, 250000000 * 10**6 * 20)
    off = mul(SEC, sym("offset", "int", -86399, 86399))
    cases = [("naive", dt(wall, None), wall), ("UTC", dt(wall, 0), wall), ("any zone", dt(wall, off), sub(wall, off))]
    y, doy, h, m, s, us = (sym("year", "int", 1970, 2400), sym("yday", "int", 1, 365), sym("hour", "int", 0, 23), sym("minute", "int", 0, 59), sym("second", "int", 0, 59), sym("us", "int", 0, 999999))
    u = inst(y, doy, h, m, s, us)
    cases += [("naive fields", dt(u, None), u), ("UTC fields", dt(u, 0), u), ("zoned fields", dt(add(u, off), off), u)]
    for c in INST:
        n = pydt.datetime(*c)
        wl = (n.toordinal() - m_time.EPOCH) * DAY + n.hour * HOUR + n.minute * MIN + n.second * SEC + n.microsecond
        for o in (None,) + OFFS:
            cases.append((f"{c} at {o}", dt(wl, None if o is None else o * SEC), wl - (o or 0) * SEC))
    for lab, t, u in cases:
        r = ctx.run(d[f"set{v}"], [t])
        if ctx.returns(R, f"{lab}: accepted", w, r):
            ctx.eq(R, f"{lab}: stored UTC fields", w, r.value, fields(u), r.state)
        r = ctx.run(d[f"setget{v}"], [t])
        if ctx.returns(R, f"{lab}: returns", w, r):
            ctx.eq(R, f"{lab}: same instant read back", w, r.value, dt(u, 0), r.state)
        if v == 2:
            r = ctx.run(d["reset2"], [t])
            if ctx.returns(R, f"{lab}: set again", w, r):
                ctx.eq(R, f"{lab}: set again: instant and fields", w, r.value, (dt(u, 0), fields(u)), r.state)
            r = ctx.run(d["pack2"], [t])
            if ctx.returns(R, f"{lab}: packs", w, r):
                f = fields(u)
                ctx.eq(R, f"{lab}: packed time fields", w, ct.slice_(r.value, 20, 30, r.state.facts), ct.cat(*[ct.fld(c, ">", x) for c, x in zip("HHBBB", f[:5])], b"\0", ct.fld("H", ">", f[5])), r.state)


def text(ctx, d, w, v):
    R = f"C14.set{v}"
    fields = fields3 if v == 3 else fields2
    wall = sym("wall", "int", 0, 250000000 * 10**6 * 20)
    off = mul(SEC, sym("offset", "int", -86399, 86399))
    cases = [("ISO naive", mk("iso", wall, None, ty="str"), wall), ("ISO UTC", mk("iso", wall, 0, ty="str"), wall), ("ISO with Z", mk("isoz", wall, 0, ty="str"), wall),
             ("ISO any zone", mk("iso", wall, off, ty="str"), sub(wall, off))]
    for c in INST:
        n = pydt.datetime(*c)
        wl = (n.toordinal() - m_time.EPOCH) * DAY + n.hour * HOUR + n.minute * MIN + n.second * SEC + n.microsecond
        for o in OFFS:
            z = n.replace(tzinfo=pydt.timezone(pydt.timedelta(seconds=o))).isoformat()
            cases.append((z, z, wl - o * SEC))
        for z in (n.isoformat(), n.isoformat() + "Z", n.isoformat(sep=" ") + "Z", n.isoformat(timespec="microseconds")):
            cases.append((z, z, wl))
    cases += [("2024-02-29", "2024-02-29", (pydt.date(2024, 2, 29).toordinal() - m_time.EPOCH) * DAY)]
    for lab, t, u in cases:
        r = ctx.run(d[f"set{v}"], [t])
        if ctx.returns(R, f"{lab}: accepted", w, r):
            ctx.eq(R, f"{lab}: stored UTC fields", w, r.value, fields(u), r.state)
        r = ctx.run(d[f"setget{v}"], [t])
        if ctx.returns(R, f"{lab}: returns", w, r):
            ctx.eq(R, f"{lab}: same instant read back", w, r.value, dt(u, 0), r.state)
    for lab, t in (("int", 5), ("float", 1.5), ("None", None), ("tuple", (2024, 1))):
        r = ctx.run(d[f"set{v}"], [t])
        ctx.never_returns(R, f"{lab}: refused", w, r, MS3ERR if v == 3 else MS2ERR)


def span(p, n):
    """whole microseconds of n periods; p is (times, by)"""
    from ..m_num import round_
    x = mul(mul(SEC, mul(p[0], n)), 1 if isnum(p[1]) else inv(p[1]))
    x = div(x, p[1]) if isnum(p[1]) else x
    return round_(x)


def end3(ctx, d, w):
    R = "C14.end3"
    wall = sym("wall", "int", 0, 250000000 * 10**6 * 20)
    n = sym("n", "int", 0, 2**32 - 1)
    for lab, srp, p in (("any rate", sym("rate", "real", Fraction(1, 10**6), 10**6), None), ("any period", sym("period", "real", -10**5, -Fraction(1, 10**6)), None), ("nothing", 0, (0, 1)),
                        ("1 Hz", 1, (1, 1)), ("20 Hz", 20, (1, 20)), ("100.0 Hz", 100, (1, 100)), ("10 s", -10, (10, 1)), ("0.5 s", Fraction(-1, 2), (1, 2)), ("0.25 Hz", Fraction(1, 4), (4, 1)), ("1 s", -1, (1, 1))):
        if p is None:
            p = (1, srp) if lab == "any rate" else (neg(srp), 1)
        for k in (n, 0, 1, 2, 1000, 2**32 - 1):
            if lab == "any period" and k is not n and not isinstance(k, int):
                continue
            r = ctx.run(d["end3"], [dt(wall, 0), tofl(srp), k])
            con = f"{lab}, {show(k)} samples"
            if ctx.completes(R, f"{con}: returns", w, r):
                t = dt(add(wall, span(p, sub(k, 1))), 0)
                ctx.eq(R, f"{con}: end time", w, r.value, (t, t), r.state)


def tofl(x):
    return float(x) if isinstance(x, Fraction) else x


def get2(ctx, d, w):
    R = "C14.get2"
    args = [sym(n, "int", lo, hi) for n, lo, hi in (("year", 1970, 2400), ("yday", 1, 366), ("hour", 0, 23), ("minute", 0, 59), ("second", 0, 60), ("tm", 0, 9999))]
    for fn in ("get2", "rec2"):
        for a in [args] + [list(c[:5]) + [c[5] // 100] for c in ALL]:
            lab = "any fields" if a is args else str(a)
            t = dt(inst(*a[:5], mul(100, a[5])), 0)
            r = ctx.run(d[fn], a)
            if ctx.returns(R, f"{fn} {lab}: returns", w, r):
                ctx.eq(R, f"{fn} {lab}: instant", w, r.value, (t, tuple(a)) if fn == "get2" else t, r.state)


def read2(ctx, d, w):
    R = "C14.read2"
    v = ms2_syms(yday=sym("yday", "int", 1, 366), second=sym("second", "int", 0, 60))
    cases = [(o, "any header", v) for o in "<>"]
    for c in ALL:
        if 1970 <= c[0] <= 2047:
            x = dict(TYP2, year=c[0], yday=c[1], hour=c[2], minute=c[3], second=c[4], tenthMilli=c[5] // 100, numBlockettes=0, dataOffset=64, blocketteOffset=0)
            cases += [(o, str(c), x) for o in "<>"]
    for o, lab, v in cases:
        r = ctx.run(d["read2"], [ms2_bytes(v, o), o])
        if ctx.completes(R, f"{o} {lab}: returns", w, r):
            a = [v[k] for k in ("year", "yday", "hour", "minute", "second", "tenthMilli")]
            ctx.eq(R, f"{o} {lab}: instant and fields", w, r.value, (dt(inst(*a[:5], mul(100, a[5])), 0), tuple(a)), r.state)


def end2(ctx, d, w):
    R = "C14.end2"
    wall = sym("wall", "int", 0, 250000000 * 10**6 * 20)
    n = sym("n", "int", 0, 65535)
    for lab, rate in (("any rate", sym("rate", "real", Fraction(1, 10**6), 10**6)), ("1 Hz", 1), ("20 Hz", 20), ("0.25 Hz", Fraction(1, 4)), ("3 Hz", 3), ("48000 Hz", 48000), ("unknown rate", 0)):
        for k in (n, 0, 1, 2, 1000, 65535):
            if not rate:
                continue
            r = ctx.run(d["end2"], [dt(wall, 0), tofl(rate), k])
            con = f"{lab}, {show(k)} samples"
            if ctx.completes(R, f"{con}: returns", w, r):
                p = (1, rate) if isinstance(rate, T) else (Fraction(rate).denominator, Fraction(rate).numerator)
                ctx.eq(R, f"{con}: end and next start", w, r.value, tuple(dt(add(wall, span(p, x)), 0) for x in (sub(k, 1), k)), r.state)
    f, m = sym("f", "int", 1, 32767), sym("m", "int", 1, 32767)
    for lab, a, b, rate in (("f Hz times m", f, m, mul(f, m)), ("f Hz by m", f, neg(m), div(f, m)), ("m by f s", neg(f), m, div(m, f)), ("f s times m", neg(f), neg(m), div(1, mul(f, m)))):
        r = ctx.run(d["end2fm"], [dt(wall, 0), a, b, n])
        if ctx.completes(R, f"{lab}: returns", w, r):
            p = (1, rate)
            ctx.eq(R, f"{lab}: end and next start", w, r.value, tuple(dt(add(wall, span(p, x)), 0) for x in (sub(n, 1), n)), r.state)
