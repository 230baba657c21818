"""C16: mseed3merge is interpreted on pairs of records: with symbolic identifiers, rates,
versions, start times and payloads (the condition under which one record comes back is
compared with the specification as a decision tree), and over constant pairs that differ in
one respect or sit on either side of the time tolerance.  Merged records are compared field by
field with the first record, their payload with the concatenation; otherwise the very same two
objects must come back, unchanged."""
from .common import *
from ..m_time import dt, SEC
from ..m_num import round_

DRV = """
from simplemseed.mseed3 import MSeed3Header, MSeed3Record, mseed3merge, areCompatible

def rec(i, srp, enc, pub, t, n, data, eh, flags):
    h = MSeed3Header()
    h.sampleRatePeriod = srp
    h.encoding = enc
    h.publicationVersion = pub
    h.starttime = t
    h.numSamples = n
    h.flags = flags
    return MSeed3Record(h, i, data, eh)

def snap(r):
    h = r.header
    return (r.identifier, h.flags, h.sampleRatePeriod, h.encoding, h.publicationVersion, h.starttime, h.numSamples, bytes(r.encodedDataBytes()), r.eh)

def two(a, b):
    x = rec(*a)
    y = rec(*b)
    s = snap(x)
    t = snap(y)
    out = mseed3merge(x, y)
    return (len(out), out[0] is x, out[-1] is y, snap(out[0]), s == snap(x), t == snap(y), out[0].header is x.header)

def n(a, b):
    return len(mseed3merge(rec(*a), rec(*b)))

def one(a):
    x = rec(*a)
    p = mseed3merge(None, x)
    q = mseed3merge(x, None)
    return (len(p), p[0] is x, len(q), q[0] is x)

def comp(a, b):
    return areCompatible(rec(*a), rec(*b))
"""
T0 = 1700000000 * 10**6
ID = "FDSN:XX_ABC__B_H_Z"
SIZE = {1: 2, 3: 4, 4: 4, 5: 8}


def period(srp):
    return Fraction(-srp) if srp < 0 else 1 / Fraction(srp) if srp else Fraction(0)


def check(ctx):
    ctx.I.unroll = 20
    d = ctx.driver(DRV)
    w = ctx.where(ctx.get("mseed3:mseed3merge"))
    wc = ctx.where(ctx.get("mseed3:areCompatible"))
    for enc in (1, 3, 4, 5):
        attempt(ctx, "C16.merged", f"encoding {enc}", w, lambda: merged(ctx, d, w, enc))
        attempt(ctx, "C16.kept", f"encoding {enc}", w, lambda: kept(ctx, d, w, enc))
    for srp in (20, 1, 100, -10, Fraction(1, 4), Fraction(-1, 2), 3, -60, 500, 1237, 4000, 10000, -3600, 7, -7):
        attempt(ctx, "C16.time", f"rate {float(srp)}", wc, lambda: times(ctx, d, wc, srp))
    attempt(ctx, "C16.codecs", "encodings", w, lambda: codecs(ctx, d, w))
    attempt(ctx, "C16.cond", "any pair", wc, lambda: cond(ctx, d, wc))
    attempt(ctx, "C16.one", "one record", w, lambda: one(ctx, d, w))
    for n, k in (("merged", 60), ("kept", 60), ("time", 1000), ("codecs", 8), ("cond", 8), ("one", 2)):
        ctx.floor("C16." + n, k)


def fl(x):
    return float(x) if isinstance(x, Fraction) else x


def rec(enc=3, i=ID, srp=20, pub=1, t=T0, n=2, data=None, eh=None, flags=0, p="a"):
    if data is None:
        data = bsym(p + "data", SIZE.get(enc, 4) * n) if isinstance(n, int) else bsym(p + "data", 16)
    return (i, fl(srp), enc, pub, dt(t, 0), n, data, eh, flags)


def merged(ctx, d, w, enc):
    R = "C16.merged"
    for srp in (20, -10):
        for n, m in ((2, 3), (1, 1), (5, 2), (2, 0)):
            for pub, flags, i in ((1, 0, ID), (sym("pub", "int", 0, 255), sym("flags", "int", 0, 255), ID), (7, 4, sym("id", "str", n=12))):
                st = ctx.state()
                for ehl, eh, want in (("none", None, None), ("a dict", "D", "D"), ("text", '{"FDSN":{"Time":{"Quality":5}}}', "D2"), ("as the second", '{"other":1}', "D3")):
                    st = ctx.state()
                    if eh == "D":
                        eh_ = ctx.I.new_dict([("a", 5, True)], st)
                    else:
                        eh_ = eh
                    a = rec(enc, i, srp, pub, T0, n, None, eh_, flags, "a")
                    b = rec(enc, i, srp, pub, T0 + int(period(srp) * n * SEC), m, None, '{"other":1}', 3, "b")
                    r = ctx.run(d["two"], [a, b], st=st)
                    lab = f"encoding {enc} {srp} {n}+{m} samples, version {show(pub)}, headers {ehl}, id {show(i)}"
                    if not ctx.completes(R, f"{lab}: returns", w, r):
                        continue
                    s, v = r.state, r.value
                    ctx.eq(R, f"{lab}: one record, both originals unchanged", w, (v[0], v[4], v[5], v[6]), (1, True, True, False), s)
                    if not isinstance(v[3], tuple):
                        ctx.ok(R, f"{lab}: described", w, None)
                        continue
                    ctx.eq(R, f"{lab}: identifier, flags, rate, encoding, version, start", w, v[3][:6], (i, flags, fl(srp), enc, pub, dt(T0, 0)), s)
                    ctx.eq(R, f"{lab}: samples", w, v[3][6], n + m, s)
                    ctx.eq(R, f"{lab}: payload", w, v[3][7], ct.cat(a[6], b[6]), s)
                    ctx.eq(R, f"{lab}: extra headers", w, M_freeze(v[3][8], s), jd({None: None, "D": {"a": 5}, "D2": {"FDSN": {"Time": {"Quality": 5}}}, "D3": {"other": 1}}[want]), s)
    # samples held as arrays
    for n, m in ((2, 3),):
        st = ctx.state()
        code, name = {1: ("h", "int16"), 3: ("i", "int32"), 4: ("f", "float32"), 5: ("d", "float64")}[enc]
        xs, ys = [fsym(f"x{k}", code) for k in range(n)], [fsym(f"y{k}", code) for k in range(m)]
        a = rec(enc, n=n, data=m_np.new_items(xs, m_np.dtype(name, "<"), st, None))
        b = rec(enc, n=m, t=T0 + n * 50000, data=m_np.new_items(ys, m_np.dtype(name, ">"), st, None))
        r = ctx.run(d["two"], [a, b], st=st)
        lab = f"encoding {enc} arrays"
        if ctx.completes(R, f"{lab}: returns", w, r):
            ctx.eq(R, f"{lab}: one record, both originals unchanged", w, (r.value[0], r.value[4], r.value[5]), (1, True, True), r.state)
            ctx.eq(R, f"{lab}: samples", w, r.value[3][6], n + m, r.state)
            ctx.eq(R, f"{lab}: payload", w, r.value[3][7], ct.cat(*[ct.fld(code, "<", x) for x in xs + ys]), r.state)


def M_freeze(v, st):
    from .. import models as M
    return M.freeze(v, st)


def jd(x):
    if isinstance(x, dict):
        return mk("dictv", tuple((k, jd(v), True) for k, v in x.items()), ty="dictv")
    if isinstance(x, list):
        return mk("seqv", tuple(jd(v) for v in x), ty="seq")
    return x


def kept(ctx, d, w, enc):
    R = "C16.kept"
    nx = T0 + 2 * 50000
    base = dict(enc=enc, t=nx, n=3, p="b")
    cases = [("other identifier", dict(i="FDSN:XX_ABC__B_H_N")), ("longer identifier", dict(i=ID + "Z")), ("other rate", dict(srp=40)), ("period instead of rate", dict(srp=-20)),
             ("nearly the rate", dict(srp=Fraction("20.001"))), ("other version", dict(pub=2)), ("much later", dict(t=nx + 10**9)), ("earlier", dict(t=T0 - 10**9)), ("same time", dict(t=T0)),
             ("overlap by one", dict(t=nx - 50000)), ("gap of one", dict(t=nx + 50000)), ("before by its length", dict(t=T0 - 3 * 50000)), ("a day later", dict(t=nx + 86400 * 10**6)), ("a day and a year before", dict(t=nx - 366 * 86400 * 10**6))]
    for oth in (1, 3, 4, 5, 10, 11, 0):
        if oth != enc:
            cases.append((f"encoding {oth}", dict(enc=oth, data=b"\1" * 16)))
    for lab, kw in cases:
        a = rec(enc, flags=2, eh='{"a":1}')
        b = rec(**dict(base, **kw))
        r = ctx.run(d["two"], [a, b])
        con = f"encoding {enc} {lab}"
        if ctx.completes(R, f"{con}: returns", w, r):
            v = r.value
            ctx.eq(R, f"{con}: both originals, in order, unchanged", w, (v[0], v[1], v[2], v[4], v[5]), (2, True, True, True, True), r.state)
        r = ctx.run(d["comp"], [a, b])
        if ctx.returns(R, f"{con}: compatibility returns", w, r):
            ctx.eq(R, f"{con}: not compatible", w, r.value, False, r.state)


def times(ctx, d, w, srp):
    """either side of the tolerance, in both directions"""
    R = "C16.time"
    p = period(srp) * SEC
    for n in (1, 2, 3, 100, 4096):
        for f in (0, Fraction(1, 10), Fraction(49, 100), Fraction(51, 100), Fraction(99, 100), 2, -Fraction(1, 10), -Fraction(49, 100), -Fraction(51, 100), -Fraction(99, 100), -2, -n - 1):
            t = T0 + int(p * n + p * f)
            a = rec(3, srp=srp, n=n, data=b"\0" * 8)
            b = rec(3, srp=srp, n=7, t=t, data=b"\1" * 28)
            want = abs(f) < Fraction(1, 2)
            for fn, x in (("comp", want), ("n", 1 if want else 2)):
                r = ctx.run(d[fn], [a, b])
                con = f"rate {float(srp)}, {n} samples, {float(f)} periods off ({fn})"
                if ctx.returns(R, f"{con}: returns", w, r):
                    ctx.eq(R, f"{con}: {'merged' if want else 'kept'}", w, r.value, x, r.state)


def codecs(ctx, d, w):
    R = "C16.codecs"
    for enc in (0, 10, 11, 19, 30, 32, 100, 255, sym("enc", "int", 6, 255)):
        a = rec(enc, n=2, data=b"\0" * 64)
        b = rec(enc, n=3, t=T0 + 100000, data=b"\1" * 64)
        r = ctx.run(d["two"], [a, b])
        if ctx.completes(R, f"encoding {show(enc)}: returns", w, r):
            v = r.value
            ctx.eq(R, f"encoding {show(enc)}: both originals, in order, unchanged", w, (v[0], v[1], v[2], v[4], v[5]), (2, True, True, True, True), r.state)


def cond(ctx, d, w):
    """the condition as a decision tree over symbolic values, one respect at a time"""
    R = "C16.cond"
    i, j = sym("idA", "str"), sym("idB", "str")
    p, q = sym("pubA", "int", 0, 255), sym("pubB", "int", 0, 255)
    g = sym("gap", "int", -10**9, 10**9)
    s = sym("srpB", "real", -10**6, 10**6)
    e = sym("encB", "int", 1, 5)
    for enc in (1, 3, 4, 5):
        for lab, ka, kb, want in (
                ("identifiers", dict(i=i), dict(i=j), mk("eqv", i, j, ty="bool")),
                ("versions", dict(pub=p), dict(pub=q), cmp_("==", p, q)),
                ("rates", dict(), dict(srp=s), cmp_("==", s, 20)),
                ("encodings", dict(), dict(enc=e), cmp_("==", e, enc)),
                ("start times", dict(), dict(t=add(T0 + 100000, g)), and_(cmp_("<", g, 25000), cmp_(">", g, -25000)))):
            a = rec(enc, n=2, data=b"\0" * 16, **ka)
            b = rec(**dict(dict(enc=enc, n=3, t=T0 + 100000, data=b"\1" * 24), **kb))
            r = ctx.run(d["n"], [a, b])
            if ctx.completes(R, f"encoding {enc} {lab}: returns", w, r):
                ctx.eq(R, f"encoding {enc} {lab}: merged exactly when allowed", w, r.value, ite(want, 1, 2), r.state)


def one(ctx, d, w):
    r = ctx.run(d["one"], [rec(3)])
    if ctx.returns("C16.one", "one record: returns", w, r):
        ctx.eq("C16.one", "one record: itself", w, r.value, (1, True, 1, True), r.state)
