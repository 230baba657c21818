"""C12: the encoders and the record constructors are interpreted over arrays of every numpy
integer and float type, and over lists, with symbolic values: in range (including differences
that wrap in the narrow type), each sample in turn outside the 32-bit range on either side, a
float at each position of a list, two-dimensional and empty inputs.  A normal outcome must
hold every sample, otherwise only the library's errors may be raised; out-of-range, float,
multi-dimensional and empty inputs must not return."""
from .common import *
from .steim import *
from .steimenc import DRV, check_bytes

REC = """
from array import array
from simplemseed.mseed3 import MSeed3Header, MSeed3Record
from simplemseed.miniseed import MiniseedHeader, MiniseedRecord

def rec3(x, enc):
    h = MSeed3Header()
    h.encoding = enc
    r = MSeed3Record(h, "FDSN:XX_ABC__B_H_Z", x)
    return (r.header.encoding, r.header.numSamples, bytes(r.encodedDataBytes()))

def pack3(x, enc):
    h = MSeed3Header()
    h.encoding = enc
    r = MSeed3Record(h, "FDSN:XX_ABC__B_H_Z", x)
    b = bytes(r.pack())
    return (r.header.encoding, r.header.numSamples, b[58:])

def rec2(x, enc, bo):
    h = MiniseedHeader("XX", "ABC", "00", "BHZ", "2024-01-02T03:04:05Z", 0, 20, encoding=enc, byteorder=bo)
    r = MiniseedRecord(h, x)
    b = bytes(r.pack())
    return (r.header.encoding, r.header.numSamples, r.header.byteorder, b[b[44] * 256 + b[45]:])
"""

INT = {"int8": (-2**7, 2**7 - 1), "int16": (-2**15, 2**15 - 1), "int32": (-2**31, 2**31 - 1), "int64": (-2**63, 2**63 - 1),
       "uint8": (0, 2**8 - 1), "uint16": (0, 2**16 - 1), "uint32": (0, 2**32 - 1), "uint64": (0, 2**64 - 1)}
I32 = INT["int32"]
ERR3 = ("Miniseed3Exception", "CodecException")
ERR2 = ("MiniseedException", "CodecException")
WIDE = ("int64", "uint32", "uint64")


def arr(ctx, st, xs, dt, order="<"):
    return m_np.new_items(xs, m_np.dtype(dt, order), st, None)


def vals(dt, pairs):
    lo, hi = INT[dt]
    return [sym(f"x{i}", "int", max(lo, a), min(hi, b), npdt=dt) for i, (a, b) in enumerate(pairs)]


def swings(dt):
    """values whose differences do not fit the narrow type; differences of one size class each"""
    lo, hi = max(INT[dt][0], -2**28), min(INT[dt][1], 2**28 - 1)
    m = (hi - lo) // 8
    out = [((lo, lo + 3), (hi - 3, hi), (lo, lo + 3)), ((hi - 3, hi), (lo, lo + 3)), ((hi - 3, hi), (hi - 3, hi), (lo, lo + 2), (lo, lo + 2), (hi, hi))]
    return out


def check(ctx):
    ctx.I.unroll = 60
    for e in (10, 11):
        v = e - 9
        d = ctx.driver(DRV.format(v=v))
        w = ctx.where(ctx.get(f"steim{v}:encodeSteim{v}FrameBlock"))
        R = "C12.steim"
        for dt in INT:
            for order in "<>":
                attempt(ctx, R, f"{e} {order}{dt}", w, lambda: exact(ctx, d, w, e, dt, order))
            if dt in WIDE:
                attempt(ctx, R, f"{e} {dt} out of range", w, lambda: outside(ctx, d, w, e, dt))
            attempt(ctx, R, f"{e} {dt} any value", w, lambda: anyval(ctx, d, w, e, dt))
        attempt(ctx, R, f"{e} lists", w, lambda: lists(ctx, d, w, e))
        attempt(ctx, R, f"{e} floats", w, lambda: floats(ctx, d, w, e))
        attempt(ctx, R, f"{e} shapes", w, lambda: shapes(ctx, d, w, e))
    d = ctx.driver(REC)
    w3 = ctx.where(ctx.get("mseed3:MSeed3Record._internal_set_data"))
    w2 = ctx.where(ctx.get("miniseed:MiniseedRecord._internal_set_data"))
    for dt in INT:
        for order in "<>":
            attempt(ctx, "C12.ms3", f"{order}{dt}", w3, lambda: rec3(ctx, d, w3, dt, order))
            attempt(ctx, "C12.ms2", f"{order}{dt}", w2, lambda: rec2(ctx, d, w2, dt, order))
    attempt(ctx, "C12.ms3", "lists", w3, lambda: reclist(ctx, d, w3, 3))
    attempt(ctx, "C12.ms2", "lists", w2, lambda: reclist(ctx, d, w2, 2))
    attempt(ctx, "C12.ms3", "shapes", w3, lambda: recshape(ctx, d, w3, 3))
    attempt(ctx, "C12.ms2", "shapes", w2, lambda: recshape(ctx, d, w2, 2))
    ctx.floor("C12.steim", 500)
    ctx.floor("C12.ms3", 100)
    ctx.floor("C12.ms2", 50)


def exact(ctx, d, w, e, dt, order):
    for k, ps in enumerate(swings(dt)):
        xs = vals(dt, ps)
        st = ctx.state()
        r = ctx.run(d["encd"], [arr(ctx, st, xs, dt, order)], st=st)
        lab = f"Steim{e - 9} {order}{dt} swing {k}"
        if ctx.returns("C12.steim", f"{lab}: encodes", w, r):
            check_bytes(ctx, "C12.steim", lab, w, e, r.value, xs, 0, r.state)


def anyval(ctx, d, w, e, dt):
    """whatever the value, one sample is exact or refused"""
    xs = [sym("x0", "int", *INT[dt], npdt=dt)]
    st = ctx.state()
    r = ctx.run(d["encd"], [arr(ctx, st, xs, dt)], st=st)
    lab = f"Steim{e - 9} {dt} any value"
    ctx.only_raises("C12.steim", f"{lab}: errors", w, r, STEIMERR)
    if ctx.completes("C12.steim", f"{lab}: possible", w, r):
        st = r.state
        ctx.eq("C12.steim", f"{lab}: first sample", w, u("i", ">", r.value, 4, st.facts), xs[0], st)
        ctx.eq("C12.steim", f"{lab}: last sample", w, u("i", ">", r.value, 8, st.facts), xs[0], st)


def beyond(dt):
    lo, hi = INT[dt]
    out = [(2**31, 2**31), (2**31, min(hi, 2**40)), (hi, hi), (2**32, 2**32)]
    out += [(-2**31 - 1, -2**31 - 1), (-2**40, -2**31 - 1), (lo, lo), (-2**32, -2**32)]
    return [(a, b) for a, b in out if lo <= a <= b <= hi and (a > I32[1] or b < I32[0])]


def outside(ctx, d, w, e, dt):
    for rg in beyond(dt):
        for n in (1, 2, 4):
            for p in range(n):
                ps = [(max(INT[dt][0], -5), 5)] * n
                ps[p] = rg
                xs = [sym(f"x{i}", "int", *q, npdt=dt) for i, q in enumerate(ps)]
                st = ctx.state()
                r = ctx.run(d["encd"], [arr(ctx, st, xs, dt)], st=st)
                ctx.never_returns("C12.steim", f"Steim{e - 9} {dt} sample {p} of {n} in {rg}", w, r, STEIMERR)


def lists(ctx, d, w, e):
    for k, ps in enumerate(swings("int32") + swings("uint8") + [((5, 9),), ((-4, 4),) * 7]):
        xs = [sym(f"x{i}", "int", *q) for i, q in enumerate(ps)]
        for kn in ("list", "tuple"):
            st = ctx.state()
            data = ctx.I.new_list(list(xs), st) if kn == "list" else tuple(xs)
            r = ctx.run(d["encd"], [data], st=st)
            lab = f"Steim{e - 9} {kn} {k}"
            if ctx.returns("C12.steim", f"{lab}: encodes", w, r):
                check_bytes(ctx, "C12.steim", lab, w, e, r.value, xs, 0, r.state)
    for rg in beyond("int64"):
        for n in (1, 3):
            for p in range(n):
                ps = [(-5, 5)] * n
                ps[p] = rg
                st = ctx.state()
                r = ctx.run(d["encd"], [ctx.I.new_list([sym(f"x{i}", "int", *q) for i, q in enumerate(ps)], st)], st=st)
                ctx.never_returns("C12.steim", f"Steim{e - 9} list sample {p} of {n} in {rg}", w, r, STEIMERR)


def floats(ctx, d, w, e):
    for dt in ("float32", "float64"):
        for n in (1, 3):
            for kind in ("any", "whole"):
                st = ctx.state()
                xs = [sym(f"x{i}", "real") for i in range(n)] if kind == "any" else [1] * n
                r = ctx.run(d["encd"], [arr(ctx, st, xs, dt)], st=st)
                ctx.never_returns("C12.steim", f"Steim{e - 9} {dt} array of {n} ({kind}) refused", w, r, STEIMERR)
    for n in (1, 2, 3, 9):
        for p in range(n):
            for f in (sym("f", "real"), 2.5, -0.5):
                st = ctx.state()
                xs = [sym(f"x{i}", "int", -5, 5) for i in range(n)]
                xs[p] = f
                r = ctx.run(d["encd"], [ctx.I.new_list(xs, st)], st=st)
                ctx.never_returns("C12.steim", f"Steim{e - 9} list of {n} with float {show(f) if isinstance(f, T) else f} at {p} refused", w, r, STEIMERR)


def shapes(ctx, d, w, e):
    for dt in ("int32", "int16", "int64", "float64"):
        a = sym("x", "ndarray", dtype=dt, endian="<", ndim=2)
        r = ctx.run(d["encd"], [a])
        ctx.never_returns("C12.steim", f"Steim{e - 9} two-dimensional {dt} refused", w, r, STEIMERR)
        st = ctx.state()
        r = ctx.run(d["encd"], [arr(ctx, st, [], dt)], st=st)
        ctx.never_returns("C12.steim", f"Steim{e - 9} empty {dt} refused", w, r, STEIMERR)
    st = ctx.state()
    r = ctx.run(d["encd"], [ctx.I.new_list([], st)], st=st)
    ctx.never_returns("C12.steim", f"Steim{e - 9} empty list refused", w, r, STEIMERR)


PRIM = {"int16": (1, "h"), "int32": (3, "i")}


def rec3(ctx, d, w, dt, order):
    for enc in (-1, 1, 3):
        xs = vals(dt, ((-2**31, 2**31 - 1), (0, 3), (2**15, 2**31 - 1) if INT[dt][1] > 2**15 else (0, 9)))
        for fn in ("rec3", "pack3"):
            st = ctx.state()
            r = ctx.run(d[fn], [arr(ctx, st, xs, dt, order), enc], st=st)
            lab = f"{fn} {order}{dt} declared {enc}"
            ctx.only_raises("C12.ms3", f"{lab}: errors", w, r, ERR3)
            made = dt if dt in PRIM else "int32" if dt in WIDE else None
            if made and enc in (-1, PRIM[made][0]) and not ctx.completes("C12.ms3", f"{lab}: possible", w, r):
                continue
            if r.alive:
                holds(ctx, "C12.ms3", lab, w, r, xs, "<")
    if dt in WIDE:
        for rg in beyond(dt):
            for p in range(3):
                ps = [(max(INT[dt][0], -5), 5)] * 3
                ps[p] = rg
                st = ctx.state()
                r = ctx.run(d["rec3"], [arr(ctx, st, [sym(f"x{i}", "int", *q) for i, q in enumerate(ps)], dt, order), -1], st=st)
                ctx.never_returns("C12.ms3", f"{order}{dt} sample {p} in {rg}", w, r, ERR3)


def holds(ctx, rule, lab, w, r, xs, order, got=None):
    """payload of the declared encoding holds the samples"""
    e, n, data = (r.value[0], r.value[1], r.value[-1])
    st = r.state
    ctx.eq(rule, f"{lab}: sample count", w, n, len(xs), st)
    e = const_(e, st)
    if e not in (1, 3):
        return ctx.ok(rule, f"{lab}: encoding", w, None if isinstance(e, T) else False, f"encoding {e} for integers")
    code, size = ("h", 2) if e == 1 else ("i", 4)
    for i, x in enumerate(xs):
        ctx.eq(rule, f"{lab}: sample {i}", w, u(code, order, data, size * i, st.facts), x, st)


def const_(x, st):
    return simp(x, st.facts) if isinstance(x, T) else x


def rec2(ctx, d, w, dt, order):
    for enc in (-1, 1, 3):
        xs = vals(dt, ((-2**31, 2**31 - 1), (0, 3), (2**15, 2**31 - 1) if INT[dt][1] > 2**15 else (0, 9)))
        st = ctx.state()
        r = ctx.run(d["rec2"], [arr(ctx, st, xs, dt, order), enc, 1], st=st)
        lab = f"{order}{dt} declared {enc}"
        ctx.only_raises("C12.ms2", f"{lab}: errors", w, r, ERR2)
        if dt in PRIM and enc in (-1, PRIM[dt][0]) and not ctx.completes("C12.ms2", f"{lab}: possible", w, r):
            continue
        if r.alive:
            ctx.eq("C12.ms2", f"{lab}: byte order", w, r.value[2], 1 if order == ">" else 0, r.state)
            holds(ctx, "C12.ms2", lab, w, r, xs, order)


def reclist(ctx, d, w, v):
    ERR = ERR3 if v == 3 else ERR2
    run = (lambda x, enc, st: ctx.run(d["rec3"], [x, enc], st=st)) if v == 3 else (lambda x, enc, st: ctx.run(d["rec2"], [x, enc, 1], st=st))
    rule = f"C12.ms{v}"
    for enc, dt in ((1, "int16"), (3, "int32")):
        lo, hi = INT[dt]
        for n in (1, 3):
            st = ctx.state()
            xs = [sym(f"x{i}", "int", lo, hi) for i in range(n)]
            r = run(ctx.I.new_list(list(xs), st), enc, st)
            if ctx.returns(rule, f"list of {n} as {enc}: accepted", w, r):
                holds(ctx, rule, f"list of {n} as {enc}", w, r, xs, "<")
            for p in range(n):
                for rg in ((hi + 1, hi + 1), (lo - 1, lo - 1), (hi + 1, 2**40), (-2**40, lo - 1)):
                    st = ctx.state()
                    ys = list(xs)
                    ys[p] = sym("y", "int", *rg)
                    r = run(ctx.I.new_list(ys, st), enc, st)
                    ctx.never_returns(rule, f"list of {n} as {enc} with {rg} at {p}", w, r, ERR)
                for f in (sym("f", "real"), 2.5):
                    st = ctx.state()
                    ys = list(xs)
                    ys[p] = f
                    r = run(ctx.I.new_list(ys, st), enc, st)
                    ctx.never_returns(rule, f"list of {n} as {enc} with float {show(f) if isinstance(f, T) else f} at {p}", w, r, ERR)


def recshape(ctx, d, w, v):
    ERR = ERR3 if v == 3 else ERR2
    for dt in ("int32", "int16", "int64", "float64", "float32"):
        a = sym("x", "ndarray", dtype=dt, endian="<", ndim=2)
        r = ctx.run(d["rec3"], [a, -1]) if v == 3 else ctx.run(d["rec2"], [a, -1, 1])
        ctx.never_returns(f"C12.ms{v}", f"two-dimensional {dt} refused", w, r, ERR)
