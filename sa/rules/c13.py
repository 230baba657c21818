"""C13: the record constructors of both formats are interpreted over every kind of data
(numpy arrays of every type and both byte orders, array.array, list, encoded segment, bytes,
nothing, and unsupported objects) of symbolic and fixed lengths, against header encodings and
counts that are unset, right, wrong, and symbolic.  A constructed record's header must hold
the encoding and count of its data; a different declaration must raise the format's error."""
from .common import *

DRV = """
from array import array
import numpy as np
from simplemseed.mseed3 import MSeed3Header, MSeed3Record
from simplemseed.miniseed import MiniseedHeader, MiniseedRecord
from simplemseed.seedcodec import EncodedDataSegment

def rec3(x, enc, n):
    h = MSeed3Header()
    h.encoding = enc
    h.numSamples = n
    r = MSeed3Record(h, "FDSN:XX_ABC__B_H_Z", x)
    return (r.header.encoding, r.header.numSamples, h.encoding, h.numSamples)

def def3(x):
    r = MSeed3Record(MSeed3Header(), "FDSN:XX_ABC__B_H_Z", x)
    return (r.header.encoding, r.header.numSamples)

def rec2(x, enc, n):
    h = MiniseedHeader("XX", "ABC", "00", "BHZ", "2024-01-02T03:04:05Z", n, 20, encoding=enc)
    r = MiniseedRecord(h, x)
    return (r.header.encoding, r.header.numSamples, h.encoding, h.numSamples)

def def2(x):
    h = MiniseedHeader("XX", "ABC", "00", "BHZ", "2024-01-02T03:04:05Z", 0, 20)
    r = MiniseedRecord(h, x)
    return (r.header.encoding, r.header.numSamples)

def seg(f, e, b, k, le, enc, n):
    return f(EncodedDataSegment(e, b, k, le), enc, n)
"""
ERR = {3: MS3ERR, 2: MS2ERR}
CODE = {"int16": 1, "int32": 3, "float32": 4, "float64": 5}
WIDE = {"int64", "uint32", "uint64"}
ENCS = (-1, 0, 1, 3, 4, 5, 10, 11, 19, 100)


def declared(e, n):
    """header states: (encoding, count)"""
    for he in ENCS:
        yield he, 0
    other = 3 if e != 3 else 4
    for he in (-1, e, other):
        for hn in ((n, n + 1, n - 1 if n else 7, 2**32 - 1) if isinstance(n, int) else (1,)):
            if hn:
                yield he, hn


def one(ctx, rule, lab, w, v, fn, mkdata, e, n):
    """data of encoding e and count n against header states"""
    for he, hn in declared(e, n):
        if v == 2 and hn > 2**16 - 1:
            continue
        st = ctx.state()
        r = ctx.run(fn, [mkdata(st), he, hn], st=st)
        con = f"{lab} in a header of encoding {he}, {hn} samples"
        if not (he in (-1, e) and hn in (0, n)) and isinstance(n, int):
            ctx.never_returns(rule, f"{con}: refused", w, r, ERR[v])
        elif not isinstance(n, int) and he not in (-1, e):
            ctx.never_returns(rule, f"{con}: refused", w, r, ERR[v])
        else:
            if isinstance(n, int):
                if not ctx.returns(rule, f"{con}: accepted", w, r):
                    continue
            else:
                ctx.only_raises(rule, f"{con}: errors", w, r, ERR[v])
                if not ctx.completes(rule, f"{con}: accepted", w, r):
                    continue
            ctx.eq(rule, f"{con}: header", w, r.value, (e, n, e, n), r.state)
    # the declared count is any value
    hn = sym("hn", "int", 0, 2**32 - 1 if v == 3 else 2**16 - 1)
    st = ctx.state()
    r = ctx.run(fn, [mkdata(st), e, hn], st=st)
    con = f"{lab} in a header of any count"
    ctx.only_raises(rule, f"{con}: errors", w, r, ERR[v])
    if ctx.completes(rule, f"{con}: possible", w, r):
        ctx.eq(rule, f"{con}: header", w, r.value, (e, n, e, n), r.state)
    he = sym("he", "int", -1, 255)
    st = ctx.state()
    r = ctx.run(fn, [mkdata(st), he, 0], st=st)
    con = f"{lab} in a header of any encoding"
    ctx.only_raises(rule, f"{con}: errors", w, r, ERR[v])
    if ctx.completes(rule, f"{con}: possible", w, r):
        ctx.eq(rule, f"{con}: header", w, r.value, (e, n, e, n), r.state)


def check(ctx):
    d = ctx.driver(DRV)
    W = {3: ctx.where(ctx.get("mseed3:MSeed3Record._internal_set_data")), 2: ctx.where(ctx.get("miniseed:MiniseedRecord._internal_set_data"))}
    for v in (3, 2):
        w = W[v]
        R = f"C13.ms{v}"
        fn = d[f"rec{v}"]
        for dt in m_np.DT:
            for en in "<>":
                attempt(ctx, R, f"numpy {en}{dt}", w, lambda: nparr(ctx, R, w, v, fn, d, dt, en))
        for tc, sz in (("h", 2), ("i", 4), ("l", 4), ("f", 4), ("d", 8)):
            attempt(ctx, R, f"array {tc}{sz}", w, lambda: pyarr(ctx, R, w, v, fn, tc, sz))
        for tc, sz in (("b", 1), ("B", 1), ("H", 2), ("I", 4), ("l", 8), ("L", 8), ("q", 8), ("Q", 8)):
            attempt(ctx, R, f"array {tc}{sz}", w, lambda: badarr(ctx, R, w, v, fn, tc, sz))
        for e in (1, 3, 4, 5):
            attempt(ctx, R, f"list as {e}", w, lambda: lst(ctx, R, w, v, fn, e))
        attempt(ctx, R, "default list", w, lambda: deflist(ctx, R, w, v, d))
        attempt(ctx, R, "list of no encoding", w, lambda: badlist(ctx, R, w, v, fn))
        attempt(ctx, R, "segment", w, lambda: segment(ctx, R, w, v, d))
        attempt(ctx, R, "bytes", w, lambda: raw(ctx, R, w, v, fn))
        attempt(ctx, R, "unsupported", w, lambda: unsup(ctx, R, w, v, fn))
    ctx.floor("C13.ms3", 1000)
    ctx.floor("C13.ms2", 800)


def val(dt, i):
    if dt.startswith("float"):
        return sym(f"x{i}", "real")
    if dt == "bool":
        return sym(f"x{i}", "bool")
    return sym(f"x{i}", "int", 0 if dt[0] == "u" else -100, 100)


def nparr(ctx, R, w, v, fn, d, dt, en):
    e = CODE.get(dt, 3 if v == 3 and dt in WIDE else None)
    if e is None:
        for n in (0, 1, 3):
            for he in ENCS:
                for hn in (0, n):
                    st = ctx.state()
                    try:
                        a = m_np.new_items([val(dt, i) for i in range(n)], m_np.dtype(dt, en), st, None)
                    except KeyError:
                        return
                    r = ctx.run(fn, [a, he, hn], st=st)
                    ctx.never_returns(R, f"numpy {en}{dt} of {n} in a header of encoding {he}, {hn} samples: no such encoding", w, r, ERR[v] | UNSUP)
        return
    for n in (0, 1, 3):
        one(ctx, R, f"numpy {en}{dt} of {n}", w, v, fn, lambda st: m_np.new_items([val(dt, i) for i in range(n)], m_np.dtype(dt, en), st, None), e, n)
        if v == 2 or dt not in WIDE:
            st = ctx.state()
            r = ctx.run(d[f"def{v}"], [m_np.new_items([val(dt, i) for i in range(n)], m_np.dtype(dt, en), st, None)], st=st)
            if ctx.returns(R, f"numpy {en}{dt} of {n} in a new header: accepted", w, r):
                ctx.eq(R, f"numpy {en}{dt} of {n} in a new header", w, r.value, (e, n), r.state)
    if dt not in WIDE:
        a = sym("a", "ndarray", dtype=dt, endian=en, ndim=1)
        one(ctx, R, f"numpy {en}{dt} of any length", w, v, fn, lambda st: a, e, mk("alen", a, ty="int"))


def pyarr(ctx, R, w, v, fn, tc, sz):
    a = sym("pa", "pyarr", typecode=tc, itemsize=sz)
    e = {"h": 1, "i": 3, "l": 3, "f": 4, "d": 5}[tc]
    one(ctx, R, f"array {tc} of any length", w, v, fn, lambda st: a, e, mk("alen", a, ty="int"))


def badarr(ctx, R, w, v, fn, tc, sz):
    a = sym("pa", "pyarr", typecode=tc, itemsize=sz)
    for he in ENCS:
        r = ctx.run(fn, [a, he, 0])
        ctx.never_returns(R, f"array {tc} of {sz} byte items in a header of encoding {he}: no such encoding", w, r, ERR[v] | UNSUP)


def lst(ctx, R, w, v, fn, e):
    for n in (0, 1, 3):
        for k in ("int", "float"):
            if e in (1, 3) and k == "float":
                continue
            xs = [sym(f"x{i}", "int", -100, 100) if k == "int" else sym(f"x{i}", "real") for i in range(n)]
            for hn in (0, n, n + 1, n - 1 if n else 9):
                st = ctx.state()
                r = ctx.run(fn, [ctx.I.new_list(list(xs), st), e, hn], st=st)
                con = f"list of {n} {k}s as {e}, {hn} samples declared"
                if hn in (0, n):
                    if ctx.returns(R, f"{con}: accepted", w, r):
                        ctx.eq(R, f"{con}: header", w, r.value, (e, n, e, n), r.state)
                else:
                    ctx.never_returns(R, f"{con}: refused", w, r, ERR[v])


def deflist(ctx, R, w, v, d):
    for n in (0, 1, 3):
        st = ctx.state()
        r = ctx.run(d[f"def{v}"], [ctx.I.new_list([sym(f"x{i}", "real") for i in range(n)], st)], st=st)
        if ctx.returns(R, f"list of {n} in a new header: accepted", w, r):
            ctx.eq(R, f"list of {n} in a new header: a float encoding and its count", w, r.value, (4, n), r.state)


def badlist(ctx, R, w, v, fn):
    for he in (0, 2, 10, 11, 12, 19, 30, 100):
        st = ctx.state()
        r = ctx.run(fn, [ctx.I.new_list([sym("x", "int", -100, 100)], st), he, 0], st=st)
        ctx.never_returns(R, f"list in a header of encoding {he}: refused", w, r, ERR[v] | UNSUP)


def segment(ctx, R, w, v, d):
    for e in (0, 1, 3, 4, 5, 10, 11, 19):
        for n in (0, 1, 5):
            for le in (True, False):
                b = bsym("b", 64)
                for he, hn in declared(e, n):
                    if v == 2 and hn > 2**16 - 1:
                        continue
                    r = ctx.run(d["seg"], [d[f"rec{v}"], e, b, n, le, he, hn])
                    con = f"segment of encoding {e}, {n} samples, {'little' if le else 'big'} endian in a header of encoding {he}, {hn} samples"
                    if he in (-1, e) and hn in (0, n):
                        if ctx.returns(R, f"{con}: accepted", w, r):
                            ctx.eq(R, f"{con}: header", w, r.value, (e, n, e, n), r.state)
                    else:
                        ctx.never_returns(R, f"{con}: refused", w, r, ERR[v])
    e, n, le, he, hn = sym("e", "int", 0, 255), sym("n", "int", 1, 65535), (sym("le", "bool") if v == 2 else True), sym("he", "int", -1, 255), sym("hn", "int", 0, 65535)
    for lab, a, b_ in (("nothing declared", -1, 0), ("encoding declared", he, 0), ("count declared", -1, hn), ("both declared", he, hn), ("its encoding declared", e, 0), ("its count declared", -1, n), ("both its own", e, n)):
        r = ctx.run(d["seg"], [d[f"rec{v}"], e, bsym("b", 64), n, le, a, b_])
        con = f"any segment, {lab}"
        ctx.only_raises(R, f"{con}: errors", w, r, ERR[v])
        if lab in ("nothing declared", "its encoding declared", "its count declared", "both its own") and not ctx.returns(R, f"{con}: accepted", w, r):
            continue
        if ctx.completes(R, f"{con}: possible", w, r):
            ctx.eq(R, f"{con}: header", w, r.value, (e, n, e, n), r.state)


def raw(ctx, R, w, v, fn):
    for he in (0, 1, 3, 4, 5, 10, 11, 19, 100, sym("he", "int", 0, 255)):
        for hn in (0, 1, 500, 65535, sym("hn", "int", 0, 65535)):
            for k in (0, 8, 64):
                for ba in (False, True):
                    st = ctx.state()
                    b = bsym("b", k)
                    x = m_bytes.new_ba(b, st, None) if ba else b
                    r = ctx.run(fn, [x, he, hn], st=st)
                    con = f"{k} bytes{' as bytearray' if ba else ''} in a header of encoding {show(he)}, {show(hn)} samples"
                    if ctx.returns(R, f"{con}: accepted", w, r):
                        ctx.eq(R, f"{con}: declaration kept", w, r.value, (he, hn, he, hn), r.state)


def unsup(ctx, R, w, v, fn):
    for lab, x in (("str", "abc"), ("any str", sym("s", "str")), ("int", 5), ("float", 1.5), ("dict", {}), ("tuple", (1, 2)), ("bool", True)):
        for he in (-1, 3, 4):
            for hn in (0, 2):
                st = ctx.state()
                y = ctx.I.new_dict([], st) if lab == "dict" else x
                r = ctx.run(fn, [y, he, hn], st=st)
                ctx.never_returns(R, f"{lab} as data with encoding {he}, {hn} samples: refused", w, r, ERR[v])
    if v == 2:
        return
    for he in (-1, 0):
        st = ctx.state()
        r = ctx.run(fn, [None, he, 0], st=st)
        if ctx.returns(R, f"no data with encoding {he}: accepted", w, r):
            ctx.ok(R, f"no data with encoding {he}: no samples", w, r.value[1] == 0, f"{show(r.value[1])} samples")
