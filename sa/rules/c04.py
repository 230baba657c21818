"""C04: parsers and readers are interpreted over record bytes cut short.  The miniSEED 3
parser is run over a header with symbolic section lengths followed by a free rest, and its
normal outcome must entail that the rest holds all three sections; the readers are run over
every cut point of records with fixed section lengths (all header fields and section bytes
symbolic), alone, after another record, filtered and merging, with CRC checking on and off.
miniSEED 2 records with one to three blockettes, with and without data, are cut at every
byte.  Each cut must raise the format's exception and nothing else; cut 0 must end normally."""
from .common import *
from .c03 import frec, A, B, steim_samples

DRV = """
from io import BytesIO
from simplemseed.mseed3 import readMSeed3Records, unpackMSeed3Record
from simplemseed.miniseed import readMiniseed2Records, unpackMiniseedRecord

def one(c, check):
    return unpackMSeed3Record(c, check_crc=check)

def first(c, check):
    return next(readMSeed3Records(BytesIO(c), check_crc=check))

def every(c, check, matchsid=None, merge=False):
    out = []
    for r in readMSeed3Records(BytesIO(c), check_crc=check, matchsid=matchsid, merge=merge):
        out.append(r)
    return out

def one2(c):
    return unpackMiniseedRecord(c)

def first2(c):
    return next(readMiniseed2Records(BytesIO(c)))

def every2(c, matchsid=None):
    out = []
    for r in readMiniseed2Records(BytesIO(c), matchsid=matchsid):
        out.append(r)
    return out
"""


def check(ctx):
    ctx.I.inline_gens = True
    ctx.I.unroll = 12
    d = ctx.driver(DRV)
    wp = ctx.where(ctx.get("mseed3:unpackMSeed3Record"))
    wr = ctx.where(ctx.get("mseed3:readMSeed3Records"))
    w2p = ctx.where(ctx.get("miniseed:unpackMiniseedRecord"))
    w2 = ctx.where(ctx.get("miniseed:readMiniseed2Records"))
    for chk in (True, False):
        attempt(ctx, "C04.ms3free", f"parser check_crc={chk}", wp, lambda: free(ctx, d, wp, chk))
    shapes = ((3, 2, 5), (3, 0, 5), (3, 2, 0), (1, 0, 0))
    for chk in (True, False):
        for sh in shapes:
            attempt(ctx, "C04.ms3cut", f"check_crc={chk} {sh}", wr, lambda: cut3(ctx, d, wp, wr, chk, sh))
        attempt(ctx, "C04.ms3stream", f"check_crc={chk}", wr, lambda: stream3(ctx, d, wr, chk))
    for enc in (1, 3, 4, 5, 10, 19, 0):
        attempt(ctx, "C04.ms3merge", f"encoding {enc}", wr, lambda: merge3(ctx, d, wr, enc))
    for order in "<>":
        for lab, kw in variants(order):
            attempt(ctx, "C04.ms2cut", f"{order} {lab}", w2, lambda: cut2(ctx, d, w2p, w2, order, lab, kw))
    ctx.floor("C04.ms3free", 2)
    ctx.floor("C04.ms3cut", 700)
    ctx.floor("C04.ms3stream", 100)
    ctx.floor("C04.ms3merge", 14)
    ctx.floor("C04.ms2cut", 700)


def free(ctx, d, w, chk):
    v = ms3_syms()
    rest = sym("rest", "bytes")
    r = ctx.run(d["one"], [ct.cat(ms3_bytes(v), rest), chk])
    tot = add(add(v["identifierLength"], v["extraHeadersLength"]), v["dataLength"])
    lab = f"check_crc={chk}"
    if not r.alive:
        return ctx.completes("C04.ms3free", f"{lab}: accepts whole records", w, r)
    ctx.holds("C04.ms3free", f"{lab}: sections are complete", w, cmp_("<=", tot, ct.clen(rest, r.state.facts)), r.state)
    ctx.only_raises("C04.ms3free", f"{lab}: error kind", w, r, MS3ERR)


def cut3(ctx, d, wp, wr, chk, sh):
    v, rest, c = frec("r.", None, *sh)
    n = 40 + sum(sh)
    for k in range(n):
        part = sl(c, 0, k)
        lab = f"check_crc={chk} {sh} cut at {k}"
        r = ctx.run(d["one"], [part, chk])
        ctx.never_returns("C04.ms3cut", f"parser {lab}", wp, r, MS3ERR)
        r = ctx.run(d["every"], [part, chk])
        if k == 0:
            ends(ctx, "C04.ms3cut", f"reader {lab}", wr, r, 0)
            continue
        ctx.never_returns("C04.ms3cut", f"reader {lab}", wr, r, MS3ERR)
        r = ctx.run(d["first"], [part, chk])
        ctx.never_returns("C04.ms3cut", f"first of reader {lab}", wr, r, MS3ERR)


def ends(ctx, rule, con, w, r, n):
    """iteration ends normally with n records"""
    if r.raises:
        return ctx.only_raises(rule, con, w, r, set())
    got = r.state.heap[r.value]["items"] if r.alive else None
    ctx.ok(rule, con, w, isinstance(got, tuple) and len(got) == n, "iteration does not end normally at a record boundary")


def stream3(ctx, d, w, chk):
    a, b = frec("a.", A), frec("b.", B)
    n = 40 + len(B) + 7
    for k in list(range(1, n)):
        c = ct.cat(a[2], sl(b[2], 0, k))
        r = ctx.run(d["every"], [c, chk])
        ctx.never_returns("C04.ms3stream", f"check_crc={chk} second record cut at {k}", w, r, MS3ERR)
        if k in (1, 39, 40, 41, 59, 60, 61, 62, 66):
            r = ctx.run(d["every"], [c, chk, "YY_"])
            ctx.never_returns("C04.ms3stream", f"check_crc={chk} filtered, second record cut at {k}", w, r, MS3ERR)


def merge3(ctx, d, w, enc):
    if enc in (10, 11, 19):
        for q in ("steim1:decodeSteim1", "steim2:decodeSteim2"):
            ctx.I.call_hooks[q] = steim_samples
    try:
        fx = dict(encoding=enc, numSamples={1: 4, 3: 2, 4: 2, 5: 1}.get(enc, 4))
        a, b = (frec(p, A, nd=8, **fx) for p in ("a.", "b."))
        n = 40 + len(A) + 2 + 8
        for k in (1, 40, 41, 60, 61, 62, 63, n - 1):
            r = ctx.run(d["every"], [sl(a[2], 0, k), False, None, True])
            ctx.never_returns("C04.ms3merge", f"encoding {enc} cut at {k}", w, r, MS3ERR)
        for k in (1, 41, n - 1):
            r = ctx.run(d["every"], [ct.cat(a[2], sl(b[2], 0, k)), False, None, True])
            ctx.never_returns("C04.ms3merge", f"encoding {enc} second record cut at {k}", w, r, MS3ERR | (UNSUP | CODEC if enc else set()))
    finally:
        ctx.I.call_hooks.clear()


def variants(order):
    x100 = (12, lambda nxt: b100(order, nxt, sym("rate", "real")))
    x1001 = (8, lambda nxt: b1001(order, nxt, sym("tq", "int", 0, 255), sym("us", "int", 0, 99), sym("fc", "int", 0, 255)))
    unk = (8, lambda nxt: bunk(order, 201, nxt, sym("unk", "bytes", n=4)))
    return [
        ("data at 64", {}),
        ("data at 56", dict(dataOffset=56)),
        ("no data", dict(dataOffset=0)),
        ("256 bytes", dict(exp=8)),
        ("with 100", dict(dataOffset=72, extra=(x100,))),
        ("with 1001", dict(dataOffset=64, extra=(x1001,))),
        ("with 100, 1001", dict(dataOffset=80, extra=(x100, x1001))),
        ("with other", dict(dataOffset=64, extra=(unk,))),
    ]


def cut2(ctx, d, wp, w, order, lab, kw):
    v, data, c = ms2_rec("r.", order, **kw)
    n = 2 ** kw.get("exp", 7)
    cuts = range(n) if ctx.tier == "thorough" else sorted({0, 1, 2, 20, 30, n // 2, n - 5, n - 1} | set(range(44, 86, 1 if order == "<" else 3)) | {47, 48, 49, 55, 56, 63, 64, 71, 72})
    for k in cuts:
        part = sl(c, 0, k)
        con = f"{order} {lab} cut at {k}"
        r = ctx.run(d["one2"], [part])
        ctx.never_returns("C04.ms2cut", f"parser {con}", wp, r, MS2ERR)
        r = ctx.run(d["every2"], [part])
        if k == 0:
            ends(ctx, "C04.ms2cut", f"reader {con}", w, r, 0)
            continue
        ctx.never_returns("C04.ms2cut", f"reader {con}", w, r, MS2ERR)
    r = ctx.run(d["every2"], [c])
    ends(ctx, "C04.ms2cut", f"reader {order} {lab} whole", w, r, 1)
    for k in (1, 47, 48, 50, 56, 64, n - 1):
        r = ctx.run(d["every2"], [ct.cat(c, sl(c, 0, k))])
        ctx.never_returns("C04.ms2cut", f"reader {order} {lab} second record cut at {k}", w, r, MS2ERR)
