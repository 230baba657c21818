"""C17: the merging reader is interpreted over every short word of record kinds (contiguous,
after a gap, other identifier, other encoding, other version, compressed, no samples, text and
unknown encodings, unmatched), with symbolic payloads; the list of records yielded is compared,
record by record, with the sequence obtained by folding neighbours, so nothing may be lost,
repeated, reordered, or merged across another record."""
import itertools
import struct
from .common import *
from .c16 import M_freeze, jd
from ..m_time import dt, SEC

DRV = """
from io import BytesIO
from simplemseed.mseed3 import readMSeed3Records

def every(c, matchsid=None, verbose=False):
    out = []
    for r in readMSeed3Records(BytesIO(c), check_crc=False, matchsid=matchsid, merge=True, verbose=verbose):
        out.append(desc(r))
    return out

def desc(r):
    h = r.header
    return (r.identifier, h.encoding, h.publicationVersion, h.numSamples, h.sampleRatePeriod, h.starttime, r.eh if r.hasExtraHeaders() else None, bytes(r.encodedDataBytes()))

def first(c):
    return [desc(next(readMSeed3Records(BytesIO(c), check_crc=False, merge=True)))]

def checked(c):
    out = []
    for r in readMSeed3Records(BytesIO(c), merge=True):
        out.append(desc(r))
    return out
"""
R = 20
US = 50000
Y24 = 1704067200 * SEC       # 2024-01-01
ID, OT, NO = b"FDSN:XX_ABC__B_H_Z", b"FDSN:XX_ABC__B_H_N", b"FDSN:QQ_NOT__B_H_Z"
SIZE = {1: 2, 3: 4, 4: 4, 5: 8}


def steim_one(x, enc):
    """one sample, in one frame"""
    return struct.pack(">IiiI", 3 << 24, x, x, x & 0xffffffff) + bytes(48) if enc == 10 else struct.pack(">IiiI", 2 << 24, x, x, (1 << 30) | (x & 0x3fffffff)) + bytes(48)


# letter: (identifier, encoding, samples, jump before it in seconds, version, rate)
KIND = {
    "c": (ID, 3, 2, 0, 1, R), "g": (ID, 3, 1, 100, 1, R), "b": (ID, 3, 1, -500, 1, R), "o": (OT, 3, 2, 0, 1, R), "f": (ID, 4, 2, 0, 1, R),
    "s": (ID, 10, 1, 0, 1, R), "S": (ID, 11, 1, 0, 1, R), "t": (ID, 0, 8, 0, 1, R), "e": (ID, 0, 0, 0, 1, R), "u": (ID, 19, 2, 0, 1, R), "v": (ID, 3, 2, 0, 2, R), "z": (ID, 3, 0, 0, 1, R),
    "n": (NO, 3, 2, 0, 1, R), "h": (ID, 1, 3, 0, 1, R), "d": (ID, 5, 1, 0, 1, R), "r": (ID, 3, 2, 0, 1, 2 * R),
}


class Rec:
    pass


def build(word, eh=()):
    """records of a word: each starts where the previous one (of any kind) would continue"""
    t, out = 3600 * SEC, []
    for k, ch in enumerate(word):
        r = Rec()
        r.id, r.enc, r.n, jump, r.pub, r.rate = KIND[ch]
        t += jump * SEC
        r.t = Y24 + t
        r.eh = eh[k] if k < len(eh) else None
        r.out = r.enc
        if r.enc in (10, 11):
            r.data = steim_one(1000 + k, r.enc)
            r.samples, r.out = struct.pack("<i", 1000 + k), 3
        elif r.enc in SIZE:
            if r.n and r.enc in (1, 3):
                xs = [fsym(f"{ch}{k}.{j}", {1: "h", 3: "i"}[r.enc]) for j in range(r.n)]
                r.data = ct.cat(*[ct.fld({1: "h", 3: "i"}[r.enc], "<", x) for x in xs])
            elif r.n:
                r.data = struct.pack("<%d%s" % (r.n, {4: "f", 5: "d"}[r.enc]), *[k + 0.5 * j for j in range(r.n)])
            else:
                r.data = b""
            r.samples = r.data
        else:
            r.data = r.samples = bsym(f"{ch}{k}", 8 if r.n else 0)
        ehb = b"" if r.eh is None else r.eh.encode()
        us = t % SEC
        s = t // SEC
        v = dict(flags=0, nanosecond=us * 1000, year=2024, dayOfYear=1 + s // 86400, hour=s // 3600 % 24, minute=s // 60 % 60, second=s % 60, encoding=r.enc, sampleRatePeriod=float(r.rate),
                 numSamples=r.n, crc=0, publicationVersion=r.pub, identifierLength=len(r.id), extraHeadersLength=len(ehb), dataLength=ct.clen(r.data))
        rest = ct.cat(r.id, ehb, r.data)
        r.bytes = ct.cat(ms3_bytes(v), rest)
        r.good = ct.cat(ms3_bytes(dict(v, crc=crc(r.bytes))), rest)
        out.append(r)
        t += r.n * SEC // r.rate
    return out


def fold(recs):
    out = []
    for r in recs:
        k = (r.id, r.out, r.pub, r.rate)
        p = out[-1] if out else None
        if p and p["key"] == k and r.enc in (1, 3, 4, 5, 10, 11) and p["end"] == r.t:
            p["n"] += r.n
            p["data"] = ct.cat(p["data"], r.samples)
            p["end"] = r.t + r.n * SEC // r.rate
        else:
            out.append(dict(key=k, n=r.n, data=r.samples, t=r.t, eh=r.eh, end=r.t + r.n * SEC // r.rate))
    return out


def check(ctx):
    ctx.I.inline_gens = True
    ctx.I.unroll = 20
    d = ctx.driver(DRV)
    w = ctx.where(ctx.get("mseed3:readMSeed3Records"))
    deep = ctx.tier == "thorough"
    words = ["".join(x) for n in (1, 2) for x in itertools.product("cgbofsStehuvzdr", repeat=n)]
    words += ["".join(x) for x in itertools.product("cgotsvef", repeat=3)]
    words += ["".join(x) for x in itertools.product("cgot" if not deep else "cgotsf", repeat=4)]
    words += ["".join(x) for x in itertools.product("cot" if deep else "ct", repeat=6)]
    words += ["", "ffff", "sSsS", "hhdd", "ddhh", "czcz", "zzzz", "ccgccgcc", "tttcc", "cctt", "ococ", "cvcv", "bcbc"]
    for i in range(0, len(words), 12):
        ws = words[i:i + 12]
        attempt(ctx, "C17.words", f"{ws[0] or 'empty'} … {ws[-1]}", w, lambda: [word(ctx, d, w, x) for x in ws])
    for x in ("cnc", "nccn", "cn", "n", "ncgn", "cntc", "tnc", "onoc", "cnnc", "snc"):
        attempt(ctx, "C17.filter", x, w, lambda: filt(ctx, d, w, x))
    for x in ("cc", "cgc", "tcc", "ctc", "ccs"):
        attempt(ctx, "C17.headers", x, w, lambda: headers(ctx, d, w, x))
        attempt(ctx, "C17.first", x, w, lambda: step(ctx, d, w, x))
        attempt(ctx, "C17.verbose", x, w, lambda: verb(ctx, d, w, x))
        attempt(ctx, "C17.checked", x, w, lambda: chk(ctx, d, w, x))
    for n, k in (("words", 3000), ("filter", 20), ("headers", 20), ("first", 10), ("verbose", 15), ("checked", 15)):
        ctx.floor("C17." + n, k)


def compare(ctx, rule, con, w, r, exp):
    if not ctx.completes(rule, f"{con}: all read", w, r):
        return
    st = r.state
    v = r.value
    items = st.heap[v].get("items") if hasattr(st, "heap") and v in st.heap else None
    if items is None:
        ctx.ok(rule, f"{con}: list of records", w, None)
        return
    ctx.eq(rule, f"{con}: number of records", w, len(items), len(exp), st)
    for k, (g, e) in enumerate(zip(items, exp)):
        i, enc, pub, rate = e["key"]
        ctx.eq(rule, f"{con}: record {k} identifier, encoding, version, samples, rate, start", w, tuple(g[:6]), (i.decode(), enc, pub, e["n"], float(rate), dt(e["t"], 0)), st)
        ctx.eq(rule, f"{con}: record {k} payload", w, g[7], e["data"], st)
        if rule == "C17.headers":
            import json
            ctx.eq(rule, f"{con}: record {k} extra headers", w, M_freeze(g[6], st), jd(json.loads(e["eh"])) if e["eh"] is not None else None, st)


def word(ctx, d, w, x):
    recs = build(x)
    r = ctx.run(d["every"], [ct.cat(*[q.bytes for q in recs]) if recs else b""])
    compare(ctx, "C17.words", f"records '{x}'", w, r, fold(recs))


def filt(ctx, d, w, x):
    recs = build(x)
    r = ctx.run(d["every"], [ct.cat(*[q.bytes for q in recs]), "XX_ABC"])
    compare(ctx, "C17.filter", f"records '{x}'", w, r, fold([q for q in recs if q.id != NO]))


def headers(ctx, d, w, x):
    recs = build(x, eh=['{"a":%d}' % k if k != 1 else None for k in range(len(x))])
    r = ctx.run(d["every"], [ct.cat(*[q.bytes for q in recs])])
    compare(ctx, "C17.headers", f"records '{x}'", w, r, fold(recs))


def verb(ctx, d, w, x):
    recs = build(x)
    r = ctx.run(d["every"], [ct.cat(*[q.bytes for q in recs]), "XX", True])
    compare(ctx, "C17.verbose", f"records '{x}'", w, r, fold(recs))


def step(ctx, d, w, x):
    recs = build(x)
    r = ctx.run(d["first"], [ct.cat(*[q.bytes for q in recs])])
    compare(ctx, "C17.first", f"records '{x}', first", w, r, fold(recs)[:1])


def chk(ctx, d, w, x):
    recs = build(x)
    r = ctx.run(d["checked"], [ct.cat(*[q.good for q in recs])])
    compare(ctx, "C17.checked", f"records '{x}'", w, r, fold(recs))
