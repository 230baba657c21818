"""C05: the file readers are interpreted over streams of records and the file position after
each returned or skipped record is compared with the sum of the lengths the headers declare;
the returned identifier, sections and header must be those of that record.  miniSEED 3
section lengths are symbolic for the first record (returned, or skipped by a filter).  The
set of yielded records is compared with regular expression search on the identifiers,
including for an unknown pattern and for identifiers that differ between records."""
import re as _re
from .common import *
from .c03 import frec, vrec, A, B

DRV = """
import re
from io import BytesIO
from simplemseed.mseed3 import readMSeed3Records
from simplemseed.miniseed import readMiniseed2Records

def first(c, check):
    f = BytesIO(c)
    r = next(readMSeed3Records(f, check_crc=check))
    h = r.header
    return (f.tell(), r.identifier, r._eh, r._data, GETHDR)

def nextmatch(c, pat, check):
    f = BytesIO(c)
    r = next(readMSeed3Records(f, check_crc=check, matchsid=pat))
    h = r.header
    return (f.tell(), r.identifier, r._eh, r._data, GETHDR)

def skipall(c, pat, check):
    f = BytesIO(c)
    n = 0
    for r in readMSeed3Records(f, check_crc=check, matchsid=pat):
        n = n + 1
    return (n, f.tell())

def every(c, check, matchsid=None):
    out = []
    f = BytesIO(c)
    for r in readMSeed3Records(f, check_crc=check, matchsid=matchsid):
        out.append((r.identifier, r._eh, r._data, r.header.numSamples, f.tell()))
    return out

def count(c, matchsid):
    n = 0
    for r in readMSeed3Records(BytesIO(c), matchsid=matchsid):
        n = n + 1
    return n

def found(pat, ident):
    return re.compile(pat).search(ident) is not None

def every2(c, matchsid=None):
    out = []
    f = BytesIO(c)
    for r in readMiniseed2Records(f, matchsid=matchsid):
        out.append((r.header.network, r.header.station, r.encodedDataBytes, r.header.numSamples, f.tell()))
    return out

def count2(c, matchsid):
    n = 0
    for r in readMiniseed2Records(BytesIO(c), matchsid=matchsid):
        n = n + 1
    return n
""".replace("GETHDR", GETHDR)


def check(ctx):
    ctx.I.inline_gens = True
    ctx.I.unroll = 12
    d = ctx.driver(DRV)
    w = ctx.where(ctx.get("mseed3:readMSeed3Records"))
    w2 = ctx.where(ctx.get("miniseed:readMiniseed2Records"))
    for chk in (True, False):
        attempt(ctx, "C05.ms3pos", f"first check_crc={chk}", w, lambda: first3(ctx, d, w, chk))
        attempt(ctx, "C05.ms3pos", f"skip check_crc={chk}", w, lambda: skip3(ctx, d, w, chk))
        attempt(ctx, "C05.ms3stream", f"check_crc={chk}", w, lambda: stream3(ctx, d, w, chk))
    attempt(ctx, "C05.ms3filter", "any pattern", w, lambda: anypat(ctx, d, w))
    for lab, fx in ms3_corners():
        attempt(ctx, "C05.ms3corner", lab, w, lambda: corner3(ctx, d, w, lab, fx))
    for lab, fx in ms2_corners():
        attempt(ctx, "C05.ms2corner", lab, w2, lambda: corner2(ctx, d, w2, lab, fx))
    for order in "<>":
        attempt(ctx, "C05.ms2stream", order, w2, lambda: stream2(ctx, d, w2, order))
        attempt(ctx, "C05.ms2filter", order, w2, lambda: filter2(ctx, d, w2, order))
    ctx.floor("C05.ms3pos", 60)
    ctx.floor("C05.ms3stream", 60)
    ctx.floor("C05.ms3filter", 2)
    ctx.floor("C05.ms2stream", 60)
    ctx.floor("C05.ms2filter", 10)


def total(v):
    return add(add(40, v["identifierLength"]), add(v["extraHeadersLength"], v["dataLength"]))


def secs(rest, v, facts):
    """identifier, extra headers, data"""
    a = v["identifierLength"]
    b = add(a, v["extraHeadersLength"])
    return ct.slice_(rest, 0, a, facts), ct.slice_(rest, a, b, facts), ct.slice_(rest, b, add(b, v["dataLength"]), facts)


def text(ctx, c):
    from .. import m_str
    return m_str.decode(c, "utf-8")


def first3(ctx, d, w, chk):
    for tail in (0, 1):
        v, rest, c = vrec()
        c = ct.cat(c, sym("tail", "bytes")) if tail else c
        r = ctx.run(d["first"], [c, chk])
        lab = f"check_crc={chk}{' more follows' if tail else ''}"
        if not r.alive:
            ctx.completes("C05.ms3pos", f"{lab}: returns a record", w, r)
            continue
        one(ctx, "C05.ms3pos", lab, w, r, v, rest, total(v))


def one(ctx, rule, lab, w, r, v, rest, pos):
    st = r.state
    got = r.value
    ctx.eq(rule, f"{lab}: position after the record", w, got[0], pos, st)
    i, e, dd = secs(rest, v, st.facts)
    ctx.eq(rule, f"{lab}: identifier", w, got[1], text(ctx, i), st)
    ctx.eq(rule, f"{lab}: extra headers", w, got[2], text(ctx, e), st)
    ctx.eq(rule, f"{lab}: payload", w, content_of(got[3], st), dd, st)
    for (n, o, c), g in zip(MS3, got[4]):
        ctx.eq(rule, f"{lab}: header {n}", w, g, v[n], st)


def skip3(ctx, d, w, chk):
    # a record with free section lengths after the identifier is skipped, then one returned
    va = ms3_syms("a.", identifierLength=len(A))
    ra = ct.cat(A, *[bsym("a." + n, va[le]) for n, le in (("eh", "extraHeadersLength"), ("data", "dataLength"))])
    ca = ct.cat(ms3_bytes(va), ra)
    vb, rb, cb = frec("b.", B)
    lab = f"check_crc={chk} after a skipped record"
    r = ctx.run(d["nextmatch"], [ct.cat(ca, cb), "YY_", chk])
    if not r.alive:
        ctx.completes("C05.ms3pos", f"{lab}: returns the next record", w, r)
    else:
        one(ctx, "C05.ms3pos", lab, w, r, vb, rb, add(total(va), total(vb)))
    r = ctx.run(d["skipall"], [ca, "NONE", chk])
    if r.alive:
        ctx.eq("C05.ms3pos", f"{lab}: nothing yielded", w, r.value[0], 0, r.state)
        ctx.eq("C05.ms3pos", f"{lab}: position", w, r.value[1], total(va), r.state)
    else:
        ctx.completes("C05.ms3pos", f"{lab}: skips", w, r)


IDS = (A, B, b"FDSN:XX_CCC_00_H_H_Z")
SHAPES = ((2, 5), (0, 5), (3, 0), (0, 0), (4, 1))


def stream3(ctx, d, w, chk):
    k = 0
    for pat in (None, "XX_", "YY", "^FDSN:..._", "H_[ZN]$", "00", "nothing", "", "fdsn", "X{2}_A|C$"):
        recs = []
        for j, p in enumerate(("a.", "b.", "c.")):
            neh, nd = SHAPES[(k + j) % len(SHAPES)]
            recs.append((IDS[j],) + frec(p, IDS[j], neh=neh, nd=nd))
        k += 1
        r = ctx.run(d["every"], [ct.cat(*[x[3] for x in recs]), chk, pat])
        lab = f"check_crc={chk} pattern {pat!r}"
        if not r.alive:
            ctx.completes("C05.ms3stream", f"{lab}: completes", w, r)
            continue
        got = r.state.heap[r.value].get("items")
        pos = 0
        want = []
        for ident, v, rest, c in recs:
            pos = add(pos, total(v))
            if pat is None or _re.search(pat, ident.decode()):
                want.append((ident, v, rest, pos))
        if not isinstance(got, tuple) or len(got) != len(want):
            ctx.ok("C05.ms3stream", f"{lab}: yields exactly the {len(want)} matching records", w, False if isinstance(got, tuple) and r.state.pc is not None and not any(isinstance(x, T) and x.op == "seqcat" for x in got) else None, f"yields {len(got) if isinstance(got, tuple) else '?'}")
            continue
        ctx.ok("C05.ms3stream", f"{lab}: yields exactly the {len(want)} matching records", w, True)
        for n, (g, (ident, v, rest, pos)) in enumerate(zip(got, want)):
            i, e, dd = secs(rest, v, r.state.facts)
            for nm, x, y in (("identifier", g[0], ident.decode()), ("extra headers", g[1], text(ctx, e)), ("payload", content_of(g[2], r.state), dd), ("numSamples", g[3], v["numSamples"]), ("position", g[4], pos)):
                ctx.eq("C05.ms3stream", f"{lab} record {n}: {nm}", w, x, y, r.state)


def corner3(ctx, d, w, lab, fx):
    """a record with constant header values, skipped or returned, before another one"""
    for neh, nd in ((2, 5), (0, 8), (2, 0), (300, 70000)):
        v, rest, c = frec("a.", A, neh=neh, nd=nd, **fx)
        vb, rb, cb = frec("b.", B)
        l2 = f"{lab}, {neh} and {nd} bytes"
        ca = ct.cat(ms3_bytes(v), A, b"{}"[:neh] if neh <= 2 else b'"' * neh, b"\xff" * nd)
        r = ctx.run(d["nextmatch"], [ct.cat(ca, cb), "YY_", False])
        if ctx.completes("C05.ms3corner", f"{l2}: returns the record after a skipped one", w, r):
            one(ctx, "C05.ms3corner", f"{l2}: after a skipped one", w, r, vb, rb, add(total(v), total(vb)))
        r = ctx.run(d["every"], [ct.cat(c, cb), False])
        if not ctx.completes("C05.ms3corner", f"{l2}: returns two", w, r):
            continue
        got = r.state.heap[r.value].get("items")
        if not isinstance(got, tuple):
            ctx.ok("C05.ms3corner", f"{l2}: returns two", w, None, "unknown number of records")
        elif len(got) != 2:
            ctx.ok("C05.ms3corner", f"{l2}: returns two", w, False if not any(isinstance(x, T) and x.op == "seqcat" for x in got) else None, f"yields {len(got)}")
        else:
            ctx.eq("C05.ms3corner", f"{l2}: position after the first", w, got[0][4], total(v), r.state)
            ctx.eq("C05.ms3corner", f"{l2}: position after the second", w, got[1][4], add(total(v), total(vb)), r.state)
            ctx.eq("C05.ms3corner", f"{l2}: payload of the first", w, content_of(got[0][2], r.state), secs(rest, v, r.state.facts)[2], r.state)


def corner2(ctx, d, w, lab, fx):
    for kw in (dict(exp=7), dict(exp=8, dataOffset=0)):
        for enc in (0, 3, 11):
            a = ms2_rec("a.", ">", text=TXT[0], enc=enc, **kw, **fx)
            b = ms2_rec("b.", ">", text=TXT[1])
            recs = [(0, 2 ** kw["exp"], kw.get("dataOffset", 64)) + a, (1, 128, 64) + b]
            for pat in (None, "YY_"):
                streamcase(ctx, d, w, "C05.ms2corner", f"{lab} encoding {enc} length {2 ** kw['exp']} pattern {pat}", recs, pat)


def anypat(ctx, d, w):
    pat = sym("pat", "str")
    v, rest, c = frec("a.", A)
    st = ctx.state()
    r = ctx.run(d["count"], [c, pat], st=st)
    st2 = ctx.state()
    q = ctx.run(d["found"], [pat, A.decode()], st=st2)
    if not (r.alive and q.alive):
        return ctx.add("C05.ms3filter", "any pattern", w, "undecided", "no outcome")
    ctx.eq("C05.ms3filter", "yielded exactly when the pattern is found", w, r.value, ite(q.value, 1, 0), r.state)
    b = frec("b.", B)
    r = ctx.run(d["count"], [ct.cat(c, b[2]), pat])
    q2 = ctx.run(d["found"], [pat, B.decode()])
    ctx.eq("C05.ms3filter", "two records: yielded exactly when the pattern is found", w, r.value, add(ite(q.value, 1, 0), ite(q2.value, 1, 0)), r.state)


TXT = [b"000001D ABCD 00BHZXX", b"000002M EFG  10LHNYY", b"123456Q HIJKL  HHEZZ"]
SID = ["FDSN:XX_ABCD_00_B_H_Z", "FDSN:YY_EFG_10_L_H_N", "FDSN:ZZ_HIJKL__H_H_E"]


def shapes2(order):
    x100 = (12, lambda nxt: b100(order, nxt, sym("rate", "real")))
    x1001 = (8, lambda nxt: b1001(order, nxt, sym("tq", "int", 0, 255), sym("us", "int", 0, 99), sym("fc", "int", 0, 255)))
    unk = (8, lambda nxt: bunk(order, 201, nxt, sym("unk", "bytes", n=4)))
    return [dict(exp=7), dict(exp=9, dataOffset=64), dict(exp=8, dataOffset=0), dict(exp=7, dataOffset=56), dict(exp=12, dataOffset=128),
            dict(exp=8, dataOffset=72, extra=(x100,)), dict(exp=9, dataOffset=64, extra=(unk,)), dict(exp=7, dataOffset=80, extra=(x100, x1001)), dict(exp=9, dataOffset=0, extra=(x1001,))]


def plain2(p, order, text):
    """a record without blockettes: 512 bytes"""
    v = ms2_syms(p, numBlockettes=0, blocketteOffset=0, dataOffset=48)
    data = bsym(p + "data", 512 - 48)
    return v, data, ct.cat(ms2_bytes(v, order, text), data)


def stream2(ctx, d, w, order):
    sh = shapes2(order)
    for k in range(len(sh)):
        for pat in (None, "YY_") if k % 2 else (None,):
            recs = []
            for j, p in enumerate(("a.", "b.", "c.")):
                kw = dict(sh[(k + j) % len(sh)])
                recs.append((j, 2 ** kw["exp"], kw.get("dataOffset", 64)) + ms2_rec(p, order, text=TXT[j], **kw))
            if k == 0:
                recs[1] = (1, 512, 48) + plain2("b.", order, TXT[1])
            lab = f"{order} lengths {[x[1] for x in recs]} data at {[x[2] for x in recs]} pattern {pat}"
            streamcase(ctx, d, w, "C05.ms2stream", lab, recs, pat)


def streamcase(ctx, d, w, rule, lab, recs, pat):
    r = ctx.run(d["every2"], [ct.cat(*[x[5] for x in recs]), pat])
    if not r.alive:
        return ctx.completes(rule, f"{lab}: completes", w, r)
    got = r.state.heap[r.value].get("items")
    pos, want = 0, []
    for j, n, do, v, data, c in recs:
        pos += n
        if pat is None or _re.search(pat, SID[j]):
            want.append((j, pos, v, data, do))
    if not isinstance(got, tuple) or len(got) != len(want):
        return ctx.ok(rule, f"{lab}: yields exactly the {len(want)} matching records", w, False if isinstance(got, tuple) and not any(isinstance(x, T) and x.op == "seqcat" for x in got) else None, f"yields {len(got) if isinstance(got, tuple) else '?'}")
    ctx.ok(rule, f"{lab}: yields exactly the {len(want)} matching records", w, True)
    for g, (j, pos, v, data, do) in zip(got, want):
        ctx.eq(rule, f"{lab} record {j}: network", w, g[0], TXT[j][18:20].decode(), r.state)
        ctx.eq(rule, f"{lab} record {j}: station", w, g[1], TXT[j][8:13].decode().strip(), r.state)
        if do:
            ctx.eq(rule, f"{lab} record {j}: payload", w, content_of(g[2], r.state), data, r.state)
        ctx.eq(rule, f"{lab} record {j}: numSamples", w, g[3], v["numSamples"], r.state)
        ctx.eq(rule, f"{lab} record {j}: position", w, g[4], pos, r.state)


def filter2(ctx, d, w, order):
    for pat in ("XX_", "FDSN:ZZ", "[AB]", "_H_Z$", "__H_", "", "nothing", "L_H_N|ABC"):
        recs = [(j, 2 ** kw["exp"], kw.get("dataOffset", 64)) + ms2_rec(p, order, text=TXT[j], **kw) for j, (p, kw) in enumerate((("a.", dict(exp=7)), ("b.", dict(exp=8, dataOffset=0)), ("c.", dict(exp=7, dataOffset=56))))]
        streamcase(ctx, d, w, "C05.ms2filter", f"{order} pattern {pat!r}", recs, pat)
    pat = sym("pat", "str")
    v, data, c = ms2_rec("a.", order, text=TXT[0])
    r = ctx.run(d["count2"], [c, pat])
    q = ctx.run(d["found"], [pat, SID[0]])
    if r.alive and q.alive:
        ctx.eq("C05.ms2filter", f"{order} yielded exactly when the pattern is found", w, r.value, ite(q.value, 1, 0), r.state)
    else:
        ctx.add("C05.ms2filter", f"{order} any pattern", w, "undecided", "no outcome")
