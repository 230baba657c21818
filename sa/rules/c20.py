"""C20: miniSEED 2 blockettes.  Records built with every short list of blockettes (field values
symbolic, both byte orders) are packed and the chain is walked in the resulting bytes as SEED
defines it: each blockette once, with SEED's fields at SEED's offsets, the last next-offset
zero, count and first offset right, data offset past the end.  Records parsed from bytes must
deliver every blockette's fields, and unknown blockettes must be written back byte for byte."""
import itertools
from .common import *

DRV = """
from simplemseed.miniseed import MiniseedHeader, MiniseedRecord, Blockette100, Blockette1000, Blockette1001, BlocketteUnknown, unpackMiniseedRecord, unpackBlockette
from simplemseed.seedcodec import EncodedDataSegment

def mk(b):
    if b[0] == 100:
        return Blockette100(100, b[1], b[2])
    if b[0] == 1000:
        return Blockette1000(1000, b[1], b[2], b[3], b[4])
    if b[0] == 1001:
        return Blockette1001(1001, b[1], b[2], b[3], b[4])
    return BlocketteUnknown(b[0], b[1], b[2])

def packed(byteorder, enc, exp, n, data, bs, given):
    h = MiniseedHeader("XX", "ABCD", "00", "BHZ", "2024-02-29T01:02:03Z", n, 20, encoding=enc, byteorder=byteorder)
    h.recordLengthExp = exp
    h.recordLength = 2**exp
    bl = []
    for b in bs:
        bl.append(mk(b))
    if given:
        r = MiniseedRecord(h, EncodedDataSegment(enc, data, n, byteorder == 0), blockettes=bl)
    else:
        r = MiniseedRecord(h, EncodedDataSegment(enc, data, n, byteorder == 0))
        for b in bl:
            r.blockettes.append(b)
    return bytes(r.pack())

def twice(byteorder, enc, exp, n, data, bs):
    h = MiniseedHeader("XX", "ABCD", "00", "BHZ", "2024-02-29T01:02:03Z", n, 20, encoding=enc, byteorder=byteorder)
    h.recordLengthExp = exp
    h.recordLength = 2**exp
    bl = []
    for b in bs:
        bl.append(mk(b))
    r = MiniseedRecord(h, EncodedDataSegment(enc, data, n, byteorder == 0), blockettes=bl)
    a = bytes(r.pack())
    return (a, bytes(r.pack()))

def desc(b):
    if b.blocketteNum == 100:
        return (100, b.nextOffset, b.sampleRate)
    if b.blocketteNum == 1000:
        return (1000, b.nextOffset, b.encoding, b.byteorder, b.recLength)
    if b.blocketteNum == 1001:
        return (1001, b.nextOffset, b.timeQuality, b.microseconds, b.frameCount)
    return (b.blocketteNum, b.nextOffset, bytes(b.rawBytes))

def parsed(c):
    r = unpackMiniseedRecord(c)
    return [desc(b) for b in r.blockettes]

def again(c):
    return bytes(unpackMiniseedRecord(c).pack())

def one(c, off, e, end):
    return desc(unpackBlockette(c, off, e, end))

def created(byteorder, rate, t):
    h = MiniseedHeader("XX", "ABCD", "00", "BHZ", t, 1, rate, encoding=3, byteorder=byteorder)
    r = MiniseedRecord(h, EncodedDataSegment(3, b"\\0\\0\\0\\5", 1, byteorder == 0))
    return (desc(r.createB100()), desc(r.createB1000()), desc(r.createB1001()))
"""
SIZE = {"A": 12, "B": 8, "C": 8, "U": 12, "V": 4, "W": 20, "X": 8, "Y": 40, "Z": 10, "Q": 7}
NUM = {"A": 100, "B": 1000, "C": 1001, "U": 500, "V": 2000, "W": 201, "X": 65535, "Y": 300, "Z": 405, "Q": 320}


def blks(word, enc, bo, exp, big=True):
    """symbolic blockettes of a word: (letter, python description, field values)"""
    out = []
    for k, ch in enumerate(word):
        junk = (0, 48, 7, 65535)[k % 4]     # the offset a blockette carries is not the one it gets
        if ch == "A":
            x = sym(f"rate{k}", "real", Fraction(1, 100), 1000)
            out.append((ch, (100, junk, x), (x,)))
        elif ch == "B":
            out.append((ch, (1000, junk) + ((enc, bo, exp) if k % 2 else (99, 1 - bo, 12)), (enc, bo, exp)))
        elif ch == "C":
            x = (sym(f"tq{k}", "int", 0, 255), sym(f"us{k}", "int", 0, 49), sym(f"fc{k}", "int", 0, 255))
            out.append((ch, (1001, junk) + x, x))
        else:
            body = bsym(f"body{k}", SIZE[ch] - 4)
            out.append((ch, (NUM[ch], junk, body), (body,)))
    return out


def check(ctx):
    ctx.I.inline_gens = True
    ctx.I.unroll = 14
    d = ctx.driver(DRV)
    w = ctx.where(ctx.get("miniseed:MiniseedRecord.pack"))
    wr = ctx.where(ctx.get("miniseed:readMiniseed2Records"))
    wu = ctx.where(ctx.get("miniseed:unpackBlockette"))
    words = [""] + ["".join(x) for n in (1, 2) for x in itertools.product("ABCUVWXYZQ", repeat=n)] + ["".join(x) for x in itertools.product("ABCU", repeat=3)] + ["ABCUVWX", "XWVUCBA", "UUUUU", "CABUW", "VVVB", "BVVVV", "ZZZ", "QZUA", "ZBQ", "QQQQQ"]
    words = [x for x in words if x.count("B") < 2 and x.count("C") < 2]
    for o in "><":
        for i in range(0, len(words), 8):
            ws = words[i:i + 8]
            attempt(ctx, "C20.chain", f"{o} {ws[0] or 'none'} … {ws[-1]}", w, lambda: [chain(ctx, d, w, o, x) for x in ws])
            attempt(ctx, "C20.parse", f"{o} {ws[0] or 'none'} … {ws[-1]}", wr, lambda: [parse(ctx, d, w, wr, o, x) for x in ws])
        attempt(ctx, "C20.layout", f"{o}", wu, lambda: layout(ctx, d, wu, o))
        attempt(ctx, "C20.twice", f"{o}", w, lambda: twice(ctx, d, w, o))
        attempt(ctx, "C20.created", f"{o}", w, lambda: created(ctx, d, w, o))
        attempt(ctx, "C20.signed", f"{o}", wu, lambda: signed(ctx, d, wu, o))
    for n, k in (("chain", 3000), ("parse", 1500), ("layout", 40), ("twice", 8), ("created", 20), ("signed", 1)):
        ctx.floor("C20." + n, k)


def fields(ctx, R, w, lab, g, off, o, ch, vals, st, enc=None):
    F = st.facts
    if ch == "A":
        ctx.eq(R, f"{lab}: sample rate", w, u("f", o, g, off + 4, F), simp(ct.unp("f", o, ct.fld("f", o, vals[0])), F) if hasattr(ct, "unp") else vals[0], st)
        ctx.eq(R, f"{lab}: reserved", w, sl(g, off + 8, 4, F), bytes(4), st)
    elif ch == "B":
        for k, nm in enumerate(("encoding", "byte order", "length exponent")):
            ctx.eq(R, f"{lab}: {nm}", w, u("B", o, g, off + 4 + k, F), vals[k], st)
    elif ch == "C":
        for p, x, nm in ((4, vals[0], "time quality"), (5, vals[1], "microseconds"), (7, vals[2], "frame count")):
            ctx.eq(R, f"{lab}: {nm}", w, u("B", o, g, off + p, F), x, st)
    else:
        ctx.eq(R, f"{lab}: body", w, sl(g, off + 4, SIZE[ch] - 4, F), vals[0], st)


def walk(ctx, R, w, lab, g, o, bl, enc, bo, exp, data, st):
    """follow the chain in packed bytes g; bl the blockettes it must reach"""
    F = st.facts
    count, first, dataoff = u("B", o, g, 39, F), u("H", o, g, 46, F), u("H", o, g, 44, F)
    if not all(isinstance(x, int) for x in (count, first, dataoff)):
        return ctx.ok(R, f"{lab}: chain", w, None)
    want = {NUM[b[0]] for b in bl} | {1000}
    seen, off, end = [], first, 48
    n = 2**exp
    while off and len(seen) < 20:
        if off < 48 or off + 4 > n:
            ctx.ok(R, f"{lab}: offset {off} is inside the record", w, False, f"next blockette offset {off}")
            return
        num, nxt = u("H", o, g, off, F), u("H", o, g, off + 2, F)
        if not isinstance(num, int) or not isinstance(nxt, int):
            return ctx.ok(R, f"{lab}: chain", w, None)
        seen.append((num, off))
        off = nxt
    nums = [x for x, _ in seen]
    expect = sorted([NUM[b[0]] for b in bl] + ([] if any(b[0] == "B" for b in bl) else [1000]))
    ctx.eq(R, f"{lab}: the chain reaches every blockette once and ends", w, tuple(sorted(nums)), tuple(expect), st)
    ctx.eq(R, f"{lab}: count", w, count, len(expect), st)
    rest = list(bl)
    taken = []
    for num, off in seen:
        i = next((i for i, b in enumerate(rest) if NUM[b[0]] == num), None)
        if i is None:
            if num == 1000:
                taken.append((off, 8))
                fields(ctx, R, w, f"{lab}: added blockette 1000", g, off, o, "B", (enc, bo, exp), st)
            continue
        ch, _, vals = rest.pop(i)
        taken.append((off, SIZE[ch]))
        fields(ctx, R, w, f"{lab}: blockette {num} at {len(taken)}", g, off, o, ch, vals, st)
    spans = sorted(taken)
    ok = all(a[0] + a[1] <= b[0] for a, b in zip(spans, spans[1:]))
    ctx.ok(R, f"{lab}: blockettes do not overlap", w, ok, f"blockettes at {spans}")
    ctx.ok(R, f"{lab}: blockettes occupy their own length", w, all(a[0] + a[1] == b[0] for a, b in zip(spans, spans[1:])) and (not spans or spans[0][0] == 48), f"blockettes at {spans}")
    end = max([a + b for a, b in spans] or [48])
    ctx.ok(R, f"{lab}: data follows the blockettes", w, dataoff >= end, f"data offset {dataoff}, blockettes end at {end}")
    ctx.eq(R, f"{lab}: payload at the data offset", w, sl(g, dataoff, ct.clen(data), F), data, st)


def cfg(o, word):
    exp = 8 if sum(SIZE[c] for c in word) <= 120 else 9
    return (1 if o == ">" else 0), exp


def chain(ctx, d, w, o, x):
    R = "C20.chain"
    bo, exp = cfg(o, x)
    for enc in (3, 11):
        data = bsym("data", 64)
        bl = blks(x, enc, bo, exp)
        st = ctx.state()
        for given in (True, False):
            r = ctx.run(d["packed"], [bo, enc, exp, 16, data, tuple(b[1] if b[0] in "ABC" else (b[1][0], b[1][1], ct.cat(ct.fld("H", o, b[1][0]), b"\0\0", b[1][2])) for b in bl), given])
            lab = f"{o} encoding {enc} blockettes '{x}'{'' if given else ' appended'}"
            if not ctx.returns(R, f"{lab}: packs", w, r):
                continue
            walk(ctx, R, w, lab, content_of(r.value, r.state), o, bl, enc, bo, exp, data, r.state)


def onwire(ch, o, vals, enc, bo, exp):
    def f(nxt):
        if ch == "A":
            return b100(o, nxt, vals[0])
        if ch == "B":
            return b1000(o, nxt, *vals)
        if ch == "C":
            return b1001(o, nxt, *vals)
        return bunk(o, NUM[ch], nxt, vals[0])
    return (SIZE[ch], f)


def parse(ctx, d, w, wr, o, x):
    R = "C20.parse"
    if "B" in x:
        x = x.replace("B", "")
    bo = 1 if o == ">" else 0
    exp = 8
    doff = 128 if sum(SIZE[c] for c in x) <= 72 else 192
    enc = 11
    bl = blks(x, enc, bo, exp)
    v, data, c = ms2_rec("", o, exp, doff, enc, None, b"000001D ABCD 00BHZXX", [onwire(ch, o, vals, enc, bo, exp) for ch, _, vals in bl], **TYP2)
    full = [("B", None, (enc, bo, exp))] + bl
    r = ctx.run(d["parsed"], [c])
    lab = f"{o} blockettes '{x}'"
    if ctx.returns(R, f"{lab}: parses", wr, r):
        st = r.state
        items = st.heap[r.value].get("items") if r.value in st.heap else None
        if not isinstance(items, tuple):
            ctx.ok(R, f"{lab}: blockettes", wr, None)
        else:
            ctx.eq(R, f"{lab}: number of blockettes", wr, len(items), len(full), st)
            off = 48
            for k, (g, (ch, _, vals)) in enumerate(zip(items, full)):
                nxt = off + SIZE[ch] if k < len(full) - 1 else 0
                if ch in "ABC":
                    ctx.eq(R, f"{lab}: blockette {k} fields", wr, tuple(g), (NUM[ch], nxt) + tuple(f32(x_) if ch == "A" else x_ for x_ in vals), st)
                else:
                    size = SIZE[ch] if nxt else doff - off
                    ctx.eq(R, f"{lab}: blockette {k} number and next", wr, tuple(g[:2]), (NUM[ch], nxt), st)
                    ctx.eq(R, f"{lab}: blockette {k} bytes", wr, sl(content_of(g[2], st), 0, SIZE[ch], st.facts), sl(c, off, SIZE[ch], st.facts), st)
                off += SIZE[ch]
    r = ctx.run(d["again"], [c])
    if ctx.returns(R, f"{lab}: packs again", w, r):
        walk2(ctx, R, w, lab + " again", content_of(r.value, r.state), o, full, doff, data, exp, r.state)


def walk2(ctx, R, w, lab, g, o, full, doff, data, exp, st):
    """blockettes in the order read, the last unknown one possibly with the bytes up to the data"""
    F = st.facts
    off = u("H", o, g, 46, F)
    for k, (ch, _, vals) in enumerate(full):
        if not isinstance(off, int) or off < 48 or off + SIZE[ch] > 2**exp:
            return ctx.ok(R, f"{lab}: blockette {k} in the chain", w, False if isinstance(off, int) else None, f"offset {off}")
        ctx.eq(R, f"{lab}: blockette {k} number", w, u("H", o, g, off, F), NUM[ch], st)
        fields(ctx, R, w, f"{lab}: blockette {k}", g, off, o, ch, vals, st)
        off = u("H", o, g, off + 2, F)
    ctx.eq(R, f"{lab}: chain ends", w, off, 0, st)
    ctx.eq(R, f"{lab}: count", w, u("B", o, g, 39, F), len(full), st)
    do = u("H", o, g, 44, F)
    if isinstance(do, int):
        n = min(ct.clen(data), 2**exp - do)
        ctx.eq(R, f"{lab}: payload", w, sl(g, do, n, F), sl(data, 0, n, F), st)


def f32(x):
    return x


def layout(ctx, d, w, o):
    R = "C20.layout"
    nxt = sym("next", "int", 0, 65535)
    for off in (0, 48, 56):
        pre = bsym("before", off)
        post = bsym("after", 64)
        for ch, vals in (("A", (sym("rate", "real"),)), ("B", tuple(sym(n, "int", 0, 255) for n in ("enc", "order", "exp"))), ("C", tuple(sym(n, "int", 0, 127) for n in ("tq", "us", "fc")))):
            c = ct.cat(pre, onwire(ch, o, vals, 0, 0, 0)[1](nxt), post)
            r = ctx.run(d["one"], [c, off, o, off + 64])
            lab = f"{o} blockette {NUM[ch]} at {off}"
            if ctx.returns(R, f"{lab}: parses", w, r):
                ctx.eq(R, f"{lab}: fields", w, tuple(r.value), (NUM[ch], nxt) + vals, r.state)
        for ch in "UVWXYZQ":
            body = bsym("body", SIZE[ch] - 4)
            for nx in (0, off + SIZE[ch]):
                c = ct.cat(pre, bunk(o, NUM[ch], nx, body), post)
                r = ctx.run(d["one"], [c, off, o, off + SIZE[ch]])
                lab = f"{o} blockette {NUM[ch]} at {off}, next {nx}"
                if ctx.returns(R, f"{lab}: parses", w, r):
                    ctx.eq(R, f"{lab}: number and next", w, tuple(r.value[:2]), (NUM[ch], nx), r.state)
                    ctx.eq(R, f"{lab}: bytes", w, content_of(r.value[2], r.state), sl(c, off, SIZE[ch], r.state.facts), r.state)
        for rate in (0.0, 0.1, 20.0, -1.0, 1e6):
            import struct
            x = struct.unpack("f", struct.pack("f", rate))[0]
            c = ct.cat(pre, b100(o, 0, x), post)
            r = ctx.run(d["one"], [c, off, o, off + 64])
            if ctx.returns(R, f"{o} rate {rate} at {off}: parses", w, r):
                ctx.eq(R, f"{o} rate {rate} at {off}: fields", w, tuple(r.value), (100, 0, x), r.state)


def twice(ctx, d, w, o):
    R = "C20.twice"
    for x in ("", "A", "B", "CU", "UAC", "ABCU", "Q", "ZB"):
        bo, exp = cfg(o, x)
        bl = blks(x, 11, bo, exp)
        data = bsym("data", 64)
        r = ctx.run(d["twice"], [bo, 11, exp, 16, data, tuple(b[1] if b[0] in "ABC" else (b[1][0], b[1][1], ct.cat(ct.fld("H", o, b[1][0]), b"\0\0", b[1][2])) for b in bl)])
        if ctx.returns(R, f"{o} blockettes '{x}': packs", w, r):
            ctx.eq(R, f"{o} blockettes '{x}': the same bytes again", w, content_of(r.value[1], r.state), content_of(r.value[0], r.state), r.state)
            walk(ctx, R, w, f"{o} blockettes '{x}' second time", content_of(r.value[1], r.state), o, bl, 11, bo, exp, data, r.state)


def created(ctx, d, w, o):
    from ..m_time import dt, SEC
    R = "C20.created"
    bo = 1 if o == ">" else 0
    for us in (0, 7, 99, 123456, 999999):
        for rate in (20, 0.1, 100.5):
            r = ctx.run(d["created"], [bo, rate, dt(1700000000 * SEC + us, 0)])
            if ctx.returns(R, f"{o} {us} {rate}: created", w, r):
                v = r.value
                ctx.eq(R, f"{o} {us} {rate}: blockette 100", w, (v[0][0], v[0][2]), (100, rate), r.state)
                ctx.eq(R, f"{o} {us} {rate}: blockette 1000", w, (v[1][0],) + tuple(v[1][2:]), (1000, 3, bo, 9), r.state)
                ctx.eq(R, f"{o} {us} {rate}: blockette 1001", w, (v[2][0], v[2][2], v[2][3]), (1001, 0, us % 100), r.state)


def signed(ctx, d, w, o):
    # SEED 2.4: the microseconds of a blockette 1001 are a signed byte
    R = "C20.signed"
    r = ctx.run(d["one"], [ct.cat(ct.fld("H", o, 1001), b"\0\0", b"\x64", b"\xfb", b"\0", b"\0"), 0, o, 8])
    if r.alive:
        ctx.eq(R, f"{o} microseconds are a signed byte", w, r.value[3], -5, r.state)
