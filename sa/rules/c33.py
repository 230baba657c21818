"""C33: reading samples and packing.  Records of both formats (read from bytes, or built from bytes,
arrays of either byte order, array.array, lists and encoded segments, with symbolic header values and
samples) are driven through every sequence of decompressing, making the decompressed copy, packing,
asking for the encoded bytes, cloning and describing up to a length; the bytes packed at the end must
be those packed by an identical record on which nothing was called, the payload written is the payload
given, and every decompression in the sequence gives the same samples."""
import itertools
from .common import *
from .c16 import M_freeze

DRV = f"""
import numpy as np
from array import array
from simplemseed.mseed3 import MSeed3Header, MSeed3Record, unpackMSeed3Record
from simplemseed.miniseed import MiniseedHeader, MiniseedRecord, unpackMiniseedRecord
from simplemseed.seedcodec import EncodedDataSegment

def three(v, ident, data, eh, how):
    h = MSeed3Header()
{SETHDR}
    r = MSeed3Record(h, ident, data, eh)
    if how == "read":
        r = unpackMSeed3Record(r.pack())
    return r

def go3(r, word):
    out = []
    for c in word:
        if c == "x":
            a = r.decompress()
            out.append((len(a), a.dtype.kind, a.dtype.itemsize, tuple([a[i] for i in range(len(a))])))
        elif c == "y":
            a = r.decompressedRecord().decompress()
            out.append((len(a), a.dtype.kind, a.dtype.itemsize, tuple([a[i] for i in range(len(a))])))
        elif c == "p":
            r.pack()
        elif c == "b":
            b = r.encodedDataBytes()
        elif c == "c":
            a = r.clone().decompress()
            out.append((len(a), a.dtype.kind, a.dtype.itemsize, tuple([a[i] for i in range(len(a))])))
        elif c == "s":
            s = r.summary()
            t = r.getSize()
    return out

def run3(v, ident, data, eh, how, word):
    r = three(v, ident, data, eh, how)
    out = go3(r, word)
    b = bytes(r.pack())
    return (b, out, bytes(r.encodedDataBytes()), r.header.encoding, r.header.numSamples)

def samples3(v, ident, data, eh, how, word):
    r = three(v, ident, data, eh, how)
    out = go3(r, word)
    a = r.decompress()
    return (out, (len(a), a.dtype.kind, a.dtype.itemsize, tuple([a[i] for i in range(len(a))])))

def go2(r, word):
    out = []
    for c in word:
        if c == "x":
            a = r.decompress()
            out.append((len(a), tuple([a[i] for i in range(len(a))])))
        elif c == "y":
            a = r.decompressed()
            out.append((len(a), tuple([a[i] for i in range(len(a))])))
        elif c == "p":
            r.pack()
        elif c == "c":
            a = r.clone().decompress()
            out.append((len(a), tuple([a[i] for i in range(len(a))])))
        elif c == "s":
            s = r.starttime()
            t = r.codes()
    return out

def read2(b):
    return unpackMiniseedRecord(b)

def made2(data, enc, n, bo):
    h = MiniseedHeader("XX", "ABC", "00", "BHZ", "2024-01-02T03:04:05Z", n, 20.0, encoding=enc, byteorder=bo)
    return MiniseedRecord(h, data)

def seg2(data, enc, n, bo):
    h = MiniseedHeader("XX", "ABC", "00", "BHZ", "2024-01-02T03:04:05Z", n, 20.0, encoding=enc, byteorder=bo)
    return MiniseedRecord(h, EncodedDataSegment(enc, data, n, bo == 0))

def run2(make, args, word):
    r = make(*args)
    out = go2(r, word)
    return (bytes(r.pack()), out, r.header.encoding, r.header.byteorder, r.header.numSamples, len(r.blockettes))
"""
SIZE = {1: 2, 3: 4, 4: 4, 5: 8}
NAME = {1: ("h", "int16"), 3: ("i", "int32"), 4: ("f", "float32"), 5: ("d", "float64")}
FIELDS = [n for n, o, c in MS3]
# one Steim frame: 1, 2, 3 as four 8 bit differences (the same word in both formats)
FRAME = bytes.fromhex("01000000" "00000001" "00000003" "00010100") + bytes(48)


def check(ctx):
    ctx.I.unroll = 20
    ctx.I.inline_gens = True
    d = ctx.driver(DRV)
    w3 = ctx.where(ctx.get("mseed3:MSeed3Record.decompress"))
    w2 = ctx.where(ctx.get("miniseed:MiniseedRecord.decompress"))
    deep = ctx.tier == "thorough"
    for enc in (1, 3, 4, 5, 10, 11):
        for how in ("built", "read"):
            for eh in (None, "", '{"a":  1}', "dict"):
                attempt(ctx, "C33.three", f"encoding {enc} {how} {eh!r}", w3, lambda: three(ctx, d, w3, enc, how, eh, 4 if deep else 3 if eh is None and enc in (3, 11) else 2))
    attempt(ctx, "C33.three", "opaque payloads", w3, lambda: opaque(ctx, d, w3))
    for enc in (1, 3, 4, 5, 10, 11, 30, 32):
        for o in "><":
            for bl, extra in (("", ()), ("100", (B100,)), ("1001", (B1001,)), ("100 500 1001", (B100, BU, B1001))):
                attempt(ctx, "C33.read2", f"encoding {enc} {o} 1000 {bl}", w2, lambda: read2(ctx, d, w2, enc, o, bl, extra, 4 if deep else 3 if enc in (3, 11) else 2))
    for enc in (1, 3, 4, 5, 10, 11):
        for bo in (0, 1):
            attempt(ctx, "C33.made2", f"encoding {enc} {bo}", w2, lambda: made2(ctx, d, w2, enc, bo, 3 if deep else 2))
    for n, k in (("three", 1000), ("read2", 800), ("made2", 300)):
        ctx.floor("C33." + n, k)


def wordsof(alpha, n):
    return ["".join(x) for k in range(n + 1) for x in itertools.product(alpha, repeat=k)]


def inputs3(ctx, enc, n):
    """(label, function state -> data, payload bytes)"""
    if enc > 5:
        yield "bytes", lambda st: FRAME, FRAME
        yield "two frames", lambda st: FRAME + bytes(64), FRAME + bytes(64)
        return
    code, name = NAME[enc]
    p = bsym("data", SIZE[enc] * n)
    yield "bytes", lambda st: p, p
    ba = bsym("data", SIZE[enc] * n)
    yield "bytearray", lambda st: m_bytes.new_ba(ba, st, None), ba
    xs = [fsym(f"x{k}", code) for k in range(n)]
    enc_ = ct.cat(*[ct.fld(code, "<", x) for x in xs])
    for e in "<>":
        yield f"{e}{name}", (lambda e: lambda st: m_np.new_items(xs, m_np.dtype(name, e), st, None))(e), enc_
    yield "list", lambda st: ctx.I.new_list([float(k) if enc > 3 else k for k in (5, -3, 7)][:n], st), None


def three(ctx, d, w, enc, how, eh, n):
    R = "C33.three"
    for lab, mk_, payload in inputs3(ctx, enc, 3):
        if lab not in ("bytes", "two frames") and (eh == "" or lab != "bytearray" and eh is not None) and ctx.tier != "thorough":
            continue
        for vl, v in (("typical", dict({nm: 0 for nm in FIELDS}, **TYP3)), ("any", ms3_syms())):
            v = dict(v, encoding=enc, numSamples=3)
            if vl == "any":
                v.update(year=2024, dayOfYear=60, hour=1, minute=2, second=3, nanosecond=5, sampleRatePeriod=20)
            base = {}
            three_ = n > 2 and lab in ("bytes", "two frames") and vl == "typical"
            for word in wordsof("xp" if vl == "any" else "xpyc" if three_ and ctx.tier != "thorough" else "xypbcs", n if three_ else 2):
                def args(st):
                    e = ctx.I.new_dict([("a", 1, True)], st) if eh == "dict" else eh
                    return [tuple(v[nm] for nm in FIELDS), "FDSN:XX_ABC__B_H_Z", mk_(st), e, how, word]
                con = f"encoding {enc} {how} {lab} {vl} header, extra headers {eh!r}: {word or 'nothing'} then pack"
                st = ctx.state()
                r = ctx.run(d["run3"], args(st), st=st)
                if not ctx.completes(R, f"{con}: returns", w, r):
                    continue
                b, out, pay, e2, n2 = r.value
                b = content_of(b, r.state)
                out = r.state.heap[out]["items"]
                if word == "":
                    base = dict(b=b)
                    if payload is not None:
                        ctx.eq(R, f"{con}: payload written as given", w, pay, payload, r.state)
                        nn = 40 + 18 + ct.clen(payload, r.state.facts) + {None: 0, "": 0, "dict": 8}.get(eh, 9 if how == "built" or eh else 0)
                        ctx.eq(R, f"{con}: payload is the end of the record", w, tail_from(b, 58 + {None: 0, "": 0, "dict": 8, '{"a":  1}': 9}[eh], r.state.facts), payload, r.state)
                elif base:
                    ctx.eq(R, f"{con}: the same bytes", w, b, base["b"], r.state)
                    ctx.eq(R, f"{con}: the same header", w, (e2, n2), (enc, 3), r.state)
                if len(out) > 1:
                    ctx.eq(R, f"{con}: the same samples each time", w, tuple(out[1:]), tuple(out[:1] * (len(out) - 1)), r.state)
                if "x" in word or "y" in word or "c" in word:
                    if base.get("samples") is None:
                        st = ctx.state()
                        base["samples"] = ctx.run(d["samples3"], args(st)[:5] + [""], st=st).value
                    want = base["samples"][1] if isinstance(base["samples"], tuple) else None
                    if want is not None:
                        ctx.eq(R, f"{con}: samples as if alone", w, out[0], want, r.state)


def opaque(ctx, d, w):
    """payloads the library does not decode are written back untouched"""
    R = "C33.three"
    for enc in (0, 19, 30, 32, 100, 255):
        for how in ("built", "read"):
            for p in (bsym("data", 1), bsym("data", 64), b" ab\0\r\n\0\0", b"\0\0\0"):
                n = len(p) if isinstance(p, bytes) else p.n if hasattr(p, "n") else 1
                v = dict({nm: 0 for nm in FIELDS}, **TYP3)
                v.update(encoding=enc, numSamples=n)
                base = None
                for word in wordsof("pbs", 2):
                    con = f"encoding {enc} {how} {n} bytes: {word or 'nothing'} then pack"
                    r = ctx.run(d["run3"], [tuple(v[nm] for nm in FIELDS), "FDSN:XX_ABC__B_H_Z", p, None, how, word])
                    if not ctx.completes(R, f"{con}: returns", w, r):
                        continue
                    b = content_of(r.value[0], r.state)
                    if base is None:
                        base = b
                    ctx.eq(R, f"{con}: payload untouched", w, tail_from(b, 58, r.state.facts), p, r.state)
                    ctx.eq(R, f"{con}: the same bytes", w, b, base, r.state)


B100 = (12, lambda o, nxt: b100(o, nxt, 20.0))
B1001 = (8, lambda o, nxt: b1001(o, nxt, sym("tq", "int", 0, 100), 25, 1))
BU = (12, lambda o, nxt: bunk(o, 500, nxt, bsym("ubody", 8)))


def read2(ctx, d, w, enc, o, bl, extra, n):
    R = "C33.read2"
    if len(extra) == 1 and enc not in (3, 11) and ctx.tier != "thorough":
        return
    for bo in (0, 1):
        for vl in ("typical", "any"):
            size = {1: 2, 3: 4, 4: 4, 5: 8, 32: 2, 30: 2}.get(enc, 0)
            doff = 128 if sum(s for s, q in extra) > 8 else 64
            if enc > 5 and enc < 30:
                data = ct.cat(FRAME, b"\0" * (256 - doff - 64))
            else:
                data = bsym("data", 256 - doff)
            if vl == "typical":
                fx = dict(TYP2, numSamples=3)
            elif bl:
                continue
            else:
                fx = dict(year=2024, yday=60, hour=1, minute=2, second=3, tenthMilli=0, numSamples=3, sampRateFactor=20, sampRateMult=1, unused=0)
            v, data, rec = ms2_rec("r", o, 8, doff, enc, bo, data=data, extra=[(s, (lambda f: lambda nxt: f(o, nxt))(f)) for s, f in extra], **fx)
            base, alone = None, None
            three_ = n > 2 and vl == "typical" and bo == 1 and len(extra) != 1
            for word in wordsof("ps" if enc == 30 else "xpc" if three_ and ctx.tier != "thorough" else "xypcs", n if three_ else 2):
                con = f"encoding {enc} header {o} data order {bo} {vl} blockettes 1000 {bl}: {word or 'nothing'} then pack"
                r = ctx.run(d["run2"], [d["read2"], (rec,), word])
                if not ctx.completes(R, f"{con}: returns", w, r):
                    continue
                b, out, e2, bo2, n2, nb = r.value
                b = content_of(b, r.state)
                out = r.state.heap[out]["items"]
                f = r.state.facts
                if base is None:
                    base = b
                    end = 48 + 8 + sum(s for s, q in extra)
                    if enc in (10, 11):
                        end += -end % 64
                    k = min(256 - end, 256 - doff)
                    ctx.eq(R, f"{con}: payload as read", w, sl(b, end, k, f), sl(data, 0, k, f), r.state)
                    ctx.eq(R, f"{con}: length", w, ct.clen(b, f), 256, r.state)
                else:
                    ctx.eq(R, f"{con}: the same bytes", w, b, base, r.state)
                ctx.eq(R, f"{con}: the same header", w, (e2, bo2, n2, nb), (enc, bo, 3, 1 + len(extra)), r.state)
                if out and alone is None:
                    alone = out[0]
                    ctx.eq(R, f"{con}: sample count", w, out[0][0], 3, r.state)
                if out:
                    ctx.eq(R, f"{con}: the same samples each time", w, tuple(out), (alone,) * len(out), r.state)


def made2(ctx, d, w, enc, bo, n):
    R = "C33.made2"
    e = "<>"[bo]
    cases = []
    if enc > 5:
        cases.append(("bytes", d["made2"], lambda st: FRAME, FRAME))
        cases.append(("segment", d["seg2"], lambda st: FRAME, FRAME))
    else:
        code, name = NAME[enc]
        p = bsym("data", SIZE[enc] * 3)
        xs = [fsym(f"x{k}", code) for k in range(3)]
        cases.append(("bytes", d["made2"], lambda st: p, p))
        cases.append(("segment", d["seg2"], lambda st: p, p))
        cases.append(("array", d["made2"], lambda st: m_np.new_items(xs, m_np.dtype(name, e), st, None), ct.cat(*[ct.fld(code, e, x) for x in xs])))
        if bo == 0:
            cases.append(("list", d["made2"], lambda st: ctx.I.new_list([float(k) if enc > 3 else k for k in (5, -3, 7)], st), None))
    for lab, make, mk_, payload in cases:
        base, alone = None, None
        for word in wordsof("xypcs", n):
            con = f"encoding {enc} {e} {lab}: {word or 'nothing'} then pack"
            st = ctx.state()
            r = ctx.run(d["run2"], [make, (mk_(st), enc, 3, bo), word], st=st)
            if not ctx.completes(R, f"{con}: returns", w, r):
                continue
            b, out, e2, bo2, n2, nb = r.value
            b = content_of(b, r.state)
            out = r.state.heap[out]["items"]
            if base is None:
                base = b
                if payload is not None:
                    off = 64 if enc > 5 else 56
                    ctx.eq(R, f"{con}: payload as given", w, sl(b, off, ct.clen(payload, r.state.facts), r.state.facts), payload, r.state)
            else:
                ctx.eq(R, f"{con}: the same bytes", w, b, base, r.state)
            ctx.eq(R, f"{con}: the same header", w, (e2, bo2, n2), (enc, bo, 3), r.state)
            if out and alone is None:
                alone = out[0]
            if out:
                ctx.eq(R, f"{con}: the same samples each time", w, tuple(out), (alone,) * len(out), r.state)
