"""Steim decoder rules shared by C09 (Steim1) and C10 (Steim2): every word form at every
rotation over two frames with symbolic data bits; the samples are compared with the
differences the format defines for those words; several frames of constants as well."""
from .common import *
from .steim import *
from ..decide import concrete

DRV = """
from simplemseed.seedcodec import decompress, EncodedDataSegment
from simplemseed.steim{v} import decodeSteim{v}

def dec(b, n):
    out = decodeSteim{v}(b, n)
    return tuple([out[i] for i in range(n)])

def dec_bias(b, n, bias):
    out = decodeSteim{v}(b, n, bias)
    return tuple([out[i] for i in range(n)])

def dec_ba(b, n):
    out = decodeSteim{v}(bytearray(b), n)
    return tuple([out[i] for i in range(n)])

def dcmp(b, n):
    out = decompress({e}, b, n, False)
    return (out.dtype.kind, out.dtype.itemsize, tuple([out[i] for i in range(n)]))

def dcmp_le(b, n):
    out = decompress({e}, b, n, True)
    return (out.dtype.kind, out.dtype.itemsize, tuple([out[i] for i in range(n)]))
"""


def decoders(ctx, P, e):
    v = e - 9
    d = ctx.driver(DRV.format(v=v, e=e))
    w = ctx.where(ctx.get(f"steim{v}:decodeSteim{v}"))
    for k, codes in enumerate(rotations(e)):
        attempt(ctx, f"{P}.decode", f"frame {k}", w, lambda: one(ctx, d, P, w, e, k, codes))
        attempt(ctx, f"{P}.decode", f"two frames {k}", w, lambda: two(ctx, d, P, w, e, k, codes))
    for c in FORM[e]:
        for pos in (3, 9, 15):
            attempt(ctx, f"{P}.decode", f"only {c} in word {pos}", w, lambda: alone(ctx, d, P, w, e, c, pos))
        if ctx.tier != "quick" or c == (3, 2) or e == 10:
            attempt(ctx, f"{P}.decode", f"full frames of {c}", w, lambda: full(ctx, d, P, w, e, c))
    for fn in ("dec_ba", "dcmp", "dcmp_le"):
        attempt(ctx, f"{P}.decode", fn, w, lambda: entry(ctx, d, P, w, e, fn))
    attempt(ctx, f"{P}.decode", "bias", w, lambda: biased(ctx, d, P, w, e))
    for k in range(3):
        attempt(ctx, f"{P}.decode", f"many frames {k}", w, lambda: many(ctx, d, P, w, e, k))
    ctx.floor(f"{P}.decode", 170)


def steps(ctx, rule, lab, w, got, first, diffs, st):
    """samples rebuild from the first one by the differences (32-bit arithmetic)"""
    ctx.ok(rule, f"{lab}: {len(diffs)} samples", w, len(got) == len(diffs), f"{len(got)} samples")
    if first is not None and got:
        ctx.eq(rule, f"{lab}: first sample", w, wrap("int32", got[0]), wrap("int32", first), st)
    for i in range(1, min(len(got), len(diffs))):
        ctx.eq(rule, f"{lab}: difference {i}", w, wrap("int32", sub(got[i], got[i - 1])), wrap("int32", diffs[i]), st)


def one(ctx, d, P, w, e, k, codes):
    c, df = frame(e, codes, "a", True)
    x0 = u("i", ">", c, 4)
    r = ctx.run(d["dec"], [c, len(df)])
    if ctx.returns(f"{P}.decode", f"frame {k}: decodes", w, r):
        steps(ctx, f"{P}.decode", f"frame {k}", w, r.value, x0, df, r.state)
    n = len(df) - 3
    r = ctx.run(d["dec"], [c, n])
    if ctx.returns(f"{P}.decode", f"frame {k}: decodes first {n}", w, r):
        steps(ctx, f"{P}.decode", f"frame {k} first {n}", w, r.value, x0, df[:n], r.state)


def two(ctx, d, P, w, e, k, codes):
    c, df = frame(e, codes[:10] + [0] * 6, "a", True)
    rest = [0, codes[3], codes[4], 0, codes[5], 0] + codes[6:10] + [0] * 4 + codes[3:5]
    c2, df2 = frame(e, rest, "b", False)
    x0 = u("i", ">", c, 4)
    r = ctx.run(d["dec"], [ct.cat(c, c2), len(df) + len(df2)])
    if ctx.returns(f"{P}.decode", f"two frames {k}: decodes", w, r):
        steps(ctx, f"{P}.decode", f"two frames {k}", w, r.value, x0, df + df2, r.state)


def alone(ctx, d, P, w, e, form, pos):
    codes = [0] * 16
    codes[pos] = form
    c, df = frame(e, codes, "a", True)
    r = ctx.run(d["dec"], [c, len(df)])
    if ctx.returns(f"{P}.decode", f"only {form} in word {pos}: decodes", w, r):
        steps(ctx, f"{P}.decode", f"only {form} in word {pos}", w, r.value, u("i", ">", c, 4), df, r.state)


def full(ctx, d, P, w, e, form):
    c, df = frame(e, [0] * 3 + [form] * (13 if ctx.tier != "quick" else 1) + [0] * (0 if ctx.tier != "quick" else 12), "a", True)
    c2, df2 = frame(e, [0] + [form] * 15, "b", False)
    n = len(df) + len(df2)
    r = ctx.run(d["dec"], [ct.cat(c, c2), n])
    if ctx.returns(f"{P}.decode", f"full frames of {form}: decodes", w, r):
        steps(ctx, f"{P}.decode", f"full frames of {form}", w, r.value, u("i", ">", c, 4), df + df2, r.state)


def entry(ctx, d, P, w, e, fn):
    codes = rotations(e)[1][:9] + [0] * 7
    c, df = frame(e, codes, "a", True)
    r = ctx.run(d[fn], [c, len(df)])
    if ctx.returns(f"{P}.decode", f"{fn}: decodes", w, r):
        got = r.value
        if fn != "dec_ba":
            ctx.eq(f"{P}.decode", f"{fn}: 32-bit integers", w, got[:2], ("i", 4), r.state)
            got = got[2]
        steps(ctx, f"{P}.decode", fn, w, got, u("i", ">", c, 4), df, r.state)


def biased(ctx, d, P, w, e):
    codes = rotations(e)[0][:6] + [0] * 10
    c, df = frame(e, codes, "a", True)
    for bias in (1, -5, 100000, -2**31, 2**31 - 1):
        r = ctx.run(d["dec_bias"], [c, len(df), bias])
        if ctx.returns(f"{P}.decode", f"bias {bias}: decodes", w, r):
            steps(ctx, f"{P}.decode", f"bias {bias}", w, r.value, add(bias, df[0]), df, r.state)


def lcg(seed):
    x = seed * 2654435761 % 2**32 or 1
    while True:
        x = (x * 1664525 + 1013904223) % 2**32
        yield x >> 4


def constant_frames(e, k, nf):
    """frames of constant words in every form -> bytes, differences"""
    g = lcg(k + 7 * e)
    forms = list(FORM[e]) + [0]
    out, diffs = b"", []
    for f in range(nf):
        nib, ws = 0, []
        for i in range(1, 16):
            w = next(g) * 16 + next(g) % 16 & 0xFFFFFFFF
            if f or i > 2:
                # one kind of frame of one form only, others of any
                c = 0 if f == nf - 1 and i > 13 else forms[-2] if k == 0 else forms[0] if k == 1 and f % 2 else forms[next(g) % len(forms)]
                if isinstance(c, tuple):
                    w = w & 2**30 - 1 | c[1] << 30
                nib |= (c[0] if isinstance(c, tuple) else c) << (30 - 2 * i)
                if c:
                    diffs += fields(e, c, w)
            ws.append(w)
        out += b"".join(x.to_bytes(4, "big") for x in [nib] + ws)
    return out, diffs


def many(ctx, d, P, w, e, k):
    """decoding several frames of constants: counts and values at both ends and in the middle"""
    R = f"{P}.decode"
    c, df = constant_frames(e, k, 7 if e == 10 else 3)
    un = ctx.I.unroll
    ctx.I.unroll = 1500
    try:
        x0 = int.from_bytes(c[4:8], "big", signed=True)
        want = [x0]
        for x in df[1:]:
            want.append((want[-1] + x + 2**31) % 2**32 - 2**31)
        for n in (len(df), len(df) - 1, len(df) // 2):
            lab = f"many frames {k}, first {n} of {len(df)}"
            r = ctx.run(d["dec"], [c, n])
            if ctx.returns(R, f"{lab}: decodes", w, r):
                ctx.ok(R, f"{lab}: sample count", w, len(r.value) == n, f"{len(r.value)} samples")
                bad = [i for i, (x, y) in enumerate(zip(r.value, want)) if (int(concrete(x, {}, {})) - y) % 2**32]
                ctx.ok(R, f"{lab}: samples", w, not bad, f"sample {bad[:1]} differs")
            for fn in ("dcmp", "dcmp_le"):
                r = ctx.run(d[fn], [c, n])
                if ctx.returns(R, f"{lab} ({fn}): decodes", w, r):
                    v = r.value[2]
                    ctx.ok(R, f"{lab} ({fn}): sample count", w, len(v) == n, f"{len(v)} samples")
                    bad = [i for i, (x, y) in enumerate(zip(v, want)) if (int(concrete(x, {}, {})) - y) % 2**32]
                    ctx.ok(R, f"{lab} ({fn}): samples", w, not bad, f"sample {bad[:1]} differs")
        r = ctx.run(d["dec"], [c, len(df) + 1])
        ctx.never_returns(R, f"many frames {k}, {len(df) + 1} of {len(df)} refused", w, r, ("CodecException", "SteimException"))
    finally:
        ctx.I.unroll = un
