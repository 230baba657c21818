"""C01: MSeed3Header.pack() is interpreted with every public field symbolic and its byte
content compared, part by part, with the field table of the miniSEED 3 specification;
unpackMSeed3FixedHeader is interpreted over symbolic header bytes and every public field
compared with the value at its published offset.  Rejection rules show that the only
normal outcome carries the facts 'M', 'S', version 3 and length >= 40."""
from .common import *

SETFIELDS = "\n".join(f"    h.{n} = v[{i}]" for i, (n, o, c) in enumerate(MS3))
GETFIELDS = "(" + ", ".join(f"h.{n}" for n, o, c in MS3) + ")"
DRV = f"""
from simplemseed.mseed3 import MSeed3Header, unpackMSeed3FixedHeader

def pack(v):
    h = MSeed3Header()
{SETFIELDS}
    return bytes(h.pack())

def parse(b):
    h = unpackMSeed3FixedHeader(b)
    return {GETFIELDS}

def parse_ba(b):
    h = unpackMSeed3FixedHeader(bytearray(b))
    return {GETFIELDS}

def size(v):
    h = MSeed3Header()
{SETFIELDS}
    return h.recordSize()

def repack(b):
    return bytes(unpackMSeed3FixedHeader(b).pack())
"""


def check(ctx):
    d = ctx.driver(DRV)
    wp = ctx.where(ctx.get("mseed3:MSeed3Header.pack"))
    wu = ctx.where(ctx.get("mseed3:unpackMSeed3FixedHeader"))
    attempt(ctx, "C01.pack", "MSeed3Header.pack", wp, lambda: pack(ctx, d, wp))
    for nm in ("parse", "parse_ba"):
        for tail in (0, 1):
            attempt(ctx, "C01.parse", f"unpackMSeed3FixedHeader/{nm}/{tail}", wu, lambda: parse(ctx, d, wu, nm, tail))
    attempt(ctx, "C01.reject", "unpackMSeed3FixedHeader", wu, lambda: reject(ctx, d, wu))
    attempt(ctx, "C01.size", "recordSize", wp, lambda: size(ctx, d))
    ctx.floor("C01.pack", 17)
    ctx.floor("C01.parse", 60)
    ctx.floor("C01.reject", 8)


def pack(ctx, d, w):
    v = ms3_syms()
    r = ctx.run(d["pack"], [tuple(v.values())])
    ctx.returns("C01.pack", "in-range fields pack", w, r)
    if not r.alive:
        return
    c = r.value
    ctx.eq("C01.pack", "length", w, ct.clen(c, r.state.facts), 40, r.state)
    ctx.eq("C01.pack", "indicator and version", w, sl(c, 0, 3, r.state.facts), b"MS\x03", r.state)
    for n, o, code in MS3:
        ctx.eq("C01.pack", f"{n} at {o} as {code}", w, sl(c, o, ct.SIZE[code], r.state.facts), ct.fld(code, "<", v[n]), r.state)


def parse(ctx, d, w, nm, tail):
    v = ms3_syms("b.")
    c = ms3_bytes(v)
    if tail:
        c = ct.cat(c, sym("tail", "bytes"))
    r = ctx.run(d[nm], [c])
    lab = f"{nm}{'+tail' if tail else ''}"
    ctx.returns("C01.parse", f"{lab} accepts a valid header", w, r)
    if not r.alive:
        return
    for (n, o, code), g in zip(MS3, r.value):
        ctx.eq("C01.parse", f"{lab} {n} from {o} as {code}", w, g, v[n], r.state)


def reject(ctx, d, w):
    # shorter than 40 bytes: every length
    b = sym("b", "bytes")
    st = ctx.state()
    st.assume(cmp_("<", ct.clen(b), 40))
    r = ctx.run(d["parse"], [b], st=st)
    ctx.never_returns("C01.reject", "fewer than 40 bytes", w, r, MS3ERR)
    for n in (0, 1, 39):
        r = ctx.run(d["parse"], [sl(ms3_bytes(ms3_syms("b.")), 0, n)])
        ctx.never_returns("C01.reject", f"{n} bytes", w, r, MS3ERR)
    # indicator and version
    m0, m1, ver = (sym(x, "int", 0, 255) for x in ("m0", "m1", "ver"))
    rest = sl(ms3_bytes(ms3_syms("b.")), 3, 37)
    c = ct.cat(ct.fld("B", "<", m0), ct.fld("B", "<", m1), ct.fld("B", "<", ver), rest)
    r = ctx.run(d["parse"], [c])
    ctx.only_raises("C01.reject", "error kind", w, r, MS3ERR)
    if r.alive:
        for x, want, nm in ((m0, 77, "first byte M"), (m1, 83, "second byte S"), (ver, 3, "version 3")):
            ctx.holds("C01.reject", nm, w, cmp_("==", x, want), r.state)
    else:
        ctx.add("C01.reject", "valid header accepted", w, "bad", "no header accepted")
    b = sym("b", "bytes")
    r = ctx.run(d["parse"], [b])
    ctx.only_raises("C01.reject", "error kind, arbitrary bytes", w, r, MS3ERR)


def size(ctx, d):
    w = ctx.where(ctx.get("mseed3:MSeed3Header.recordSize"))
    v = ms3_syms()
    r = ctx.run(d["size"], [tuple(v.values())])
    if ctx.returns("C01.size", "recordSize", w, r):
        ctx.eq("C01.size", "recordSize", w, r.value, add(add(40, v["identifierLength"]), add(v["extraHeadersLength"], v["dataLength"])), r.state)
