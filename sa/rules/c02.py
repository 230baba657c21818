"""C02: MSeed3Record.pack() is interpreted with every header field, the identifier, the
payload and the extra headers symbolic, once per kind of identifier (text, source id),
extra headers (none, text, dictionary) and payload (bytes, bytearray, none, arrays).  The
value graph of the returned bytes is compared with the layout of the format: header,
identifier, extra headers, payload and nothing else; the lengths in the header with the
lengths of those sections; the CRC with the CRC-32C of the record with that field zero;
and the header object after packing with the bytes written."""
from .common import *
from ..interp import MISSING

DRV = f"""
from simplemseed.mseed3 import MSeed3Header, MSeed3Record
from simplemseed.fdsnsourceid import FDSNSourceId

def pack(v, ident, eh, data):
    h = MSeed3Header()
{SETHDR}
    rec = MSeed3Record(h, ident, data, extraHeaders=eh)
    out = bytes(rec.pack())
    h = rec.header
    return out, {GETHDR}, rec.getSize()

def pack_ba(v, ident, eh, data):
    return pack(v, ident, eh, bytearray(data))

def pack_dict(v, ident, key, val, data):
    return pack(v, ident, {{key: val, "FDSN": {{"Time": {{"Quality": 100}}}}}}, data)

def pack_sid(v, net, sta, loc, band, src, sub, eh, data):
    sid = FDSNSourceId(net, sta, loc, band, src, sub)
    return pack(v, sid, eh, data), str(sid)

def setident(v, ident, ident2, eh, data):
    h = MSeed3Header()
{SETHDR}
    rec = MSeed3Record(h, ident, data, extraHeaders=eh)
    rec.pack()
    rec.identifier = ident2
    out = bytes(rec.pack())
    h = rec.header
    return out, {GETHDR}, rec.getSize()
"""


def check(ctx):
    d = ctx.driver(DRV)
    w = ctx.where(ctx.get("mseed3:MSeed3Record.pack"))
    data = sym("data", "bytes")
    ident = sym("ident", "str")
    cases_ = {
        "text id, no extra headers, bytes": ("pack", [ident, None, data], data, None),
        "text id, text extra headers, bytes": ("pack", [ident, sym("eh", "str"), data], data, "text"),
        "text id, empty extra headers, bytes": ("pack", [ident, "", data], data, ""),
        "text id, dict extra headers, bytes": ("pack_dict", [ident, "k", sym("val", "str"), data], data, "dict"),
        "text id, no extra headers, bytearray": ("pack_ba", [ident, None, data], data, None),
        "constant id, no extra headers, bytes": ("pack", ["FDSN:CO_É_00_L_H_Z", None, data], data, None),
        "text id, text extra headers, empty bytes": ("pack", [ident, sym("eh", "str"), b""], b"", "text"),
        "text id, text extra headers, no data": ("pack", [ident, sym("eh", "str"), None], b"", "text"),
        "repacked after identifier change": ("setident", [sym("ident1", "str"), ident, sym("eh", "str"), data], data, "text"),
    }
    for lab, (fn, args, want, eh) in cases_.items():
        v = ms3_syms()
        if args[-1] is None:
            v = ms3_syms(encoding=0, numSamples=0)
        def go():
            r = ctx.run(d[fn], [tuple(v.values())] + args)
            idn = args[1] if fn == "setident" else args[0]
            record(ctx, w, lab, r, r.value if r.alive else None, v, idn, args, eh, want)
        attempt(ctx, "C02.layout", lab, w, go)
    # source id object as identifier
    def go():
        v = ms3_syms()
        codes = [sym(n, "str") for n in ("net", "sta", "loc", "band", "src", "sub")]
        r = ctx.run(d["pack_sid"], [tuple(v.values())] + codes + [None, data])
        if r.alive:
            record(ctx, w, "source id object, bytes", r, r.value[0], v, r.value[1], [], None, data)
        else:
            ctx.returns("C02.layout", "source id object, bytes packs", w, r)
    attempt(ctx, "C02.layout", "source id object", w, go)
    for enc, dt in ((1, "int16"), (3, "int32"), (4, "float32"), (5, "float64")):
        def go():
            v = ms3_syms(encoding=-1, numSamples=0)
            a = sym("arr", "ndarray", dtype=dt, endian="<", ndim=1)
            st = ctx.state()
            r = ctx.run(d["pack"], [tuple(v.values()), ident, None, a], st=st)
            v = dict(v)
            v["encoding"] = enc
            v["numSamples"] = mk("alen", a, ty="int")
            record(ctx, w, f"{dt} array", r, r.value if r.alive else None, v, ident, [], None, "array")
        attempt(ctx, "C02.layout", f"{dt} array", w, go)
    ctx.floor("C02.layout", 60)
    ctx.floor("C02.crc", 10)


def record(ctx, w, lab, r, val, v, ident, args, eh, data):
    R = "C02.layout"
    if not r.alive:
        ctx.returns(R, f"{lab}: packs", w, r)
        return
    st = r.state
    F = st.facts
    # the only refusal of in-range headers is a section too long for its length field or the record's own errors
    c, hd, size = val
    hd = dict(zip([n for n, o, k in MS3], hd))
    idb = utf8(ctx, ident)
    body = tail_from(c, 40, F)
    ps = parts(body)
    if eh == "dict":
        want = None
        sec = None
        dv = m_misc_frozen_dict(args)
        idp = parts(idb)
        rest = ps[len(idp):]
        okid = [same(x, y) for x, y in zip(ps, idp)]
        ctx.ok(R, f"{lab}: identifier section", w, (all(okid) and len(ps) >= len(idp)) or None, f"body is {show(body)[:200]}")
        if rest and same(rest[-1], data):
            sec = ct.cat(*rest[:-1])
        ctx.ok(R, f"{lab}: payload last and unchanged", w, True if sec is not None else None, f"body is {show(body)[:200]}")
        if sec is None:
            return
        j = is_json_of(sec, dv, st)
        ctx.ok(R, f"{lab}: extra headers are the JSON of the dictionary", w, j, f"section is {show(sec)[:200]}")
        ehl = ct.clen(sec, F)
    else:
        ehb = b"" if eh in (None, "") else utf8(ctx, [a for a in args if isinstance(a, T) and a.op == "sym" and a.args[0] == "eh"][0])
        ehl = ct.clen(ehb, F)
        if isinstance(data, str):
            k = len(parts(idb))
            ctx.eq(R, f"{lab}: identifier section", w, sl(body, 0, ct.clen(idb, F), F), idb, st)
            ctx.ok(R, f"{lab}: payload follows", w, (all(same(x, y) for x, y in zip(ps, parts(idb))) and len(ps) >= k) or None, f"body is {show(body)[:200]}")
            data = ct.cat(*ps[k:])
        else:
            ctx.eq(R, f"{lab}: identifier, extra headers, payload in order", w, body, ct.cat(idb, ehb, data), st)
    lens = {"identifierLength": ct.clen(idb, F), "extraHeadersLength": ehl, "dataLength": ct.clen(data, F)}
    ctx.eq(R, f"{lab}: indicator and version", w, sl(c, 0, 3, F), b"MS\x03", st)
    for n, o, code in MS3:
        if n == "crc":
            continue
        want = lens.get(n, v[n])
        got = u(code, "<", c, o, F)
        ctx.eq(R, f"{lab}: {n}", w, got, want, st)
        ctx.eq("C02.header", f"{lab}: header object {n}", w, hd[n], got, st)
    total = add(40, add(add(lens["identifierLength"], lens["extraHeadersLength"]), lens["dataLength"]))
    ctx.eq(R, f"{lab}: record size", w, ct.clen(c, F), total, st)
    z = ct.cat(sl(c, 0, 28, F), b"\0\0\0\0", tail_from(c, 32, F))
    ctx.eq("C02.crc", f"{lab}: stored CRC", w, u("I", "<", c, 28, F), crc(z), st)
    ctx.eq("C02.header", f"{lab}: header object crc", w, hd["crc"], u("I", "<", c, 28, F), st)


def m_misc_frozen_dict(args):
    key, val = args[1], args[2]
    q = mk("dictv", (("Quality", 100, True),), ty="dictv")
    t = mk("dictv", (("Time", q, True),), ty="dictv")
    return mk("dictv", ((key, val, True), ("FDSN", t, True)), ty="dictv")
