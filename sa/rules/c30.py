"""C30: derived records.  A record (built from parts or read from bytes, with symbolic header
values, samples and identifier and each form of extra headers) is decompressed, cloned or merged;
the derived record is then changed in every respect (each header field, extra headers replaced,
deleted, changed in place at both levels), packed and decompressed; a snapshot of everything the
source shows is compared before and after each step, and the fields the copy shares with its
source are compared one by one."""
from .common import *
from .c16 import M_freeze, jd
from ..m_time import dt
from .. import m_misc

FIELDS = [n for n, o, c in MS3]
KEPT = [n for n in FIELDS if n not in ("crc", "identifierLength", "extraHeadersLength", "dataLength")]
TAKEN = "(" + ", ".join(f"h.{n}" for n in KEPT) + ",)"
DERIVE = ("dec", "clone", "merge", "header")
CHANGE = ("header", "start", "ehset", "ehtext", "ehdel", "ehadd", "ehdeep", "ehnone", "identifier", "pack", "decompress", "derive")

DRV = f"""
from simplemseed.mseed3 import MSeed3Header, MSeed3Record, mseed3merge, unpackMSeed3Record
from simplemseed.fdsnsourceid import FDSNSourceId

def build(v, ident, data, eh, how):
    h = MSeed3Header()
{SETHDR}
    r = MSeed3Record(h, ident, data, eh)
    if how == "read":
        r = unpackMSeed3Record(r.pack())
    elif how == "packed":
        r.pack()
    elif how == "ehread":
        x = r.eh
    return r

def fields(h):
    return {TAKEN}

def snap(r):
    return (fields(r.header), str(r.identifier), bytes(r.encodedDataBytes()))

def derive(r, how, nxt):
    if how == "dec":
        return r.decompressedRecord()
    if how == "clone":
        return r.clone()
    out = mseed3merge(r, nxt)
    return out[0]

def change(q, what, more):
    h = q.header
    if what == "header":
{{BUMP}}
    elif what == "start":
        h.starttime = more
    elif what == "ehset":
        q.eh = {{"other": {{"k": [9]}}}}
    elif what == "ehtext":
        q.eh = '{{"text":1}}'
    elif what == "ehdel":
        del q.eh
    elif what == "ehadd":
        if q.eh is not None:
            q.eh["added"] = 3
    elif what == "ehdeep":
        if q.eh is not None and "d" in q.eh:
            q.eh["d"]["l"].append(5)
            q.eh["d"]["n"] = "changed"
            del q.eh["a"]
    elif what == "ehnone":
        q.eh = None
    elif what == "identifier":
        q.identifier = "FDSN:AA_BBB__C_D_E"
    elif what == "pack":
        q.pack()
    elif what == "decompress":
        q.decompress()
        q.decompressedRecord()
    elif what == "derive":
        z = q.decompressedRecord()
        z.header.flags = 99
        z.header.year = 1999
        w = q.clone()
        w.header.hour = 1
        if w.eh is not None:
            w.eh["z"] = 1
        if z.eh is not None:
            z.eh["z"] = 1
            if "d" in z.eh:
                z.eh["d"]["l"].append(7)

def run(v, ident, data, eh, how, dhow, what, more, nv, ndata):
    r = build(v, ident, data, eh, how)
    a = snap(r)
    nxt = None
    if dhow == "merge":
        nxt = build(nv, ident, ndata, None, "built")
    q = derive(r, dhow, nxt)
    b = snap(r)
    e = snap(q)
    k = q.eh
    change(q, what, more)
    c = snap(r)
    return (a, b, c, e, q.header is r.header, q is r)

def ehs(v, ident, data, eh, how, dhow, what, more, nv, ndata):
    r = build(v, ident, data, eh, how)
    nxt = None
    if dhow == "merge":
        nxt = build(nv, ident, ndata, '{{"second":2}}', "built")
    q = derive(r, dhow, nxt)
    change(q, what, more)
    return r.eh

def eh0(v, ident, data, eh, how, dhow, what, more, nv, ndata):
    r = build(v, ident, data, eh, how)
    nxt = None
    if dhow == "merge":
        nxt = build(nv, ident, ndata, '{{"second":2}}', "built")
    return derive(r, dhow, nxt).eh

def packs(v, ident, data, eh, how, dhow, what, more, nv, ndata):
    r = build(v, ident, data, eh, how)
    a = bytes(r.pack())
    nxt = None
    if dhow == "merge":
        nxt = build(nv, ident, ndata, '{{"second":2}}', "built")
    q = derive(r, dhow, nxt)
    change(q, what, more)
    return (a, bytes(r.pack()))

def hclone(v):
    h = MSeed3Header()
{SETHDR}
    k = h.clone()
    a = {GETHDR}
    s = h
    h = k
    b = {GETHDR}
{{BUMP}}
    h.identifierLength = 77
    h.extraHeadersLength = 78
    h.dataLength = 79
    h.crc = 80
    h = s
    return (a, b, {GETHDR}, k is s)
"""
BUMP = dict(flags=170, nanosecond=999, year=1999, dayOfYear=301, hour=13, minute=47, second=11, encoding=5, sampleRatePeriod=333, numSamples=12345, publicationVersion=9)


def drv():
    parts_ = DRV.split("{BUMP}")
    out = parts_[0]
    for i, ind in enumerate((8, 4)):
        out += "\n".join(" " * ind + f"h.{k} = {v}" for k, v in BUMP.items()) + parts_[i + 1]
    return out


SIZE = {1: 2, 3: 4, 4: 4, 5: 8}
EHS = {"none": None, "empty text": "", "text": '{"a": 1, "d": {"l": [1, 2], "n": null}}', "dict": {"a": 1, "d": {"l": [1, 2], "n": None}}, "empty dict": {}}


def header(enc, n, **kw):
    v = {nm: fsym(nm, c) for nm, o, c in MS3}
    v.update(year=2024, dayOfYear=60, hour=1, minute=2, second=3, nanosecond=0, encoding=enc, numSamples=n, sampleRatePeriod=20)
    v.update(kw)
    return v


def check(ctx):
    ctx.I.unroll = 20
    d = ctx.driver(drv())
    w = ctx.where(ctx.get("mseed3:MSeed3Record.decompressedRecord"))
    wc = ctx.where(ctx.get("mseed3:MSeed3Record.clone"))
    wm = ctx.where(ctx.get("mseed3:mseed3merge"))
    W = {"dec": w, "clone": wc, "merge": wm}
    for enc in (1, 3, 4, 5):
        for dhow in ("dec", "clone", "merge"):
            for how in ("built", "read", "packed", "ehread"):
                for el in EHS:
                    attempt(ctx, f"C30.{dhow}", f"encoding {enc} {how} extra headers {el}", W[dhow], lambda: one(ctx, d, W[dhow], enc, dhow, how, el))
    for enc in (10, 11):
        for dhow in ("dec", "clone"):
            for how in ("built", "read"):
                for el in ("none", "dict", "text"):
                    attempt(ctx, f"C30.{dhow}", f"encoding {enc} {how} extra headers {el}", W[dhow], lambda: one(ctx, d, W[dhow], enc, dhow, how, el))
    attempt(ctx, "C30.header", "any header", ctx.where(ctx.get("mseed3:MSeed3Header.clone")), lambda: hdr(ctx, d))
    for n, k in (("dec", 800), ("clone", 800), ("merge", 800), ("header", 3)):
        ctx.floor("C30." + n, k)


def payload(enc, n, p=""):
    if enc > 5:
        # one frame: 1, 2, 3 as four 8 bit differences
        return bytes.fromhex("01000000" "00000001" "00000003" "00010100") + bytes(48)
    return bsym(p + "data", SIZE[enc] * n)


def held(ctx, enc, n, kind, st):
    code, name = {1: ("h", "int16"), 3: ("i", "int32"), 4: ("f", "float32"), 5: ("d", "float64")}[enc]
    xs = [fsym(f"x{k}", code) for k in range(n)]
    return m_np.new_items(xs, m_np.dtype(name, "<"), st, None)


def one(ctx, d, w, enc, dhow, how, el):
    R = f"C30.{dhow}"
    thorough = ctx.tier == "thorough"
    for lab, kw in (("typical", dict(flags=4, publicationVersion=3, crc=0, identifierLength=0, extraHeadersLength=0, dataLength=0)), ("any", {})):
        if lab == "any" and (enc > 5 or how in ("packed", "ehread")) and not thorough:
            continue
        n = 3
        for kind in ("bytes", "array") if enc <= 5 and how == "built" else ("bytes",):
            v = header(enc, n, **kw)
            ident = "FDSN:XX_ABC__B_H_Z" if lab == "typical" else sym("id", "str", n=18)
            nv = dict(v, second=3, nanosecond=150000000, flags=1)
            changes = CHANGE if lab == "typical" else ("header", "ehset", "ehdel", "pack", "derive")
            for what in changes:
                con = f"encoding {enc} {how} {kind} {lab} header, extra headers {el}, derived then {what}"

                def args(st):
                    eh = m_misc.from_py(ctx.I, EHS[el], st, None) if isinstance(EHS[el], dict) else EHS[el]
                    data = payload(enc, n) if kind == "bytes" else held(ctx, enc, n, kind, st)
                    more = dt(1234567890 * 10**6, 0)
                    return [tuple(v[nm] for nm in FIELDS), ident, data, eh, how, dhow, what, more, tuple(nv[nm] for nm in FIELDS), payload(enc, 2, "b") if enc <= 5 else None]
                if enc <= 5:
                    nv["numSamples"] = 2
                st = ctx.state()
                r = ctx.run(d["run"], args(st), st=st)
                if not ctx.completes(R, f"{con}: returns", w, r):
                    continue
                a, b, c, e, hs, qs = r.value
                ctx.eq(R, f"{con}: source unchanged by deriving", w, b, a, r.state)
                ctx.eq(R, f"{con}: source unchanged by changing the copy", w, c, a, r.state)
                ctx.eq(R, f"{con}: its own objects", w, (hs, qs), (False, False), r.state)
                if what == changes[0]:
                    ex = dict(v)
                    if dhow == "merge":
                        ex["numSamples"] = 5
                    if dhow == "dec":
                        ex["encoding"] = 3 if enc > 5 else enc
                    ctx.eq(R, f"{con}: shared header fields", w, e[0], tuple(ex[nm] for nm in KEPT), r.state)
                    ctx.eq(R, f"{con}: identifier", w, e[1], ident, r.state)
                    st = ctx.state()
                    r = ctx.run(d["eh0"], args(st), st=st)
                    if ctx.completes(R, f"{con}: extra headers", w, r):
                        full = {"a": 1, "d": {"l": [1, 2], "n": None}}
                        got = M_freeze(r.value, r.state)
                        if el in ("text", "dict"):
                            ctx.eq(R, f"{con}: extra headers shared", w, got, jd(full), r.state)
                        else:
                            ctx.holds(R, f"{con}: no extra headers", w, or_(tm.eqv(got, None), tm.eqv(got, jd({}))), r.state)
                st = ctx.state()
                r = ctx.run(d["ehs"], args(st), st=st)
                if ctx.completes(R, f"{con}: extra headers after", w, r):
                    want = {"none": None, "empty text": {}, "empty dict": {}}.get(el, {"a": 1, "d": {"l": [1, 2], "n": None}})
                    if want is None and how == "read":
                        want = {}
                    ctx.eq(R, f"{con}: source extra headers unchanged", w, M_freeze(r.value, r.state), jd(want), r.state)
                st = ctx.state()
                r = ctx.run(d["packs"], args(st), st=st)
                if ctx.completes(R, f"{con}: packs after", w, r):
                    ctx.eq(R, f"{con}: source packs to the same bytes", w, content_of(r.value[1], r.state), content_of(r.value[0], r.state), r.state)


def hdr(ctx, d):
    R = "C30.header"
    w = ctx.where(ctx.get("mseed3:MSeed3Header.clone"))
    v = ms3_syms()
    r = ctx.run(d["hclone"], [tuple(v[n] for n in FIELDS)])
    if ctx.completes(R, "clone returns", w, r):
        a, b, c, same = r.value
        ctx.eq(R, "every field copied", w, b, tuple(v[n] for n in FIELDS), r.state)
        ctx.eq(R, "source unchanged by changing the copy", w, c, a, r.state)
        ctx.eq(R, "a new object", w, same, False, r.state)
