"""C25: NSLC conversion.  fromNslc, parseNslc and asNslc are interpreted on symbolic codes (three
character channels, channels separated at underscores with sources of any length) and on constant
ones; every code must come out where it belongs and come back unchanged.  Which network codes get
a start year is compared with the published form of temporary codes as a regular language."""
import itertools
import re
from .common import *
from ..m_str import scat

DRV = """
from simplemseed.fdsnsourceid import FDSNSourceId, NetworkSourceId, NslcId

def codes(x):
    return (x.networkCode, x.stationCode, x.locationCode, x.bandCode, x.sourceCode, x.subsourceCode)

def ncodes(x):
    return (x.networkCode, x.stationCode, x.locationCode, x.channelCode)

def conv(n, s, l, c):
    return codes(FDSNSourceId.fromNslc(n, s, l, c))

def convy(n, s, l, c, y):
    return codes(FDSNSourceId.fromNslc(n, s, l, c, y))

def convk(n, s, l, c, y):
    return codes(FDSNSourceId.fromNslc(n, s, l, c, startYear=y))

def back(n, s, l, c):
    return ncodes(FDSNSourceId.fromNslc(n, s, l, c).asNslc())

def short(n, s, l, c):
    return FDSNSourceId.fromNslc(n, s, l, c).shortChannelCode()

def there(n, s, l, b, o, u):
    a = FDSNSourceId(n, s, l, b, o, u)
    x = a.asNslc()
    c = FDSNSourceId.fromNslc(x.networkCode, x.stationCode, x.locationCode, x.channelCode)
    return (codes(c), a == c, str(c) == str(a))

def parsed(t):
    return codes(FDSNSourceId.parseNslc(t))

def parseds(t, sep):
    return codes(FDSNSourceId.parseNslc(t, sep))

def parsedk(t, sep, y):
    return codes(FDSNSourceId.parseNslc(t, sep=sep, startYear=y))

def net(n, y):
    return NetworkSourceId(n, y).networkCode

def net0(n):
    return NetworkSourceId(n).networkCode

def printed(n, s, l, b, o, u):
    return str(FDSNSourceId(n, s, l, b, o, u).asNslc())
"""
ERR = {"FDSNSourceIdException"}
AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
TEMP = r"[0-9XYZ][A-Z0-9]"


def code(name, **kw):
    return sym(name, "str", free="_.", **kw)


def chars(name):
    return sym(name, "str", n=1, alpha=AL)


def want(c, band, src, sub):
    return tuple(c[:2]) + (c[2] if c[2] is not None else "",) + (band, src, sub)


NSL = [("CO", "BIRD", "00"), ("IU", "ANMO", ""), ("XD1994", "A-1", "10"), ("XX", "ABC", "--"), ("TA", "x y", "A1B2"), ("", "", ""), ("AB", "S", None)]


def check(ctx):
    d = ctx.driver(DRV)
    w = ctx.where(ctx.get("fdsnsourceid:FDSNSourceId.fromNslc"))
    wp = ctx.where(ctx.get("fdsnsourceid:FDSNSourceId.parseNslc"))
    wa = ctx.where(ctx.get("fdsnsourceid:FDSNSourceId.asNslc"))
    wn = ctx.where(ctx.get("fdsnsourceid:NetworkSourceId"))
    attempt(ctx, "C25.split", "three characters", w, lambda: three(ctx, d, w))
    attempt(ctx, "C25.split", "separated", w, lambda: separated(ctx, d, w))
    attempt(ctx, "C25.back", "ids", wa, lambda: ids(ctx, d, wa))
    attempt(ctx, "C25.refused", "channels", w, lambda: malformed(ctx, d, w))
    attempt(ctx, "C25.parse", "text", wp, lambda: parse(ctx, d, wp))
    attempt(ctx, "C25.year", "any network", wn, lambda: anynet(ctx, d, wn))
    attempt(ctx, "C25.year", "networks", wn, lambda: years(ctx, d, wn, w, wp))
    for n, k in (("split", 150), ("back", 60), ("refused", 60), ("parse", 100), ("year", 300)):
        ctx.floor("C25." + n, k)


def three(ctx, d, w):
    R = "C25.split"
    for lab, c in [("any", (code("net", n=2, ), code("sta"), code("loc")))] + [(repr(x), x) for x in NSL]:
        if lab == "any":
            c = (sym("net", "str", n=2, alpha="ABCDEFGHIJKLMNOPQRSTUVWTUV"),) + c[1:]
        for ch in ("any", "BHZ", "LOG", "H00", "E1Z", "bhz", "   ", "A.B"):
            p = (sym("b", "str", n=1, free="_"), sym("s", "str", n=1, free="_"), sym("u", "str", n=1, free="_")) if ch == "any" else tuple(ch)
            t = scat(*p)
            for fn, x in (("conv", want(c, *p)), ("back", want(c, "", "", "")[:3] + (t,)), ("short", t)):
                r = ctx.run(d[fn], list(c) + [t])
                if ctx.completes(R, f"{lab} {ch} {fn}: returns", w, r):
                    ctx.eq(R, f"{lab} {ch} {fn}", w, r.value, x, r.state)


def separated(ctx, d, w):
    R = "C25.split"
    cases = [("any", chars("b"), sym("s", "str", alpha=AL, minlen=1), sym("u", "str", alpha=AL), None), ("long source", chars("b"), sym("s", "str", alpha=AL, minlen=2), sym("u", "str", alpha=AL), True),
             ("long subsource", chars("b"), sym("s", "str", alpha=AL, minlen=1), sym("u", "str", alpha=AL, minlen=2), True), ("no subsource", chars("b"), sym("s", "str", alpha=AL, minlen=1), "", True)]
    for t in ("B_H_Z", "B_HH_Z", "B_H_ZZ", "H_RGB_Q", "L_ABCDEFGH_12345678", "B_H_", "B_12_", "L_0_0", "L_0_00"):
        b, s, u_ = t.split("_")
        cases.append((t, b, s, u_, len(s) > 1 or len(u_) != 1))
    for lab, b, s, u_, rt in cases:
        t = scat(b, "_", s, "_", u_)
        for nl, c in [("any", (sym("net", "str", n=2, alpha="ABCDEFGHIJKLMNOPQRSTUVW"), code("sta"), code("loc")))] + [(repr(x), x) for x in NSL[:3]]:
            r = ctx.run(d["conv"], list(c) + [t])
            ctx.only_raises(R, f"{nl} {lab}: no error", w, r, set())
            if ctx.completes(R, f"{nl} {lab}: returns", w, r):
                ctx.eq(R, f"{nl} {lab}", w, r.value, want(c, b, s, u_), r.state)
            if rt:
                r = ctx.run(d["back"], list(c) + [t])
                if ctx.completes(R, f"{nl} {lab} back: returns", w, r):
                    ctx.eq(R, f"{nl} {lab} back", w, r.value, tuple(c) + (t,), r.state)


def ids(ctx, d, w):
    """an id of the published form goes to NSLC and back unchanged"""
    R = "C25.back"
    cs = [(lab, ("CO", code("sta"), code("loc"), chars("b"), s, u_)) for lab, s, u_ in (
        ("any of three characters", chars("s"), chars("u")), ("any long source", sym("s", "str", alpha=AL, minlen=2), sym("u", "str", alpha=AL)),
        ("any long subsource", sym("s", "str", alpha=AL, minlen=1), sym("u", "str", alpha=AL, minlen=2)), ("any without subsource", sym("s", "str", alpha=AL, minlen=1), ""))]
    for n in ("CO", "XX", "XD", "9A", "XD1994", "ABCD2024", "LONGNET1"):
        for b, s, u_ in (("H", "H", "Z"), ("B", "H", ""), ("L", "RGB", "Q"), ("L", "R", "QQ"), ("0", "0", "0"), ("L", "AB", "")):
            for loc in ("", "00", "ABCDEFGH"):
                cs.append((f"{n} {loc} {b} {s} {u_}", (n, "BIRD", loc, b, s, u_)))
    for lab, c in cs:
        r = ctx.run(d["there"], list(c))
        ctx.only_raises(R, f"{lab}: no error", w, r, set())
        if ctx.completes(R, f"{lab}: returns", w, r):
            ctx.eq(R, f"{lab}: same codes", w, tuple(r.value), (c, True, True), r.state)


def malformed(ctx, d, w):
    R = "C25.refused"
    for t in ("", "B", "BH", "BHZZ", "BHZ00", "B_H", "_H_Z", "B__Z", "BB_H_Z", "B_H_Z_X", "B_H_Z_", "_B_H_Z", "B_Z", "__Z", "B__", "___", "_", "__", "B_H_Z\n", "\nB_H_Z", "BH_Z", "B_HZ", "BHZ_", "_BHZ", "B.H.Z", "B-H-Z", "B H Z", "BBHHZZ", "_HZ", "BH_", "_H_"):
        for c in NSL[:2]:
            ctx.never_returns(R, f"channel {t!r} {c[0]}", w, ctx.run(d["conv"], list(c) + [t]), ERR)
    ctx.never_returns(R, "any four or more characters without a separator", w, ctx.run(d["conv"], ["CO", "BIRD", "00", sym("c", "str", alpha=AL, minlen=4)]), ERR)
    ctx.never_returns(R, "any two characters", w, ctx.run(d["conv"], ["CO", "BIRD", "00", sym("c", "str", n=2)]), ERR)
    ctx.never_returns(R, "empty source", w, ctx.run(d["conv"], ["CO", "BIRD", "00", scat(chars("b"), "__", sym("u", "str", alpha=AL))]), ERR)
    ctx.never_returns(R, "long band", w, ctx.run(d["conv"], ["CO", "BIRD", "00", scat(sym("b", "str", alpha=AL, minlen=2), "_", sym("s", "str", alpha=AL), "_", sym("u", "str", alpha=AL))]), ERR)
    ctx.never_returns(R, "four parts", w, ctx.run(d["conv"], ["CO", "BIRD", "00", scat(sym("b", "str", alpha=AL), "_", sym("s", "str", alpha=AL), "_", sym("u", "str", alpha=AL), "_", sym("v", "str", alpha=AL))]), ERR)


def parse(ctx, d, w):
    R = "C25.parse"
    for sep in (".", "_"):
        for lab, c in [("any", (sym("net", "str", alpha="ABCDEFGHIJKLMNOPQRSTUVW", n=2), sym("sta", "str", alpha=AL), sym("loc", "str", alpha=AL)))] + [(repr(x), x) for x in NSL[:4]]:
            for p, t in [((chars("b"), chars("s"), chars("u")), None), (("B", "H", "Z"), "BHZ"), (("B", "HH", "Z"), "B_HH_Z"), (("H", "R", ""), "H_R_")]:
                t = scat(*p) if t is None else t
                txt = scat(c[0], sep, c[1], sep, c[2], sep, t)
                for fn, a in [("parseds", [txt, sep]), ("parsedk", [txt, sep, None])] + ([("parsed", [txt])] if sep == "." else []):
                    r = ctx.run(d[fn], a)
                    con = f"{lab} {show(t)[:40]} {sep} {fn}"
                    if ctx.completes(R, f"{con}: returns", w, r):
                        ctx.eq(R, con, w, r.value, want(c, *p), r.state)
        for t in ("", "CO", "CO.BIRD", "CO.BIRD.00", "CO.BIRD.BHZ", "COBIRD00BHZ", "..", "CO BIRD 00 BHZ", "CO.BIRD..", "CO...", "CO.BIRD.00.BH", "CO.BIRD.00."):
            t = t.replace(".", sep)
            ctx.never_returns(R, f"{t!r} refused", w, ctx.run(d["parseds"], [t, sep]), ERR)
        for n in (1, 2, 3):
            t = scat(*[x for k in range(n) for x in ((sep,) if k else ()) + (sym(f"p{k}", "str", free="._"),)])
            ctx.never_returns(R, f"any {n} parts {sep}", w, ctx.run(d["parseds"], [t, sep]), ERR)


def anynet(ctx, d, w):
    R = "C25.year"
    n = sym("net", "str")
    temp = and_(mk("rematch", "fullmatch", TEMP, 0, n, ty="bool"), tm.not_(tm.eqv(n, "XX")))
    for y in (1994, "2024", 1880, 2100):
        r = ctx.run(d["net"], [n, y])
        if not ctx.completes(R, f"any network {y!r}: returns", w, r):
            continue
        v = r.value
        if isinstance(v, T) and v.op == "ite":
            got, a, b = v.args
            if not same(a, scat(n, str(y))):
                got, a, b = tm.not_(got), b, a
            ctx.eq(R, f"any network {y!r}: which get the year", w, got, temp, r.state)
            ctx.eq(R, f"any network {y!r}: with the year", w, a, scat(n, str(y)), r.state)
            ctx.eq(R, f"any network {y!r}: others unchanged", w, b, n, r.state)
        else:
            ctx.eq(R, f"any network {y!r}: code", w, v, ite(temp, scat(n, str(y)), n), r.state)
    for fn, a in (("net", [n, None]), ("net0", [n])):
        r = ctx.run(d[fn], a)
        if ctx.completes(R, f"any network without a year ({fn}): returns", w, r):
            ctx.eq(R, f"any network without a year ({fn}): unchanged", w, r.value, n, r.state)
    n = sym("net", "str", n=2, alpha="XYZ0123456789")
    for y in ("94", "", "19945", 94, 1879, 2101, 0, -1994, 19940):
        r = ctx.run(d["net"], [scat("Y", sym("c", "str", n=1, alpha=AL)), y])
        ctx.never_returns(R, f"temporary network, start year {y!r} refused", w, r, ERR)


def years(ctx, d, wn, w, wp):
    R = "C25.year"
    for n in ("XD", "YA", "ZZ", "X1", "1A", "90", "9Z", "0X", "XX", "CO", "AX", "A1", "xd", "Xd", "X", "X\n", "XDA", "XD1994", "XDEF", "", "1", "123", "X-", "\u0661A", "Y_", "\u00c9A", "XX1"):
        temp = re.fullmatch(TEMP, n, re.A) is not None and n != "XX"
        for y in (None, 1994, "2023", 2100, "1880"):
            x = n + str(y) if temp and y is not None else n
            r = ctx.run(d["net"], [n, y])
            if ctx.completes(R, f"{n!r} {y!r}: returns", wn, r):
                ctx.eq(R, f"{n!r} {y!r}: network", wn, r.value, x, r.state)
            for fn in ("convy", "convk"):
                r = ctx.run(d[fn], [n, "BIRD", "00", "BHZ", y])
                if ctx.completes(R, f"{n!r} {y!r} {fn}: returns", w, r):
                    ctx.eq(R, f"{n!r} {y!r} {fn}: codes", w, r.value, (x, "BIRD", "00", "B", "H", "Z"), r.state)
            r = ctx.run(d["parsedk"], [n + ".BIRD..BHZ", ".", y])
            if ctx.completes(R, f"{n!r} {y!r} parsed: returns", wp, r):
                ctx.eq(R, f"{n!r} {y!r} parsed: codes", wp, r.value, (x, "BIRD", "", "B", "H", "Z"), r.state)
        r = ctx.run(d["net0"], [n])
        if ctx.completes(R, f"{n!r}: returns", wn, r):
            ctx.eq(R, f"{n!r}: network", wn, r.value, n, r.state)
