"""C26: band codes.  bandCodeForRate is interpreted with the rate (or period) any number of one
published range and the response bound absent, any bound on either side of ten seconds, as
frequency or as period; each interpretation must give exactly the published code.  Boundary values
and the shipped table (every code's published limits, and an entry for every code returned) are
compared as constants."""
import math
from .common import *

DRV = """
from simplemseed.fdsnsourceid import bandCodeForRate, bandCodeInfo, bandCodeDescribe, FDSNSourceId

def code(r):
    return bandCodeForRate(r)

def coder(r, b):
    return bandCodeForRate(r, b)

def codek(r, b):
    return bandCodeForRate(sampRatePeriod=r, response_lb=b)

def none():
    return bandCodeForRate()

def info(r, b):
    c = bandCodeForRate(r, b)
    i = bandCodeInfo(c)
    return (i["code"], i["rate"], i["response_lb"], i["type"], bandCodeDescribe(c))

def entry(c):
    i = bandCodeInfo(c)
    return (i["code"], i["rate"], i["response_lb"])

def unknown(r, b):
    return FDSNSourceId.createUnknown(r, "H", b).bandCode

def unknownk(r, b):
    return FDSNSourceId.createUnknown(sampRate=r, response_lb=b).bandCode
"""
F = Fraction
# published table: lower limit, upper limit, code (response of ten seconds or longer), code (shorter or not known)
TABLE = [(5000, None, "J", "J"), (1000, 5000, "F", "G"), (250, 1000, "C", "D"), (80, 250, "H", "E"), (10, 80, "B", "S"), (1, 10, "M", "M"),
         (F(1, 10), 1, "V", "V"), (F(1, 100), F(1, 10), "U", "U"), (F(1, 1000), F(1, 100), "W", "W"), (F(1, 10**4), F(1, 1000), "R", "R"),
         (F(1, 10**5), F(1, 10**4), "P", "P"), (F(1, 10**6), F(1, 10**5), "T", "T"), (0, F(1, 10**6), "Q", "Q")]
TEXT = {"J": ("5000", None, ""), "F": ("1000", "5000", ">="), "G": ("1000", "5000", "<"), "D": ("250", "1000", "<"), "C": ("250", "1000", ">="), "E": ("80", "250", "<"), "S": ("10", "80", "<"),
        "H": ("80", "250", ">="), "B": ("10", "80", ">="), "M": ("1", "10", ""), "L": None, "V": ("0.1", "1", ""), "U": ("0.01", "0.1", ""), "W": ("0.001", "0.01", ""), "R": ("0.0001", "0.001", ""),
        "P": ("0.00001", "0.0001", ""), "T": ("0.000001", "0.00001", ""), "Q": (None, "0.000001", ""), "I": None}


def want(rate, long_):
    """published code of a rate in Hz (positive), None where the table leaves a choice"""
    if rate == 1:
        return "L"
    if F(1, 2) < rate < 1:
        return None
    for lo, hi, a, b in TABLE:
        if rate >= lo and (hi is None or rate < hi):
            return a if long_ else b


def check(ctx):
    d = ctx.driver(DRV)
    w = ctx.where(ctx.get("fdsnsourceid:bandCodeForRate"))
    wi = ctx.where(ctx.get("fdsnsourceid:bandCodeInfo"))
    for k, row in enumerate(TABLE):
        attempt(ctx, "C26.range", f"{row[3]}", w, lambda: ranges(ctx, d, w, row))
    attempt(ctx, "C26.value", "rates", w, lambda: values(ctx, d, w, wi))
    attempt(ctx, "C26.irregular", "none and zero", w, lambda: irregular(ctx, d, w))
    attempt(ctx, "C26.table", "entries", wi, lambda: table(ctx, d, wi))
    for n, k in (("range", 300), ("value", 1000), ("irregular", 12), ("table", 30)):
        ctx.floor("C26." + n, k)


def resp():
    """(label, response bound, ten seconds or longer)"""
    return [("no response", None, False),
            ("response above 0.1 Hz", sym("resp", "real", F(101, 1000), 10**6), False), ("response below 0.1 Hz", sym("resp", "real", F(1, 10**9), F(99, 1000)), True),
            ("response shorter than ten seconds", sym("resp", "real", F(-9999, 1000), F(-1, 10**6)), False), ("response longer than ten seconds", sym("resp", "real", -10**9, F(-10001, 1000)), True),
            ("response integer Hz", sym("resp", "int", 1, 10**6), False), ("response integer seconds, long", sym("resp", "int", -10**6, -10), True), ("response integer seconds, short", sym("resp", "int", -9, -1), False),
            ("response 10", 10, False), ("response -10", -10, True), ("response 0.1", 0.1, True), ("response 0", 0, True), ("response 0.0", 0.0, True), ("response -120", -120, True), ("response 2", 2, False), ("response 0.01", 0.01, True)]


def ranges(ctx, d, w, row):
    R = "C26.range"
    lo, hi, a, b = row
    eps = F(1, 10**9)
    top = hi if hi is not None else 10**7
    if lo == F(1, 10):
        top = F(1, 2)     # between a half and one both readings of "about 1" are possible
    bot = lo if lo else F(1, 10**12)
    rates = [("rate", sym("rate", "real", bot * (1 + eps), top * (1 - eps)))]
    if bot >= 1:
        ilo, ihi = (int(bot) + (1 if bot == 1 else 0)), (int(top) - 1 if hi is not None else 10**7)
        rates.append(("integer rate", sym("rate", "int", ilo, ihi)))
    plo, phi = 1 / F(top) * (1 + eps), 1 / F(bot) * (1 - eps)
    rates.append(("period", sym("period", "real", -phi, -plo)))
    if phi > 1:
        # periods of whole seconds; the shortest has the highest rate
        s, e = max(1, math.floor(1 / F(top)) + 1), math.ceil(1 / F(bot)) - 1
        if lo == 0:
            s, e = 10**6 + 1, 10**12
        if s <= e:
            rates.append(("integer period", sym("period", "int", -e, -s)))
    for rl, r_ in rates:
        for pl, p, long_ in resp():
            for fn in ("coder", "codek", "unknown"):
                x = ctx.run(d[fn], [r_, p])
                con = f"{rl} in [{bot}, {top}), {pl} ({fn})"
                ctx.only_raises(R, f"{con}: no error", w, x, set())
                if ctx.completes(R, f"{con}: returns", w, x):
                    ctx.eq(R, f"{con}: code", w, x.value, a if long_ else b, x.state)


RATES = [10**6, 10000, 5001, 5000, 5000.0, 4999.999, 4999, 2000, 1000.5, 1000, 999.999, 999, 500, 250, 249.99, 249, 200, 100, 80, 79.9, 79, 50, 40, 20, 10, 9.99, 9, 5, 2, 1.5, 1.4, 1.0001, 1, 1.0,
         0.5, 0.25, 0.2, 0.1, 0.0999, 0.05, 0.01, 0.0099, 0.002, 0.001, 0.00099, 0.0005, 0.0001, 0.00009, 0.00005, 0.00001, 0.000009, 0.000002, 0.000001, 0.0000009, 1e-7, 1e-9, 1e-12]
PERIODS = [1, 2, 2.5, 4, 5, 8, 9, 10, 11, 20, 60, 99, 100, 101, 600, 999, 1000, 1001, 3600, 9999, 10**4, 10001, 86400, 99999, 10**5, 100001, 864000, 999999, 10**6, 1000001, 10**8, 0.5, 0.1, 0.01, 0.001, 0.0001, 10.0, 100.0, 1000.0, 0.05, 0.02]


def values(ctx, d, w, wi):
    R = "C26.value"
    for x in RATES + [-p for p in PERIODS]:
        rate = x if x > 0 else -1.0 / x     # as the nearest double, like the table's own limits
        for p, long_ in ((None, False), (10, False), (-10, True), (0.1, True), (0.01, True), (1, False), (-1, False), (-9.9, False), (-120, True), (0, True), (0.11, False), (0.09, True)):
            lims = [(float(lo), None if hi is None else float(hi), a, b) for lo, hi, a, b in TABLE]
            c = "L" if rate == 1 else None if 0.5 < rate < 1 else next(a if long_ else b for lo, hi, a, b in lims if rate >= lo and (hi is None or rate < hi))
            con = f"{x} response {p}"
            r = ctx.run(d["coder"], [x, p])
            if ctx.completes(R, f"{con}: returns", w, r) and c is not None:
                ctx.eq(R, f"{con}: code", w, r.value, c, r.state)
            r = ctx.run(d["unknownk"], [x, p])
            if ctx.completes(R, f"{con}: unknown id", w, r) and c is not None:
                ctx.eq(R, f"{con}: code of an unknown id", w, r.value, c, r.state)
            r = ctx.run(d["info"], [x, p])
            if ctx.completes(R, f"{con}: has an entry", wi, r):
                if c is not None:
                    ctx.eq(R, f"{con}: entry", wi, r.value[0], c, r.state)
        r = ctx.run(d["code"], [x])
        if ctx.completes(R, f"{x}: returns", w, r):
            if not 0.5 < rate < 1:
                ctx.eq(R, f"{x}: code", w, r.value, "L" if rate == 1 else next(b for lo, hi, a, b in TABLE if rate >= float(lo) and (hi is None or rate < float(hi))), r.state)
    # between a half and one
    for x in (0.9, 0.75, 0.99, 0.51, -1.5, -1.2, -1.9):
        r = ctx.run(d["info"], [x, None])
        if ctx.completes(R, f"{x}: has an entry", wi, r):
            ctx.ok(R, f"{x}: about one or very long period", wi, r.value[0] in ("L", "V") if isinstance(r.value[0], str) else None, f"code {r.value[0]!r}")
    s = sym("rate", "real", F(501, 1000), F(999, 1000))
    r = ctx.run(d["code"], [s])
    if ctx.completes(R, "about one: returns", w, r):
        ctx.holds(R, "about one or very long period", w, or_(tm.eqv(r.value, "L"), tm.eqv(r.value, "V")) if not isinstance(r.value, str) else r.value in ("L", "V"), r.state)
    # total: no number raises
    for lab, s in (("any rate", sym("rate", "real", F(1, 10**12), 10**12)), ("any period", sym("rate", "real", -10**12, F(-1, 10**12))), ("any integer", sym("rate", "int", -10**12, 10**12))):
        for pl, p, _ in resp():
            r = ctx.run(d["coder"], [s, p])
            ctx.only_raises(R, f"{lab}, {pl}: no error", w, r, set())


def irregular(ctx, d, w):
    R = "C26.irregular"
    r = ctx.run(d["none"], [])
    if ctx.completes(R, "no rate: returns", w, r):
        ctx.eq(R, "no rate", w, r.value, "I", r.state)
    for x in (None, 0, 0.0, -0.0):
        for pl, p, _ in resp():
            for fn in ("coder", "codek", "unknown"):
                r = ctx.run(d[fn], [x, p])
                if ctx.completes(R, f"{x} {pl} {fn}: returns", w, r):
                    ctx.eq(R, f"{x} {pl} {fn}", w, r.value, "I", r.state)
    r = ctx.run(d["info"], [None, None])
    if ctx.completes(R, "entry of the irregular code", w, r):
        ctx.eq(R, "entry of the irregular code", w, r.value[0], "I", r.state)


def table(ctx, d, w):
    R = "C26.table"
    import re
    for c, t in TEXT.items():
        r = ctx.run(d["entry"], [c])
        if not ctx.completes(R, f"{c}: has an entry", w, r):
            continue
        g = r.value
        ctx.eq(R, f"{c}: its own code", w, g[0], c, r.state)
        if t is None:
            continue
        if not all(isinstance(x, str) for x in g):
            ctx.ok(R, f"{c}: limits", w, None)
            continue
        nums = [float(x) for x in re.findall(r"[0-9.]+(?:[eE][-+]?[0-9]+)?", g[1])]
        lim = [float(x) for x in t[:2] if x is not None]
        ctx.ok(R, f"{c}: limits of the rate", w, nums == lim, f"rate {g[1]!r}, published {lim}")
        sg = re.findall("[<>]=?", g[1])
        pub = {"J": ([">"], [">="]), "M": ([">", "<"],), "Q": (["<"],)}.get(c, ([">=", "<"],))
        ctx.ok(R, f"{c}: sides of the limits", w, sg in pub, f"rate {g[1]!r}")
        ctx.ok(R, f"{c}: response", w, g[2].strip().startswith(t[2]) and ("10" in g[2]) == bool(t[2]) and (t[2] != "" or g[2].strip() == ""), f"response {g[2]!r}, published {t[2]!r} 10 s")
