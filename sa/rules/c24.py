"""C24: validate().  The condition under which each id validates is extracted as a boolean over
its codes (any text whatever) and compared with the specification as regular languages: product
automata over the whole of Unicode decide that both accept the same texts; a difference comes
with a shortest text that shows it."""
from .common import *

DRV = """
from simplemseed.fdsnsourceid import FDSNSourceId, NetworkSourceId, StationSourceId, LocationSourceId

def make(c):
    if len(c) == 1:
        return NetworkSourceId(c[0])
    if len(c) == 2:
        return StationSourceId(c[0], c[1])
    if len(c) == 3:
        return LocationSourceId(c[0], c[1], c[2])
    return FDSNSourceId(c[0], c[1], c[2], c[3], c[4], c[5])

def valid(c):
    v = make(c).validate()
    return v[0]

def truthy(c):
    v, reason = make(c).validate()
    if v:
        return True
    return False

def result(c):
    return make(c).validate()

def changed(c, name, value):
    x = make(c)
    setattr(x, name, value)
    v = x.validate()
    return v[0]

def parent(c):
    x = make(c)
    v = x.networkSourceId().validate()
    if len(c) > 2:
        w = x.stationSourceId().validate()
    else:
        w = v
    if len(c) > 3:
        u = x.locationSourceId().validate()
    else:
        u = w
    return (v[0], w[0], u[0])
"""
KIND = {1: "network", 2: "station", 3: "location", 6: "channel"}
NAMES = ("net", "sta", "loc", "band", "src", "sub")
ATTRS = ("networkCode", "stationCode", "locationCode", "bandCode", "sourceCode", "subsourceCode")
SPEC = {"net": r"[A-Z0-9]{1,8}", "sta": r"[A-Z0-9-]{1,8}", "loc": r"[A-Z0-9-]{0,8}", "src": r"[A-Z0-9]+", "sub": r"[A-Z0-9]*"}
GOOD = {"net": ("CO", "XD1994", "A", "ABCDEFG9", "12345678", "0"), "sta": ("BIRD", "A-1", "-", "12345678", "ABCDEFGH"), "loc": ("", "00", "-", "---", "A-B", "12345678", "--A"), "band": ("H", "B", "L"), "src": ("H", "RGB", "0", "ABCDEFGHIJ"), "sub": ("", "Z", "RGB", "1", "ABCDEFGHIJ")}
BAD = {"net": ("", "ABCDEFGHI", "co", "C-O", "C O", "C_O", "\u0661\u0662", "CO\n", "\u00c9", " CO", "CO ", "C.O", "\nCO"),
       "sta": ("", "ABCDEFGHI", "bird", "BI_RD", "BIRD\n", "BI RD", "\u0661", "B.D", "BI\u2010RD", "\u00c9", "123456789"),
       "loc": ("--", "123456789", "aa", "0 ", "00\n", "\n", "\u0660\u0660", "0_0", " ", "00."),
       "src": ("", "h", "H\n", "\u0661", "H-", "H_H", " ", "\u00c9"), "sub": ("z", "Z\n", "\n", "\u0661", "-", "_", " ", "Z Z")}


def spec(name, s):
    """the specification's condition on a code"""
    c = mk("rematch", "fullmatch", SPEC[name], 0, s, ty="bool") if isinstance(s, T) else bool(__import__("re").fullmatch(SPEC[name], s))
    if name == "loc":
        return and_(c, tm.not_(tm.eqv(s, "--"))) if isinstance(s, T) else c and s != "--"
    return c


def check(ctx):
    d = ctx.driver(DRV)
    w = {n: ctx.where(ctx.get(f"fdsnsourceid:{c}.validate")) for n, c in ((1, "NetworkSourceId"), (2, "StationSourceId"), (3, "LocationSourceId"), (6, "FDSNSourceId"))}
    for n in (1, 2, 3, 6):
        attempt(ctx, "C24.accepts", KIND[n] + " one code", w[n], lambda: one(ctx, d, w[n], n))
        attempt(ctx, "C24.accepts", KIND[n] + " every code", w[n], lambda: every(ctx, d, w[n], n))
        attempt(ctx, "C24.texts", KIND[n], w[n], lambda: texts(ctx, d, w[n], n))
        attempt(ctx, "C24.result", KIND[n], w[n], lambda: result(ctx, d, w[n], n))
        if n > 1:
            attempt(ctx, "C24.parent", KIND[n], w[n], lambda: parents(ctx, d, w[n], n))
    for n, k in (("accepts", 30), ("texts", 100), ("result", 100), ("parent", 3)):
        ctx.floor("C24." + n, k)


def base(n, i=0):
    return [GOOD[x][i % len(GOOD[x])] for x in NAMES[:n]]


def one(ctx, d, w, n):
    """one code is any text, the others valid"""
    R = "C24.accepts"
    for k, x in enumerate(NAMES[:n]):
        if x == "band":
            continue
        for i in (0, 3):
            c = base(n, i)
            c[k] = s = sym(x, "str")
            for fn in ("valid", "truthy"):
                r = ctx.run(d[fn], [tuple(c)])
                if ctx.completes(R, f"{KIND[n]} {x} {i} {fn}: returns", w, r):
                    ctx.eq(R, f"{KIND[n]} {x} {i} {fn}: accepts exactly the specified texts", w, r.value, spec(x, s), r.state)
            r = ctx.run(d["changed"], [tuple(base(n, i)), ATTRS[k], s])
            if ctx.completes(R, f"{KIND[n]} {x} {i} set later: returns", w, r):
                ctx.eq(R, f"{KIND[n]} {x} {i} set later: accepts exactly the specified texts", w, r.value, spec(x, s), r.state)


def every(ctx, d, w, n):
    R = "C24.accepts"
    c = [sym(x, "str") if x != "band" else "H" for x in NAMES[:n]]
    r = ctx.run(d["valid"], [tuple(c)])
    if ctx.completes(R, f"{KIND[n]}: returns", w, r):
        ctx.eq(R, f"{KIND[n]}: every code is checked", w, r.value, and_(*[spec(x, s) for x, s in zip(NAMES, c) if x != "band"]), r.state)


def texts(ctx, d, w, n):
    R = "C24.texts"
    for i in range(7):
        c = tuple(base(n, i))
        r = ctx.run(d["valid"], [c])
        if ctx.completes(R, f"{KIND[n]} {c!r}: returns", w, r):
            ctx.eq(R, f"{KIND[n]} {c!r}: valid", w, r.value, True, r.state)
    for k, x in enumerate(NAMES[:n]):
        for b in BAD.get(x, ()):
            c = base(n, 1)
            c[k] = b
            r = ctx.run(d["valid"], [tuple(c)])
            if ctx.completes(R, f"{KIND[n]} {c!r}: returns", w, r):
                ctx.eq(R, f"{KIND[n]} {c!r}: not valid", w, r.value, False, r.state)


def result(ctx, d, w, n):
    """a pair of a bool and, when not valid, a reason"""
    R = "C24.result"
    for k, x in enumerate(NAMES[:n]):
        for b in BAD.get(x, ()) + GOOD[x]:
            c = base(n, 0)
            c[k] = b
            r = ctx.run(d["result"], [tuple(c)])
            if ctx.completes(R, f"{KIND[n]} {c!r}: returns", w, r):
                v = r.value
                if not isinstance(v, tuple) or len(v) != 2:
                    ctx.ok(R, f"{KIND[n]} {c!r}: pair", w, None)
                    continue
                good = b in GOOD[x]
                ctx.eq(R, f"{KIND[n]} {c!r}: a truth value", w, v[0], good, r.state)
                if not good:
                    ctx.ok(R, f"{KIND[n]} {c!r}: a reason", w, isinstance(v[1], str) and v[1] != "", f"reason {v[1]!r}")


def parents(ctx, d, w, n):
    """an id is never valid when an enclosing id is not"""
    R = "C24.parent"
    c = [sym(x, "str") if x != "band" else "H" for x in NAMES[:n]]
    r = ctx.run(d["parent"], [tuple(c)])
    if ctx.completes(R, f"{KIND[n]}: returns", w, r):
        want = [spec("net", c[0])]
        want.append(and_(want[0], spec("sta", c[1])) if n > 2 else want[0])
        want.append(and_(want[1], spec("loc", c[2])) if n > 3 else want[1])
        ctx.eq(R, f"{KIND[n]}: enclosing ids accept the same", w, tuple(r.value), tuple(want), r.state)
