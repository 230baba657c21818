"""C23: source ids.  Parsing, printing, the enclosing-id methods and equality are interpreted on
ids whose codes are symbolic text (any characters but the separator, any length) and on constant
texts; the results are compared with the printed form of the specification."""
import itertools
from .common import *

DRV = """
from simplemseed.fdsnsourceid import FDSNSourceId, NetworkSourceId, StationSourceId, LocationSourceId

def make(c):
    if len(c) == 1:
        return NetworkSourceId(c[0])
    if len(c) == 2:
        return StationSourceId(c[0], c[1])
    if len(c) == 3:
        return LocationSourceId(c[0], c[1], c[2])
    return FDSNSourceId(c[0], c[1], c[2], c[3], c[4], c[5])

def codes(x):
    if isinstance(x, NetworkSourceId):
        return ("N", x.networkCode)
    if isinstance(x, StationSourceId):
        return ("S", x.networkCode, x.stationCode)
    if isinstance(x, LocationSourceId):
        return ("L", x.networkCode, x.stationCode, x.locationCode)
    if isinstance(x, FDSNSourceId):
        return ("C", x.networkCode, x.stationCode, x.locationCode, x.bandCode, x.sourceCode, x.subsourceCode)
    return None

def made(c):
    return codes(make(c))

def text(c):
    return str(make(c))

def fmt(c):
    return f"{make(c)}"

def round(c):
    a = make(c)
    b = FDSNSourceId.parse(str(a))
    return (codes(b), b == a, a == b, a != b)

def parsed(s):
    return codes(FDSNSourceId.parse(s))

def again(s):
    return str(FDSNSourceId.parse(s))

def up_n(c):
    return codes(make(c).networkSourceId())

def up_s(c):
    return codes(make(c).stationSourceId())

def up_l(c):
    return codes(make(c).locationSourceId())

def down(c):
    n = NetworkSourceId(c[0])
    s = n.createStationSourceId(c[1])
    l = s.createLocationSourceId(c[2])
    f = l.createFDSNSourceId(c[3], c[4], c[5])
    return (codes(n), codes(s), codes(l), codes(f))

def nested(c):
    n = NetworkSourceId(c[0])
    return (codes(StationSourceId(n, c[1])), codes(LocationSourceId(n, c[1], c[2])), codes(FDSNSourceId(n, c[1], c[2], c[3], c[4], c[5])))

def noloc(c):
    return (codes(LocationSourceId(c[0], c[1], None)), codes(FDSNSourceId(c[0], c[1], None, c[3], c[4], c[5])), str(LocationSourceId(c[0], c[1], None)))

def eq(a, b):
    x = make(a)
    y = make(b)
    return (x == y, y == x, x != y)

def eqo(a, b):
    x = make(a)
    return (x == b, x != b)
"""
KIND = {1: "N", 2: "S", 3: "L", 6: "C"}
ERR = {"FDSNSourceIdException"}
NAMES = ("net", "sta", "loc", "band", "src", "sub")


def txt(c):
    from ..m_str import scat
    out = ["FDSN:"]
    for k, x in enumerate(c):
        out += (["_"] if k else []) + [x]
    return scat(*out)


def part(name):
    return sym(name, "str", free="_")


CONST = [
    ("CO", "BIRD", "00", "H", "H", "Z"), ("XX", "ABC", "", "B", "H", "U"), ("XD1994", "A-1", "a b", "", "RGB", ""), ("", "", "", "", "", ""),
    ("FDSN:", "FDSN:CO", "-", "--", "0", "\n"), ("é", "日本", " ", "H", "\t", "x" * 40), ("co", "bird", "00", "h", "h", "z"), ("A:B", "C.D", "E/F", "%", "{}", "\\"), ("IU", "ANMO", "", "", "L", ""),
]


def check(ctx):
    d = ctx.driver(DRV)
    w = ctx.where(ctx.get("fdsnsourceid:FDSNSourceId.parse"))
    for n in (1, 2, 3, 6):
        c = tuple(part(NAMES[k]) for k in range(n))
        attempt(ctx, "C23.round", KIND[n], w, lambda: ids(ctx, d, w, n, [("any", c)] + [(repr(x[:n]), x[:n]) for x in CONST]))
        attempt(ctx, "C23.up", KIND[n], w, lambda: ups(ctx, d, w, n))
    attempt(ctx, "C23.down", "all", w, lambda: downs(ctx, d, w))
    attempt(ctx, "C23.parts", "all", w, lambda: nparts(ctx, d, w))
    attempt(ctx, "C23.refused", "prefix", w, lambda: prefix(ctx, d, w))
    attempt(ctx, "C23.equal", "same kind", w, lambda: equal(ctx, d, w))
    attempt(ctx, "C23.equal", "constants", w, lambda: equalc(ctx, d, w))
    attempt(ctx, "C23.equal", "kinds", w, lambda: kinds(ctx, d, w))
    for n, k in (("round", 200), ("up", 50), ("down", 10), ("parts", 80), ("refused", 30), ("equal", 400)):
        ctx.floor("C23." + n, k)


def ids(ctx, d, w, n, cs):
    R = "C23.round"
    for lab, c in cs:
        lab = f"{KIND[n]} {lab}"
        want = (KIND[n],) + c
        for fn, x in (("made", want), ("text", txt(c)), ("fmt", txt(c))):
            r = ctx.run(d[fn], [c])
            if ctx.completes(R, f"{lab}: {fn}", w, r):
                ctx.eq(R, f"{lab}: {fn}", w, r.value, x, r.state)
        r = ctx.run(d["round"], [c])
        if ctx.completes(R, f"{lab}: parses", w, r):
            ctx.eq(R, f"{lab}: parsed codes", w, r.value[0], want, r.state)
            ctx.eq(R, f"{lab}: equal to the original", w, tuple(r.value[1:]), (True, True, False), r.state)
        r = ctx.run(d["again"], [txt(c)])
        if ctx.completes(R, f"{lab}: text parses", w, r):
            ctx.eq(R, f"{lab}: prints as it was", w, r.value, txt(c), r.state)


def ups(ctx, d, w, n):
    R = "C23.up"
    for lab, c in [("any", tuple(part(NAMES[k]) for k in range(n)))] + [(repr(x[:n]), x[:n]) for x in CONST]:
        for m, fn in ((1, "up_n"), (2, "up_s"), (3, "up_l")):
            if m >= n:
                continue
            r = ctx.run(d[fn], [c])
            if ctx.completes(R, f"{KIND[n]} {lab}: {fn}", w, r):
                ctx.eq(R, f"{KIND[n]} {lab}: {fn}", w, r.value, (KIND[m],) + c[:m], r.state)


def downs(ctx, d, w):
    R = "C23.down"
    for lab, c in [("any", tuple(part(x) for x in NAMES))] + [(repr(x), x) for x in CONST]:
        full = tuple((KIND[m],) + c[:m] for m in (1, 2, 3, 6))
        for fn, want in (("down", full), ("nested", full[1:]), ("noloc", (("L",) + c[:2] + ("",), ("C",) + c[:2] + ("",) + c[3:], txt(c[:2] + ("",))))):
            r = ctx.run(d[fn], [c])
            if ctx.completes(R, f"{lab}: {fn}", w, r):
                ctx.eq(R, f"{lab}: {fn}", w, tuple(r.value), want, r.state)


def nparts(ctx, d, w):
    R = "C23.parts"
    for n in range(1, 13):
        for lab, c in [("any", tuple(part(f"p{k}") for k in range(n))), ("empty", ("",) * n), ("short", tuple("ABCDEFGHIJKL"[:n])), ("last empty", tuple("ABCDEFGHIJKL"[:n - 1]) + ("",)), ("first empty", ("",) + tuple("ABCDEFGHIJKL"[:n - 1]))]:
            r = ctx.run(d["parsed"], [txt(c)])
            if n in KIND:
                if ctx.completes(R, f"{n} parts {lab}: parses", w, r):
                    ctx.eq(R, f"{n} parts {lab}: codes", w, r.value, (KIND[n],) + c, r.state)
                r = ctx.run(d["again"], [txt(c)])
                if ctx.completes(R, f"{n} parts {lab}: prints", w, r):
                    ctx.eq(R, f"{n} parts {lab}: text", w, r.value, txt(c), r.state)
            else:
                ctx.never_returns(R, f"{n} parts {lab}", w, r, ERR)


def prefix(ctx, d, w):
    R = "C23.refused"
    from ..m_str import scat
    for bad in ("", "FDSN", "fdsn:", "Fdsn:", "FDSN;", " FDSN:", "XFDSN:", "DSN:", ":", "SEED:", "FDSN :", "\nFDSN:", "FD:SN:", "http://FDSN:", "FDSN\uff1a"):
        for n in (1, 2, 3, 6):
            c = tuple("ABCDEF"[:n])
            r = ctx.run(d["parsed"], [bad + "_".join(c)])
            ctx.never_returns(R, f"prefix {bad!r} {n} parts", w, r, ERR)
    s = sym("any", "str", n=30, alpha="ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789")
    ctx.never_returns(R, "no colon anywhere", w, ctx.run(d["parsed"], [s]), ERR)
    s = sym("any", "str", free="F")
    ctx.never_returns(R, "no F anywhere", w, ctx.run(d["parsed"], [scat("x", s)]), ERR)


def equal(ctx, d, w):
    R = "C23.equal"
    for n in (1, 2, 3, 6):
        a, b = tuple(part("a" + x) for x in NAMES[:n]), tuple(part("b" + x) for x in NAMES[:n])
        r = ctx.run(d["eq"], [a, b])
        lab = f"{KIND[n]} any two"
        if ctx.completes(R, f"{lab}: compares", w, r):
            e = and_(*[tm.eqv(x, y) for x, y in zip(a, b)])
            ctx.eq(R, f"{lab}: equal when every code is", w, tuple(r.value), (e, e, tm.not_(e)), r.state)
        for k in range(n):
            # one code differs, the others are shared
            c = a[:k] + (b[k],) + a[k + 1:]
            r = ctx.run(d["eq"], [a, c])
            if ctx.completes(R, f"{lab} sharing all but {NAMES[k]}: compares", w, r):
                e = tm.eqv(a[k], b[k])
                ctx.eq(R, f"{lab} sharing all but {NAMES[k]}", w, tuple(r.value), (e, e, tm.not_(e)), r.state)


def equalc(ctx, d, w):
    R = "C23.equal"
    P = [("CO", "BIRD", "00", "H", "H", "Z"), ("CO", "BIRD", "00", "H", "H", "N"), ("CO", "BIRD", "00", "H", "N", "Z"), ("CO", "BIRD", "00", "B", "H", "Z"), ("CO", "BIRD", "10", "H", "H", "Z"),
         ("CO", "BIRD", "", "H", "H", "Z"), ("CO", "JSC", "00", "H", "H", "Z"), ("IU", "BIRD", "00", "H", "H", "Z"), ("co", "bird", "00", "h", "h", "z"), ("CO", "BIRD", "00", "H", "HH", "Z"), ("CO", "BIRD", "00", "H", "H", ""), ("CO", "BIRD", "00", "", "H", "Z"),
         ("CO_BIRD", "00", "H", "H", "Z", ""), ("CO", "BIRD_00", "", "H", "H", "Z"), ("CO", "BIRD", "00 ", "H", "H", "Z")]
    for n in (1, 2, 3, 6):
        for a, b in itertools.product(P, repeat=2):
            a, b = a[:n], b[:n]
            r = ctx.run(d["eq"], [a, b])
            if ctx.completes(R, f"{a} and {b}: compares", w, r):
                e = txt(a) == txt(b)
                ctx.eq(R, f"{a} and {b}", w, tuple(r.value), (e, e, not e), r.state)


def kinds(ctx, d, w):
    R = "C23.equal"
    for n, m in itertools.product((1, 2, 3, 6), repeat=2):
        if n == m:
            continue
        a, b = tuple(part("a" + x) for x in NAMES[:n]), tuple(part("b" + x) for x in NAMES[:m])
        # texts that print the same although the kinds differ
        for lab, x, y in (("any", a, b), ("same codes", a, (a + b)[:m] if m > n else a[:m]), ("same text", ("A_B_C_D_E_F",) if n == 1 else ("A",) * n, ("A_B_C_D_E_F",) if m == 1 else ("A",) * m)):
            r = ctx.run(d["eq"], [x, y])
            if ctx.completes(R, f"{KIND[n]} and {KIND[m]} {lab}: compares", w, r):
                ctx.eq(R, f"{KIND[n]} and {KIND[m]} {lab}: differ", w, tuple(r.value), (False, False, True), r.state)
    for a, b in ((("A_B",), ("A", "B")), (("A_B_C",), ("A", "B", "C")), (("A", "B_C"), ("A", "B", "C")), (("A_B_C_D_E_F",), tuple("ABCDEF")), (("A", "B", "C_D_E_F"), tuple("ABCDEF")), (("A", "B_C_D_E_F"), tuple("ABCDEF"))):
        r = ctx.run(d["eq"], [a, b])
        if ctx.completes(R, f"{a} and {b}: compares", w, r):
            ctx.eq(R, f"{a} and {b} print the same but differ in kind", w, tuple(r.value), (False, False, True), r.state)
    for n in (1, 2, 3, 6):
        a = tuple("ABCDEF"[:n])
        for o in (txt(a), None, 1, a):
            r = ctx.run(d["eqo"], [a, o])
            if ctx.completes(R, f"{KIND[n]} and {o!r}: compares", w, r):
                ctx.eq(R, f"{KIND[n]} and {o!r}: differ", w, tuple(r.value), (False, True), r.state)
