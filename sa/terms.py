"""Value graph: hash-consed terms, numeric normal form, boolean normal form, facts.

All values the abstract interpreter manipulates are either plain Python
constants (int, float, str, bytes, bool, None, tuple of values), `T` terms
(symbolic scalars) or reference objects defined in interp.py (heap objects,
functions, classes ...), which are hashable by identity.
"""
from fractions import Fraction
import itertools
import math

_table = {}
_ids = itertools.count(1)


class T:
    __slots__ = ("op", "args", "ty", "id", "_fv", "_ites")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __reduce__(self):  # never pickled
        raise TypeError


def hkey(x):
    """key distinguishing 1, 1.0 and True"""
    if isinstance(x, T):
        return ("T", x.id)
    if isinstance(x, tuple):
        return ("t",) + tuple(hkey(y) for y in x)
    if isinstance(x, ISet):
        return ("iset", x.parts)
    return (type(x).__name__, x)


def mk(op, *args, ty="any"):
    k = (op, ty, tuple(hkey(a) for a in args))
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.ty = ty
        t.id = next(_ids)
        t._fv = None
        t._ites = None
        _table[k] = t
    return t


_fresh = itertools.count(1)


def sym(name, ty="any", lo=None, hi=None, **kw):
    """a symbolic input; lo/hi closed numeric bounds (None: unbounded)"""
    extra = tuple(sorted(kw.items()))
    return mk("sym", name, lo, hi, extra, ty=ty)


def fresh(name, ty="any", lo=None, hi=None):
    return mk("sym", f"{name}#{next(_fresh)}", lo, hi, (), ty=ty)


def isconst(x):
    return isinstance(x, (int, float, str, bytes, bool, type(None), Fraction))


def isnum(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)


# ----------------------------------------------------------------- show
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
        if isinstance(t, Fraction):
            return str(t)
        return repr(t)
    if d > 14:
        return "..."
    o = t.op
    if o == "sym":
        return str(t.args[0])
    if o == "poly":
        out = []
        for mono, c in t.args[0]:
            s = "*".join(
                (show(a, d + 1) if e == 1 else f"{show(a, d+1)}^{e}") for a, e in mono
            )
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            else:
                out.append(f"{c}*{s}")
        return "(" + " + ".join(out) + ")"
    if o == "in":
        return f"{show(t.args[0], d+1)} in {t.args[1]}"
    return f"{o}(" + ", ".join(show(a, d + 1) for a in t.args) + ")"


# ----------------------------------------------------------------- interval sets
INF = None


class ISet:
    """finite union of intervals (lo, loClosed, hi, hiClosed); None infinite"""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __hash__(self):
        return hash(self.parts)

    def __eq__(self, o):
        return isinstance(o, ISet) and self.parts == o.parts

    def __repr__(self):
        out = []
        for lo, lc, hi, hc in self.parts:
            if lo is not None and lo == hi:
                out.append("{%s}" % lo)
            else:
                out.append(
                    ("[" if lc else "(")
                    + ("-inf" if lo is None else str(lo))
                    + ","
                    + ("inf" if hi is None else str(hi))
                    + ("]" if hc else ")")
                )
        return "|".join(out) if out else "{}"

    def empty(self):
        return not self.parts

    def full(self):
        return self.parts == ((None, False, None, False),)

    def contains(self, v):
        for lo, lc, hi, hc in self.parts:
            if lo is not None and (v < lo or (v == lo and not lc)):
                continue
            if hi is not None and (v > hi or (v == hi and not hc)):
                continue
            return True
        return False

    def inter(self, o):
        out = []
        for a in self.parts:
            for b in o.parts:
                p = _pinter(a, b)
                if p:
                    out.append(p)
        return norm_iset(out)

    def union(self, o):
        return norm_iset(self.parts + o.parts)

    def compl(self):
        cur = ISet([(None, False, None, False)])
        for lo, lc, hi, hc in self.parts:
            bits = []
            if lo is not None:
                bits.append((None, False, lo, not lc))
            if hi is not None:
                bits.append((hi, not hc, None, False))
            cur = cur.inter(ISet(bits))
        return cur

    def subset(self, o):
        return self.inter(o.compl()).empty()

    def single(self):
        if len(self.parts) == 1:
            lo, lc, hi, hc = self.parts[0]
            if lo is not None and lo == hi:
                return lo
        return None

    def ints(self):
        """tighten to integer points"""
        out = []
        for lo, lc, hi, hc in self.parts:
            if lo is not None:
                l2 = math.ceil(lo)
                if l2 == lo and not lc:
                    l2 += 1
                lo, lc = Fraction(l2), True
            if hi is not None:
                h2 = math.floor(hi)
                if h2 == hi and not hc:
                    h2 -= 1
                hi, hc = Fraction(h2), True
            if lo is not None and hi is not None and lo > hi:
                continue
            out.append((lo, lc, hi, hc))
        # glue integer neighbours
        out = norm_iset(out).parts
        glued = []
        for p in out:
            if glued and glued[-1][2] is not None and p[0] is not None and p[0] - glued[-1][2] == 1:
                g = glued[-1]
                glued[-1] = (g[0], g[1], p[2], p[3])
            else:
                glued.append(p)
        return ISet(glued)


def _lokey(p):
    lo, lc = p[0], p[1]
    return (0, 0, 0) if lo is None else (1, lo, 0 if lc else 1)


def _pinter(a, b):
    lo, lc = max((_lokey(a), a[0], a[1]), (_lokey(b), b[0], b[1]), key=lambda z: z[0])[1:]
    ha = (1, 0, 0) if a[2] is None else (0, a[2], 1 if a[3] else 0)
    hb = (1, 0, 0) if b[2] is None else (0, b[2], 1 if b[3] else 0)
    if ha <= hb:
        hi, hc = a[2], a[3]
    else:
        hi, hc = b[2], b[3]
    if lo is not None and hi is not None:
        if lo > hi or (lo == hi and not (lc and hc)):
            return None
    return (lo, lc, hi, hc)


def norm_iset(parts):
    parts = sorted(parts, key=_lokey)
    out = []
    for p in parts:
        if out:
            q = out[-1]
            # overlap or touch?
            if q[2] is None:
                continue
            if p[0] is None or p[0] < q[2] or (p[0] == q[2] and (p[1] or q[3])):
                if p[2] is None or p[2] > q[2] or (p[2] == q[2] and p[3]):
                    out[-1] = (q[0], q[1], p[2], p[3])
                continue
        out.append(p)
    return ISet(out)


FULL = ISet([(None, False, None, False)])
EMPTY = ISet([])


def iv(lo, hi, lc=True, hc=True):
    f = lambda z: None if z is None else frac(z)
    return ISet([(f(lo), lc and lo is not None, f(hi), hc and hi is not None)])


def point(v):
    return iv(v, v)


# ----------------------------------------------------------------- numeric
def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise ValueError("inf")
        return Fraction(repr(x))
    raise TypeError(type(x))


DT = {  # numpy dtypes: kind, size
    "int8": ("i", 1), "int16": ("i", 2), "int32": ("i", 4), "int64": ("i", 8),
    "uint8": ("u", 1), "uint16": ("u", 2), "uint32": ("u", 4), "uint64": ("u", 8),
    "float16": ("f", 2), "float32": ("f", 4), "float64": ("f", 8), "bool": ("b", 1),
}


def dt_range(dt):
    k, s = DT[dt]
    if k == "i":
        return (-(1 << (8 * s - 1)), (1 << (8 * s - 1)) - 1)
    if k == "u":
        return (0, (1 << (8 * s)) - 1)
    if k == "b":
        return (0, 1)
    return (None, None)


UNP_RANGE = {
    "b": (-128, 127), "B": (0, 255), "h": (-32768, 32767), "H": (0, 65535),
    "i": (-(1 << 31), (1 << 31) - 1), "l": (-(1 << 31), (1 << 31) - 1),
    "I": (0, (1 << 32) - 1), "L": (0, (1 << 32) - 1),
    "q": (-(1 << 63), (1 << 63) - 1), "Q": (0, (1 << 64) - 1),
    "f": (None, None), "d": (None, None), "?": (0, 1),
}


def atom_int(a):
    return a.ty in ("int", "bool")


def atom_range(a):
    """intrinsic closed range of a numeric atom as ISet"""
    op = a.op
    if op == "sym":
        return iv(a.args[1], a.args[2])
    if op in ("len", "blen", "slen"):
        return iv(0, None)
    if op == "unp":
        r = UNP_RANGE.get(a.args[0])
        c = a.args[2]
        if a.args[0] == "B" and isinstance(c, T) and c.op == "sub" and c.args[2] == 1 and isinstance(c.args[1], int) and isinstance(c.args[0], T) and c.args[0].op == "fld":
            # one byte of an integer field of known range
            code, endian, v = c.args[0].args
            if code in "HIQhiq" and UNP_RANGE.get(code):
                e = hull(rng(v)).parts
                size = {"H": 2, "I": 4, "Q": 8}[code.upper()]
                k = c.args[1] if endian == "<" else size - 1 - c.args[1]
                if e and e[0][0] is not None and e[0][2] is not None and e[0][0] >= 0:
                    lo, hi = int(e[0][0]), int(e[0][2])
                    if lo >> (8 * k + 8) == hi >> (8 * k + 8):
                        return iv((lo >> (8 * k)) & 255, (hi >> (8 * k)) & 255)
        if r:
            return iv(*r)
        return FULL
    if op == "wrap":
        lo, hi = dt_range(a.args[0])
        r = iv(lo, hi)
        e = rng(a.args[1])
        if e.subset(r):
            return e
        return r
    if op == "elem":
        dt = arr_dtype(a.args[0])
        if dt:
            return iv(*dt_range(dt))
        return FULL
    if op == "ite":
        return rng(a.args[1]).union(rng(a.args[2]))
    if op == "band":
        for x in a.args:
            if isinstance(x, int) and x >= 0:
                return iv(0, x)
        return FULL
    if op == "bor":
        rs = [hull(rng(x)) for x in a.args]
        if all(r.parts and r.parts[0][0] is not None and r.parts[0][0] >= 0 for r in rs):
            his = [r.parts[0][2] for r in rs]
            if all(h is not None for h in his):
                m = max(int(h) for h in his)
                return iv(0, (1 << m.bit_length()) - 1)
            return iv(0, None)
        return FULL
    if op == "mod":
        m = a.args[1]
        if isnum(m) and m > 0:
            return iv(0, m - 1) if atom_int(a) else iv(0, m, True, False)
        return FULL
    if op in ("floor", "trunc", "round", "ceil"):
        r = hull(rng(a.args[0]))
        if r.parts:
            lo, _, hi, _ = r.parts[0]
            if op == "floor":
                f = math.floor
                return iv(None if lo is None else f(lo), None if hi is None else f(hi))
            if op == "trunc":
                f = lambda z: math.floor(z) if z >= 0 else math.ceil(z)
                return iv(None if lo is None else f(lo), None if hi is None else f(hi))
            if op == "round":
                return iv(None if lo is None else round(lo), None if hi is None else round(hi))
            return iv(None if lo is None else math.ceil(lo), None if hi is None else math.ceil(hi))
        return FULL
    if op == "abs":
        return iv(0, None)
    if op == "min":
        rs = [hull(rng(x)) for x in a.args]
        his = [r.parts[0][2] for r in rs if r.parts and r.parts[0][2] is not None]
        los = [r.parts[0][0] if r.parts else None for r in rs]
        return iv(None if any(l is None for l in los) else min(los), min(his) if his else None)
    if op == "max":
        rs = [hull(rng(x)) for x in a.args]
        los = [r.parts[0][0] for r in rs if r.parts and r.parts[0][0] is not None]
        his = [r.parts[0][2] if r.parts else None for r in rs]
        return iv(max(los) if los else None, None if any(h is None for h in his) else max(his))
    if op in ("amin", "amax"):
        dt = arr_dtype(a.args[0])
        if dt:
            return iv(*dt_range(dt))
    return FULL


def arr_dtype(a):
    if isinstance(a, T):
        if a.op == "sym":
            for k, v in a.args[3]:
                if k == "dtype":
                    return v
        if a.op in ("astype", "frombuffer", "arrof"):
            return a.args[1]
    return None


def hull(s):
    if not s.parts:
        return s
    a, b = s.parts[0], s.parts[-1]
    return ISet([(a[0], a[1], b[2], b[3])])


def _add(p, mono, c):
    n = p.get(mono, 0) + c
    if n == 0:
        p.pop(mono, None)
    else:
        p[mono] = n


def window(r, lo, hi):
    """what wrapping takes off every value of range r, or None"""
    if not r.parts:
        return None
    a, b = r.parts[0][0], r.parts[-1][2]
    if a is None or b is None:
        return None
    size = int(hi - lo) + 1
    k = (a - lo) // size
    return int(k) * size if (b - lo) // size == k else None


def P(x):
    """polynomial dict {mono: Fraction}; mono = tuple((atom, exp)...)"""
    if isinstance(x, T):
        if x.op == "poly":
            return dict(x.args[0])
        if x.op == "wrap":
            lo, hi = dt_range(x.args[0])
            if lo is None:
                return P(x.args[1])  # float dtypes: reals, no rounding
            if is_int(x.args[1]):
                k = window(rng(x.args[1]), lo, hi)
                if k is not None:
                    return P(sub(x.args[1], k) if k else x.args[1])
        if x.ty == "bool":
            return P(mk("ite", x, 1, 0, ty="int"))
        return {((x, 1),): Fraction(1)}
    if isinstance(x, (bool, int, float, Fraction)):
        f = frac(x)
        return {(): f} if f else {}
    raise TypeError(f"not numeric: {x!r}")


def is_int(x):
    if isinstance(x, T):
        if x.op == "poly":
            return x.ty == "int"
        if x.op == "ite":
            return is_int(x.args[1]) and is_int(x.args[2])
        return x.ty in ("int", "bool")
    if isinstance(x, float):
        return False
    if isinstance(x, Fraction):
        return x.denominator == 1
    return isinstance(x, int)


def unP(p, ty=None):
    if not p:
        return 0 if ty != "real" else 0.0
    if len(p) == 1:
        (mono, c), = p.items()
        if mono == ():
            if c.denominator == 1 and ty != "real":
                return int(c)
            f = float(c)
            return f
        if c == 1 and len(mono) == 1 and mono[0][1] == 1:
            return mono[0][0]
    items = tuple(sorted(p.items(), key=lambda kv: tuple((a.id, e) for a, e in kv[0])))
    if ty is None:
        ty = "int"
        for mono, c in items:
            if c.denominator != 1 or any((not atom_int(a)) or e < 0 for a, e in mono):
                ty = "real"
    return mk("poly", items, ty="real" if ty == "real" else "int")


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda z: z[0].id))


def _numty(*xs):
    """'real' if a python float is definitely involved"""
    return None


def add(a, b):
    p = P(a)
    for m, c in P(b).items():
        _add(p, m, c)
    return _fin(p, a, b)


def _fin(p, *xs):
    t = unP(p)
    if isinstance(t, int) and any(is_real(x) for x in xs):
        return float(t)
    return t


def is_real(x):
    return isinstance(x, float) or (isinstance(x, T) and x.ty == "real")


def neg(a):
    return _fin({m: -c for m, c in P(a).items()}, a)


def sub(a, b):
    p = P(a)
    for m, c in P(b).items():
        _add(p, m, -c)
    return _fin(p, a, b)


def mul(a, b):
    pa, pb = P(a), P(b)
    if len(pa) * len(pb) > 400:
        return mk("mulop", a, b, ty="real")
    p = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            _add(p, _mono_mul(m1, m2), c1 * c2)
    return _fin(p, a, b)


def inv(a):
    p = P(a)
    if not p:
        raise ZeroDivisionError
    if len(p) == 1:
        (mono, c), = p.items()
        # push 1/x through conditional
        if c and len(mono) == 1 and mono[0][0].op == "ite" and mono[0][1] == 1:
            it = mono[0][0]
            try:
                return ite(it.args[0], inv(mul(it.args[1], c)), inv(mul(it.args[2], c)))
            except ZeroDivisionError:
                pass
        return unP({tuple((x, -e) for x, e in mono): 1 / c}, "real")
    # make leading coefficient one so that 1/(2x+2y) = 1/2 * 1/(x+y)
    items = sorted(((m, c) for m, c in p.items() if m), key=lambda kv: tuple((x.id, e) for x, e in kv[0]))
    lead = items[0][1]
    base = unP({m: c / lead for m, c in p.items()}, None)
    r = mk("inv", base, ty="real")
    return mul(r, 1 / lead) if lead != 1 else r


def div(a, b):
    if isnum(a) and isnum(b):
        r = frac(a) / frac(b)
        return float(r)
    if isnum(b) and b:
        return unP({m: c / frac(b) for m, c in P(a).items()}, "real")
    t = mul(a, inv(b))
    if isinstance(t, int):
        return float(t)
    return t


def _lift1(f, x, n=4):
    """push a unary function through an ite (few levels)"""
    if isinstance(x, T) and x.op == "ite" and n:
        return ite(x.args[0], _lift1(f, x.args[1], n - 1), _lift1(f, x.args[2], n - 1))
    return None


def floor_(x):
    if isnum(x):
        return math.floor(frac(x))
    r = _lift1(floor_, x)
    if r is not None:
        return r
    p = P(x)
    if is_int(x):
        return x
    # split integer part
    ip, rest = {}, {}
    for m, c in p.items():
        if all(atom_int(a) and e > 0 for a, e in m) and c.denominator == 1:
            ip[m] = c
        else:
            rest[m] = c
    if not rest:
        return unP(ip)
    rt = unP(rest, "real")
    if not isnum(rt):
        h = hull(rng(rt))
        if h.parts:
            lo, lc, hi, hc = h.parts[0]
            if lo is not None and hi is not None and math.floor(lo) == (math.floor(hi) if hc or hi != math.floor(hi) else hi - 1):
                return add(unP(ip), math.floor(lo))
    else:
        return add(unP(ip), math.floor(frac(rt)))
    a = mk("floor", rt, ty="int")
    return add(unP(ip), a)


def trunc_(x):
    if isinstance(x, bool):
        return int(x)
    if isnum(x):
        return math.trunc(frac(x))
    if isinstance(x, T) and x.ty == "bool":
        return ite(x, 1, 0)
    if is_int(x):
        return x
    r = _lift1(trunc_, x)
    if r is not None:
        return r
    if rng(x).subset(iv(0, None)):
        return floor_(x)
    return mk("trunc", x, ty="int")


def floordiv(a, b):
    return floor_(div_t(a, b))


def div_t(a, b):
    if isnum(a) and isnum(b):
        return frac(a) / frac(b)
    if isnum(b) and b:
        return unP({m: c / frac(b) for m, c in P(a).items()}, "real")
    return mul(a, inv(b))


def mod_(a, b):
    if isnum(a) and isnum(b):
        r = frac(a) % frac(b)
        return int(r) if r.denominator == 1 and isinstance(a, int) and isinstance(b, int) else float(r)
    if isnum(b) and b > 0 and is_int(a) and isinstance(b, int):
        # drop multiples of b
        p = {m: c for m, c in P(a).items()}
        q = {}
        for m, c in p.items():
            if all(e > 0 for _, e in m) and c.denominator == 1:
                r = c % b
                if r:
                    q[m] = Fraction(r)
            else:
                q[m] = c
        a2 = unP(q)
        if isnum(a2):
            return mod_(a2, b)
        if rng(a2).subset(iv(0, b - 1)):
            return a2
        return mk("mod", a2, b, ty="int")
    return mk("mod", a, b, ty="int" if is_int(a) and is_int(b) else "real")


def pow_(a, b):
    if isnum(a) and isnum(b):
        r = a ** b
        return r
    if isinstance(b, int) and 0 <= b <= 4:
        r = 1
        for _ in range(b):
            r = mul(r, a)
        return r
    if isnum(a) and a == 2 and is_int(b):
        return mk("pow2", b, ty="int")
    return mk("pow", a, b, ty="int" if is_int(a) and is_int(b) else "real")


def mono_range(mono):
    lo, hi = Fraction(1), Fraction(1)
    for a, e in mono:
        r = hull(atom_range(a))
        if not r.parts:
            return FULL
        l, _, h, _ = r.parts[0]
        if e < 0:
            return FULL
        for _ in range(e):
            lo, hi = _imul(lo, hi, l, h)
    return iv(lo, hi)


def _imul(l1, h1, l2, h2):
    # None = infinite
    vals = []
    inf = False
    for x, sx in ((l1, -1), (h1, 1)):
        for y, sy in ((l2, -1), (h2, 1)):
            vals.append(_xm(x, sx, y, sy))
    lo = min(vals, key=lambda z: z[0:2])
    hi = max(vals, key=lambda z: z[0:2])
    return (None if lo[0] else lo[1], None if hi[0] else hi[1])


def _xm(x, sx, y, sy):
    """extended product: (infsign, value)"""
    if x is not None and y is not None:
        return (0, x * y)
    if x is None and y is None:
        return (sx * sy, Fraction(0))
    if x is None:
        if y == 0:
            return (0, Fraction(0))
        return (sx * (1 if y > 0 else -1), Fraction(0))
    if x == 0:
        return (0, Fraction(0))
    return (sy * (1 if x > 0 else -1), Fraction(0))


def rng(x, facts=None):
    """ISet containing the numeric value x"""
    if isinstance(x, (bool, int, float, Fraction)):
        try:
            return point(x)
        except ValueError:
            return FULL
    if not isinstance(x, T):
        return FULL
    if x.op != "poly":
        if x.op == "wrap" and not P(x) == {((x, 1),): Fraction(1)}:
            return rng(unP(P(x)), facts)
        r = atom_range(x) if x.ty in ("int", "real", "num", "any") else FULL
        if facts is not None:
            f = facts.iv.get(x)
            if f is not None:
                r = r.inter(f)
        if atom_int(x):
            r = r.ints()
        return r
    p = dict(x.args[0])
    lo = hi = Fraction(0)
    for mono, c in p.items():
        if mono == ():
            l = h = c
        else:
            if facts is not None and len(mono) == 1 and mono[0][1] == 1:
                r = hull(rng(mono[0][0], facts))
            elif facts is not None and all(e > 0 for _, e in mono):
                l, h = Fraction(1), Fraction(1)
                for a, e in mono:
                    rr = hull(rng(a, facts))
                    if not rr.parts:
                        return EMPTY
                    for _ in range(e):
                        l, h = _imul(l, h, rr.parts[0][0], rr.parts[0][2])
                r = iv(l, h)
            else:
                r = mono_range(mono)
            if not r.parts:
                return EMPTY
            l, _, h, _ = r.parts[0]
            l, h = _imul(l, h, c, c)
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
    r = iv(lo, hi)
    if facts is not None:
        q, a, b = canon(p)
        f = facts.iv.get(q)
        if f is not None:
            r = r.inter(scale(f, a, b))
    if x.ty == "int":
        r = r.ints()
    return r


def scale(s, a, b):
    """{a*v+b : v in s}"""
    out = []
    for lo, lc, hi, hc in s.parts:
        l = None if lo is None else a * lo + b
        h = None if hi is None else a * hi + b
        if a < 0:
            out.append((h, hc, l, lc))
        else:
            out.append((l, lc, h, hc))
    return norm_iset(out)


def canon(p):
    """p = a*q + b, q canonical (no constant, leading coefficient 1)"""
    b = p.get((), Fraction(0))
    items = [(m, c) for m, c in p.items() if m]
    items.sort(key=lambda kv: tuple((x.id, e) for x, e in kv[0]))
    a = items[0][1]
    q = unP({m: c / a for m, c in items})
    return q, a, b


# ----------------------------------------------------------------- booleans
def find_ite(x, limit=60):
    """an ite atom occurring linearly/nonlinearly in numeric x"""
    if isinstance(x, T):
        if x.op == "ite":
            return x
        if x.op == "poly":
            for mono, c in x.args[0]:
                for a, e in mono:
                    if a.op == "ite":
                        return a
                    if a.op == "wrap":
                        f = find_ite(a.args[1])
                        if f is not None:
                            return f
        if x.op == "wrap":
            return find_ite(x.args[1])
        if x.op in ("floor", "trunc", "mod", "band", "bor", "shl", "shr"):
            for a in x.args:
                f = find_ite(a)
                if f is not None:
                    return f
    return None


def subst(x, m, memo=None):
    """replace atoms/terms by mapping and rebuild"""
    if memo is None:
        memo = {}
    return _subst(x, m, memo)


def _subst(x, m, memo):
    if isinstance(x, tuple):
        return tuple(_subst(y, m, memo) for y in x)
    if not isinstance(x, T):
        return x
    if x in m:
        return m[x]
    r = memo.get(x)
    if r is not None:
        return r[0]
    if x.op == "sym":
        r = x
    else:
        r = rebuild(x, lambda a: _subst(a, m, memo))
    memo[x] = (r,)
    return r


REBUILD = {}
EVAL = [False]  # set while a value graph is evaluated on constants


def rebuild(x, f):
    """re-apply the smart constructor with mapped children"""
    op = x.op
    if op == "poly":
        acc = 0
        changed = False
        for mono, c in x.args[0]:
            for a, e in mono:
                if f(a) is not a:
                    changed = True
        if not changed:
            return x
        for mono, c in x.args[0]:
            t = c if c.denominator != 1 else int(c)
            for a, e in mono:
                fa = f(a)
                if e < 0:
                    try:
                        fa = inv(fa)
                    except ZeroDivisionError:
                        return mk("undef", x, ty="real")
                for _ in range(abs(e)):
                    t = mul(t, fa)
            acc = add(acc, t)
        if isinstance(acc, Fraction):
            acc = float(acc)
        return acc
    if op == "in":
        q = f(x.args[0])
        if q is x.args[0]:
            return x
        return in_set(q, x.args[1])
    new = tuple(f(a) if isinstance(a, (T, tuple)) else a for a in x.args)
    if EVAL[0] and op in REBUILD and not any(isinstance(a, T) for a in new):
        return REBUILD[op](x, *new)
    if all(a is b for a, b in zip(new, x.args)):
        return x
    if all(hkey(a) == hkey(b) for a, b in zip(new, x.args)):
        return x
    c = REBUILD.get(op)
    if c:
        return c(x, *new)
    return mk(op, *new, ty=x.ty)


def in_set(q, s):
    """numeric q in ISet s, normalised"""
    if isnum(q) or isinstance(q, bool):
        return s.contains(frac(q))
    if isinstance(q, T) and q.ty == "bool":
        q = mk("ite", q, 1, 0, ty="int") if q.op != "ite" else q
    it = find_ite(q)
    if it is not None:
        a = in_set(subst(q, {it: it.args[1]}), s)
        b = in_set(subst(q, {it: it.args[2]}), s)
        return ite_b(it.args[0], a, b)
    p = P(q)
    if not p or (len(p) == 1 and () in p):
        return s.contains(p.get((), Fraction(0)))
    q2, a, b = canon(p)
    # a*q2+b in s  -> q2 in (s-b)/a
    s2 = scale(s, 1 / a, -b / a)
    if is_int(q2):
        s2 = s2.ints()
    r = rng(q2)
    if r.subset(s2):
        return True
    if r.inter(s2).empty():
        return False
    if isinstance(q2, T) and q2.op == "poly" and len(q2.args[0]) == 1:
        mono, k = q2.args[0][0]
        if len(mono) == 1 and mono[0][1] == -1 and k == 1:
            return in_set(mono[0][0], recip(s2))
        # a product is zero iff a factor is
        mono = q2.args[0][0][0]
        if len(mono) > 1 or mono[0][1] != 1:
            z = point(0)
            if s2 == z or s2.compl() == z or (is_int(q2) and s2.compl().ints() == z):
                e = or_(*[in_set(x, z) for x, k in mono if k > 0])
                return e if s2 == z else not_(e)
    return mk("in", q2, s2, ty="bool")


def recip(s):
    """{x : 1/x in s} (zero is in no such set)"""
    out = []
    for part in s.parts:
        for neg in (False, True):
            q = ISet((part,)).inter(iv(None, 0, False, False) if neg else iv(0, None, False, False))
            for lo, lc, hi, hc in q.parts:
                if neg:
                    a, ac = (None, False) if hi is None or hi == 0 else (Fraction(1) / hi, hc)
                    b, bc = (Fraction(0), False) if lo is None else (Fraction(1) / lo, lc)
                else:
                    a, ac = (Fraction(0), False) if hi is None else (Fraction(1) / hi, hc)
                    b, bc = (None, False) if lo is None or lo == 0 else (Fraction(1) / lo, lc)
                out.append(iv(a, b, ac, bc))
    r = ISet(())
    for x in out:
        r = r.union(x) if hasattr(r, "union") else ISet(r.parts + x.parts)
    return r


def cmp_(op, a, b):
    """numeric comparison"""
    d = sub(a, b)
    if op == "<":
        return in_set(d, iv(None, 0, False, False))
    if op == "<=":
        return in_set(d, iv(None, 0))
    if op == ">":
        return in_set(d, iv(0, None, False, False))
    if op == ">=":
        return in_set(d, iv(0, None))
    if op == "==":
        return in_set(d, point(0))
    if op == "!=":
        return not_(in_set(d, point(0)))
    raise ValueError(op)


_NOT = {}
_AND = {}
_OR = {}


def not_(c):
    if c is True:
        return False
    if c is False:
        return True
    r = _NOT.get(c)
    if r is None:
        r = _NOT[c] = _not(c)
    return r


def and_(*cs):
    r = _AND.get(cs)
    if r is None:
        r = _AND[cs] = _and(*cs)
    return r


def or_(*cs):
    r = _OR.get(cs)
    if r is None:
        r = _OR[cs] = _or(*cs)
    return r


def _not(c):
    if c.op == "not":
        return c.args[0]
    if c.op == "in":
        s = c.args[1].compl()
        if is_int(c.args[0]):
            s = s.ints()
        return mk("in", c.args[0], s, ty="bool")
    if c.op == "and":
        return or_(*[not_(x) for x in c.args])
    if c.op == "or":
        return and_(*[not_(x) for x in c.args])
    if c.op == "ite":
        return ite_b(c.args[0], not_(c.args[1]), not_(c.args[2]))
    return mk("not", c, ty="bool")


def _and(*cs):
    out = {}
    ins = {}
    stack = list(cs)[::-1]
    order = []
    while stack:
        c = stack.pop()
        if c is True:
            continue
        if c is False:
            return False
        if c.op == "and":
            stack.extend(reversed(c.args))
            continue
        if c.op == "in":
            q = c.args[0]
            if q in ins:
                s = ins[q].inter(c.args[1])
                if is_int(q):
                    s = s.ints()
                if s.empty():
                    return False
                ins[q] = s
            else:
                ins[q] = c.args[1]
                order.append(q)
            continue
        if c in out:
            continue
        if not_(c) in out:
            return False
        out[c] = True
        order.append(c)
    res = []
    for o in order:
        if o in ins and o not in out:
            t = mk("in", o, ins[o], ty="bool")
            if rng(o).subset(ins[o]):
                continue
            res.append(t)
        else:
            res.append(o)
    # absorption: drop an or-clause containing one of the literals
    rs = set(res)
    res2 = []
    for r in res:
        if r.op == "or":
            if any(x in rs for x in r.args):
                continue
            rem = tuple(x for x in r.args if not_(x) not in rs)
            if len(rem) != len(r.args):
                return and_(*[(or_(*rem) if z is r else z) for z in res])
        res2.append(r)
    if not res2:
        return True
    if len(res2) == 1:
        return res2[0]
    return mk("and", *sorted(set(res2), key=lambda t: t.id), ty="bool")


def _or(*cs):
    ins = {}
    out = {}
    order = []
    stack = list(cs)[::-1]
    while stack:
        c = stack.pop()
        if c is False:
            continue
        if c is True:
            return True
        if c.op == "or":
            stack.extend(reversed(c.args))
            continue
        if c.op == "in":
            q = c.args[0]
            if q in ins:
                s = ins[q].union(c.args[1])
                if is_int(q):
                    s = s.ints()
                ins[q] = s
                if s.full() or rng(q).subset(s):
                    return True
            else:
                ins[q] = c.args[1]
                order.append(q)
            continue
        if c in out:
            continue
        if not_(c) in out:
            return True
        out[c] = True
        order.append(c)
    res = []
    for o in order:
        if o in ins and o not in out:
            res.append(mk("in", o, ins[o], ty="bool"))
        else:
            res.append(o)
    rs = set(res)
    res2 = []
    for r in res:
        if r.op == "and":
            if any(x in rs for x in r.args):
                continue
            rem = tuple(x for x in r.args if not_(x) not in rs)
            if len(rem) != len(r.args):
                return or_(*[(and_(*rem) if z is r else z) for z in res])
        res2.append(r)
    # (a and b) or (a and not b) => a
    if len(res2) == 2 and res2[0].op == "and" and res2[1].op == "and":
        a, b = set(res2[0].args), set(res2[1].args)
        common = a & b
        if common:
            ra = and_(*[x for x in res2[0].args if x not in common])
            rb = and_(*[x for x in res2[1].args if x not in common])
            if ra is not True and rb is not True and or_(ra, rb) is True:
                return and_(*common)
    if not res2:
        return False
    if len(res2) == 1:
        return res2[0]
    return mk("or", *sorted(set(res2), key=lambda t: t.id), ty="bool")


def isbool(x):
    return isinstance(x, bool) or (isinstance(x, T) and x.ty == "bool")


def ite_b(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b):
        return a
    if a is True:
        return or_(c, b)
    if a is False:
        return and_(not_(c), b)
    if b is True:
        return or_(not_(c), a)
    if b is False:
        return and_(c, a)
    return or_(and_(c, a), and_(not_(c), b))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, T) or isinstance(b, T):
        return False
    try:
        return type(a) is type(b) and a == b
    except Exception:
        return False


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if isbool(a) and isbool(b):
        return ite_b(c, a, b)
    if c.op == "not":
        return ite(c.args[0], b, a)
    if isinstance(a, T) and a.op == "ite":
        if a.args[0] is c:
            a = a.args[1]
        elif a.args[0] is not_(c):
            a = a.args[2]
    if isinstance(b, T) and b.op == "ite":
        if b.args[0] is c:
            b = b.args[2]
        elif b.args[0] is not_(c):
            b = b.args[1]
    if same(a, b):
        return a
    if isinstance(a, T) and a.op == "ite" and same(a.args[2], b):
        return ite(and_(c, a.args[0]), a.args[1], b)
    if isinstance(b, T) and b.op == "ite" and same(b.args[1], a):
        return ite(or_(c, b.args[0]), a, b.args[2])
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and type(a) is type(b) is tuple:
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    ty = vty(a) if vty(a) == vty(b) else ("real" if {vty(a), vty(b)} <= {"int", "real"} else "any")
    return mk("ite", c, a, b, ty=ty)


def vty(x):
    if isinstance(x, T):
        return x.ty
    if isinstance(x, bool):
        return "bool"
    if isinstance(x, int):
        return "int"
    if isinstance(x, (float, Fraction)):
        return "real"
    if isinstance(x, str):
        return "str"
    if isinstance(x, bytes):
        return "bytes"
    if x is None:
        return "none"
    return "obj"


# ----------------------------------------------------------------- bit operators
def _ibits(op, a, b):
    if op == "band":
        return a & b
    if op == "bor":
        return a | b
    return a ^ b


def bitop(op, a, b):
    if isinstance(a, bool) and isinstance(b, bool) and op in ("band", "bor"):
        return (a and b) if op == "band" else (a or b)
    if isbool(a) and isbool(b):
        if op == "band":
            return and_(a, b)
        if op == "bor":
            return or_(a, b)
    a, b = nconst(a), nconst(b)
    if isinstance(a, int) and isinstance(b, int):
        return _ibits(op, a, b)
    args = []
    for x in (a, b):
        if isinstance(x, T) and x.op == op:
            args.extend(x.args)
        else:
            args.append(x)
    consts = [x for x in args if isinstance(x, int)]
    rest = [x for x in args if not isinstance(x, int)]
    if op in ("band", "bor"):
        seen = []
        for r in rest:
            if r not in seen:
                seen.append(r)
        rest = seen
    k = None
    for c in consts:
        k = c if k is None else _ibits(op, k, c)
    if op == "band" and k == 0:
        return 0
    if op in ("bor", "bxor") and k == 0:
        k = None
    if op == "band" and k is not None and k > 0 and (k & (k + 1)) == 0 and len(rest) == 1:
        if rng(rest[0]).subset(iv(0, k)) and is_int(rest[0]):
            return rest[0]
    rest.sort(key=lambda t: t.id if isinstance(t, T) else 0)
    if k is not None:
        rest.append(k)
    if not rest:
        return 0
    if len(rest) == 1:
        return rest[0]
    return mk(op, *rest, ty="int")


def nconst(x):
    """numeric constant hidden in wrap/poly"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, T) and x.op == "wrap":
        p = P(x)
        if not p or (len(p) == 1 and () in p):
            return int(p.get((), 0))
    return x


def shl(a, n):
    n = nconst(n)
    a = nconst(a)
    if isinstance(n, int):
        if n < 0:
            return mk("undef", ty="int")
        return mul(a, 1 << n)
    if isinstance(a, int) and a == 0:
        return 0
    if isinstance(n, T) and n.op == "ite":
        return ite(n.args[0], shl(a, n.args[1]), shl(a, n.args[2]))
    return mk("shl", a, n, ty="int")


def shr(a, n):
    n = nconst(n)
    a = nconst(a)
    if isinstance(n, int):
        if n < 0:
            return mk("undef", ty="int")
        if isinstance(a, int):
            return a >> n
        if n == 0:
            return a
        return mk("shr", a, n, ty="int")
    return mk("shr", a, n, ty="int")


def wrap(dt, x):
    """numpy scalar of dtype dt holding x (wrapping)"""
    if isinstance(x, T) and x.op == "wrap":
        if x.args[0] == dt:
            return x
        lo, hi = dt_range(dt)
        if lo is not None and rng(x).subset(iv(lo, hi)):
            pass
    if isinstance(x, T) and x.op == "ite":
        return ite(x.args[0], wrap(dt, x.args[1]), wrap(dt, x.args[2]))
    if isinstance(x, T) and x.op == "elem" and arr_dtype(x.args[0]) == dt:
        return x
    ty = "real" if DT[dt][0] == "f" else "int"
    if isnum(x) and DT[dt][0] in "iu":
        k, s = DT[dt]
        v = int(x) & ((1 << (8 * s)) - 1)
        if k == "i" and v >> (8 * s - 1):
            v -= 1 << (8 * s)
        x = v
    elif isinstance(x, T) and x.op == "poly" and DT[dt][0] in "iu" and is_int(x):
        k = window(rng(x), *dt_range(dt))
        if k:
            x = sub(x, k)
    return mk("wrap", dt, x, ty=ty)


def npdt(x):
    if isinstance(x, T):
        if x.op == "wrap":
            return x.args[0]
        if x.op == "elem":
            return arr_dtype(x.args[0])
        if x.op == "sym":
            for k, v in x.args[3]:
                if k == "npdt":
                    return v
        if x.op in ("amin", "amax"):
            return arr_dtype(x.args[0])
        if x.op == "ite":
            a, b = npdt(x.args[1]), npdt(x.args[2])
            return a if a == b else None
    return None


# ----------------------------------------------------------------- equality atoms
def eqv(a, b):
    """equality of non-numeric values"""
    if same(a, b):
        return True
    ca, cb = isconst(a), isconst(b)
    if ca and cb:
        return a == b
    if isinstance(a, T) and a.op == "ite":
        return ite_b(a.args[0], eqv(a.args[1], b), eqv(a.args[2], b))
    if isinstance(b, T) and b.op == "ite":
        return ite_b(b.args[0], eqv(a, b.args[1]), eqv(a, b.args[2]))
    ta, tb = vty(a), vty(b)
    numeric = ("int", "real", "bool")
    if ta in numeric and tb in numeric:
        if ta == "bool" and tb == "bool":
            return ite_b(a, b, not_(b))
        return cmp_("==", a, b)
    if ta in numeric and tb == "any" or tb in numeric and ta == "any":
        return mk("eqv", *sorted2(a, b), ty="bool")
    if ta != tb and "any" not in (ta, tb):
        return False
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and a.op in ("dictv", "seqv"):
        r = _eq_parts(a, b)
        if r is not None:
            return r
    return mk("eqv", *sorted2(a, b), ty="bool")


def _eq_parts(a, b):
    x, y = a.args[0], b.args[0]
    if a.op == "seqv":
        if not isinstance(x, tuple) or not isinstance(y, tuple):
            return None
        return and_(len(x) == len(y), *[eqv(p, q) for p, q in zip(x, y)]) if len(x) == len(y) else False
    if not all(isinstance(e, tuple) and all(isinstance(z, tuple) and len(z) == 3 and z[2] is True and not isinstance(z[0], T) for z in e) for e in (x, y)):
        return None
    dx, dy = {e[0]: e[1] for e in x}, {e[0]: e[1] for e in y}
    if set(dx) != set(dy):
        return False
    return and_(*[eqv(dx[k], dy[k]) for k in dx]) if dx else True


def sorted2(a, b):
    ka = (1, a.id) if isinstance(a, T) else (0, repr(a))
    kb = (1, b.id) if isinstance(b, T) else (0, repr(b))
    return (a, b) if ka <= kb else (b, a)


def _rb(op):
    def deco(f):
        REBUILD[op] = f
        return f
    return deco


REBUILD["ite"] = lambda x, c, a, b: ite(c, a, b)
REBUILD["and"] = lambda x, *a: and_(*a)
REBUILD["or"] = lambda x, *a: or_(*a)
REBUILD["not"] = lambda x, a: not_(a)
REBUILD["floor"] = lambda x, a: floor_(a)
REBUILD["trunc"] = lambda x, a: trunc_(a)
REBUILD["mod"] = lambda x, a, b: mod_(a, b)
REBUILD["inv"] = lambda x, a: _inv_safe(x, a)
REBUILD["band"] = lambda x, *a: _fold(lambda p, q: bitop("band", p, q), a)
REBUILD["bor"] = lambda x, *a: _fold(lambda p, q: bitop("bor", p, q), a)
REBUILD["bxor"] = lambda x, *a: _fold(lambda p, q: bitop("bxor", p, q), a)
REBUILD["shl"] = lambda x, a, b: shl(a, b)
REBUILD["shr"] = lambda x, a, b: shr(a, b)
REBUILD["wrap"] = lambda x, d, a: wrap(d, a)
REBUILD["eqv"] = lambda x, a, b: eqv(a, b)
REBUILD["pow"] = lambda x, a, b: pow_(a, b)
REBUILD["pow2"] = lambda x, b: pow_(2, b)


def _inv_safe(x, a):
    try:
        return inv(a)
    except ZeroDivisionError:
        return mk("undef", x, ty="real")


def _fold(f, a):
    r = a[0]
    for y in a[1:]:
        r = f(r, y)
    return r


# ----------------------------------------------------------------- facts
class Facts:
    __slots__ = ("iv", "tv", "clauses", "sub", "dead", "memo")

    def __init__(self):
        self.iv = {}
        self.tv = {}
        self.clauses = ()
        self.sub = {}
        self.dead = False
        self.memo = {}

    def copy(self):
        f = Facts()
        f.iv = dict(self.iv)
        f.tv = dict(self.tv)
        f.clauses = self.clauses
        f.sub = dict(self.sub)
        f.dead = self.dead
        return f

    def assume(self, c):
        """add condition; returns False on contradiction"""
        if c is True:
            return not self.dead
        if c is False:
            self.dead = True
            return False
        self.memo = {}
        self._assume(c)
        # unit propagation over clauses
        for _ in range(6):
            if self.dead:
                break
            new = []
            changed = False
            for cl in self.clauses:
                v = self._clause(cl)
                if v is True:
                    changed = True
                    continue
                if v is False:
                    self.dead = True
                    break
                if v is not cl:
                    changed = True
                    if v.op != "or":
                        self.memo = {}
                        self._assume(v)
                        continue
                new.append(v)
            self.clauses = tuple(new) + tuple(x for x in self.clauses[len(self.clauses):])
            if not changed:
                break
        return not self.dead

    def _clause(self, cl):
        out = []
        for x in cl.args:
            v = self.val(x)
            if v is True:
                return True
            if v is False:
                continue
            out.append(x)
        if len(out) == len(cl.args):
            return cl
        return or_(*out)

    def _assume(self, c):
        if c is True:
            return
        if c is False:
            self.dead = True
            return
        if c.op == "and":
            for x in c.args:
                self._assume(x)
            return
        if c.op == "or":
            v = self._clause(c)
            if v is True:
                return
            if v is False:
                self.dead = True
                return
            if v.op == "or":
                self.clauses = self.clauses + (v,)
            else:
                self._assume(v)
            return
        if c.op == "in":
            q, s = c.args
            cur = self.iv.get(q)
            r = rng(q, self)
            s2 = s.inter(r)
            if is_int(q):
                s2 = s2.ints()
            if s2.empty():
                self.dead = True
                return
            self.iv[q] = s2
            v = s2.single()
            if v is not None and q.op != "poly":
                self.sub[q] = int(v) if v.denominator == 1 and is_int(q) else (float(v) if v.denominator != 1 else float(v) if not is_int(q) else int(v))
            elif v is not None and q.op == "poly":
                self._lin_sub(q, v)
            self._derive(q, s2)
            return
        if c.op == "not":
            a = c.args[0]
            if self.tv.get(a) is True:
                self.dead = True
            self.tv[a] = False
            return
        if self.tv.get(c) is False:
            self.dead = True
        self.tv[c] = True
        if c.op == "eqv":
            a, b = c.args
            if isconst(a) and isinstance(b, T):
                self.sub[b] = a
            elif isconst(b) and isinstance(a, T):
                self.sub[a] = b

    def _lin_sub(self, q, v):
        return

    def _derive(self, q, s):
        return

    def val(self, c):
        """simplify bool c under facts (shallow recursion)"""
        if isinstance(c, bool):
            return c
        if c.op == "in":
            r = rng(c.args[0], self)
            if r.empty():
                return True
            if r.subset(c.args[1]):
                return True
            if r.inter(c.args[1]).empty():
                return False
            h = self._combo(c.args[0], c.args[1])
            if h is not None:
                return h
            # substitution may decide
            if self.sub:
                q = subst(c.args[0], self.sub)
                if q is not c.args[0]:
                    n = in_set(q, c.args[1])
                    if isinstance(n, bool):
                        return n
                    if n is not c and n.op == "in":
                        r = rng(n.args[0], self)
                        if r.subset(n.args[1]):
                            return True
                        if r.inter(n.args[1]).empty():
                            return False
            return c
        v = self.tv.get(c)
        if v is not None:
            return v
        if c.op == "not":
            return not_(self.val(c.args[0]))
        if c.op == "and":
            out = []
            for x in c.args:
                v = self.val(x)
                if v is False:
                    return False
                out.append(v)
            return and_(*out)
        if c.op == "or":
            out = []
            for x in c.args:
                v = self.val(x)
                if v is True:
                    return True
                out.append(v)
            return or_(*out)
        if c.op == "eqv" and self.sub:
            n = subst(c, self.sub)
            if n is not c:
                return n if isinstance(n, bool) else (self.tv.get(n, c) if isinstance(n, T) else c)
        return c

    def _combo(self, q, s):
        """bound q as sum of two known directions (one step)"""
        if not isinstance(q, T) or q.op != "poly":
            pq = P(q)
        else:
            pq = dict(q.args[0])
        atoms = set()
        for m in pq:
            for a, _ in m:
                atoms.add(a)
        best = None
        n = 0
        for k, fs in self.iv.items():
            if not (isinstance(k, T) and k.op == "poly"):
                continue
            pk = dict(k.args[0])
            if not any(a in atoms for m in pk for a, _ in m):
                continue
            n += 1
            if n > 80:
                break
            # coefficients to try: match any shared monomial
            tried = set()
            for m, c in pk.items():
                if m in pq:
                    lam = pq[m] / c
                    if lam in tried:
                        continue
                    tried.add(lam)
                    rest = dict(pq)
                    for m2, c2 in pk.items():
                        _add(rest, m2, -lam * c2)
                    rr = hull(rng(unP(rest), self))
                    kk = hull(scale(fs, lam, 0))
                    if rr.empty() or kk.empty():
                        continue
                    a, b = rr.parts[0], kk.parts[0]
                    lo = None if a[0] is None or b[0] is None else a[0] + b[0]
                    hi = None if a[2] is None or b[2] is None else a[2] + b[2]
                    r = iv(lo, hi, a[1] and b[1], a[3] and b[3])
                    if is_int(q):
                        r = r.ints()
                    if best is None:
                        best = r
                    else:
                        best = best.inter(r)
        if best is not None:
            best = best.inter(rng(q, self))
            if best.subset(s):
                return True
            if best.inter(s).empty():
                return False
        return None


def simp(x, facts, memo=None):
    """simplify a value under facts: decided conditions, known equalities"""
    if memo is None:
        memo = {}
    if isinstance(x, tuple):
        return tuple(simp(y, facts, memo) for y in x)
    if not isinstance(x, T):
        return x
    r = memo.get(x)
    if r is not None:
        return r[0]
    if x in facts.sub:
        res = facts.sub[x]
        memo[x] = (res,)
        return res
    if x.ty == "bool":
        v = facts.val(x)
        if isinstance(v, bool):
            memo[x] = (v,)
            return v
    if x.op == "ite":
        c = simp(x.args[0], facts, memo)
        if isinstance(c, bool):
            res = simp(x.args[1] if c else x.args[2], facts, memo)
        else:
            fa = facts.copy()
            fb = facts.copy()
            res = None
            if not fa.assume(c):
                res = simp(x.args[2], facts, memo)
            elif not fb.assume(not_(c)):
                res = simp(x.args[1], facts, memo)
            else:
                res = ite(c, simp(x.args[1], fa), simp(x.args[2], fb))
    elif x.op == "sym":
        res = x
    else:
        res = rebuild(x, lambda a: simp(a, facts, memo))
        if isinstance(res, T) and res is not x and res.ty == "bool":
            v = facts.val(res)
            if isinstance(v, bool):
                res = v
    memo[x] = (res,)
    return res


def subterms(x, seen=None):
    """all subterms (T) reachable"""
    if seen is None:
        seen = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
            continue
        if not isinstance(y, T) or y in seen:
            continue
        seen.add(y)
        if y.op == "poly":
            for mono, c in y.args[0]:
                for a, e in mono:
                    stack.append(a)
        else:
            stack.extend(a for a in y.args if isinstance(a, (T, tuple)))
    return seen


def find_cond(x, facts, depth=0):
    """outermost undecided ite condition in x"""
    queue = [x]
    seen = set()
    while queue:
        nxt = []
        for y in queue:
            if isinstance(y, tuple):
                nxt.extend(y)
                continue
            if not isinstance(y, T) or y in seen:
                continue
            seen.add(y)
            if y.op == "ite":
                return y.args[0]
            if y.op == "poly":
                for mono, c in y.args[0]:
                    nxt.extend(a for a, e in mono)
            else:
                nxt.extend(a for a in y.args if isinstance(a, (T, tuple)))
        queue = nxt
    return None


def cases(x, facts, limit=4000, split_bools=False):
    """decision-tree leaves of value x: list of (facts, x simplified, no ite left)"""
    out = []
    stack = [(facts.copy(), x)]
    while stack:
        f, y = stack.pop()
        y = simp(y, f)
        c = find_cond(y, f)
        if c is None and split_bools:
            c = find_bool(y)
        if c is None:
            out.append((f, y))
            if len(out) > limit:
                raise Budget("too many cases")
            continue
        fa = f.copy()
        fb = f.copy()
        oka = fa.assume(c)
        okb = fb.assume(not_(c))
        if okb:
            stack.append((fb, y))
        if oka:
            stack.append((fa, y))
        if not oka and not okb:
            continue
    return out


def find_bool(y):
    """an atomic literal of a boolean value to split on"""
    if isinstance(y, T) and y.ty == "bool":
        if y.op in ("and", "or"):
            return find_bool(y.args[0])
        if y.op == "not":
            return y.args[0]
        return y
    if isinstance(y, tuple):
        for z in y:
            r = find_bool(z)
            if r is not None:
                return r
    return None


class Budget(Exception):
    pass


def sat(facts, c, budget):
    """False if condition c is refuted by case analysis over its alternatives under the facts"""
    if isinstance(c, bool):
        return c
    f = facts.copy()
    lits, ors, todo = [], [], [c]
    while todo:
        x = todo.pop()
        if isinstance(x, bool):
            if not x:
                return False
        elif x.op == "and":
            todo.extend(x.args)
        elif x.op == "or":
            ors.append(x)
        else:
            lits.append(x)
    for x in lits:
        if f.assume(x) is False or f.dead:
            return False
    if ors and budget > 0:
        for x in ors:
            x = f.val(x)
            if x is False:
                return False
            if isinstance(x, T) and x.op == "or" and not any(sat(f, y, budget // len(x.args)) for y in x.args):
                return False
            if isinstance(x, T) and x.op != "or" and not sat(f, x, budget // 2):
                return False
        # products and other derived ranges under the new facts
    for x in lits:
        if f.val(x) is False:
            return False
    return True
