"""datetime / timedelta models: instants are microsecond terms"""
import datetime as pydt
from .terms import *
from . import terms as tm
from . import models as M
from .models import ext, meth, EXT, METH, BINOP, GETITEM, ATTR, CMP, EXTATTR, CLSMETH, kind, numeric
from .interp import Obj, Ext

DAY = 86400 * 10**6
HOUR = 3600 * 10**6
MIN = 60 * 10**6
SEC = 10**6
EPOCH = pydt.date(1970, 1, 1).toordinal()
UTC = mk("tz", 0, ty="tz")
EXTATTR["datetime.timezone.utc"] = UTC
EXTATTR["datetime.UTC"] = UTC
EXTATTR["datetime.datetime.min"] = mk("dt", (pydt.date(1, 1, 1).toordinal() - EPOCH) * DAY, None, ty="dt")
EXTATTR["datetime.datetime.max"] = mk("dt", (pydt.date(9999, 12, 31).toordinal() - EPOCH) * DAY + DAY - 1, None, ty="dt")


def td(us):
    return mk("td", us, ty="td")


def dt(w, off):
    return mk("dt", w, off, ty="dt")


tm.REBUILD["dt"] = lambda x, w, o: dt(w, o)
tm.REBUILD["td"] = lambda x, u: td(u)


# ------------------------------------------------------------------ calendar
def ystart(y):
    """days since the epoch of January 1st of year y"""
    if isnum(y):
        y = int(y)
        if 1 <= y <= 9999:
            return pydt.date(y, 1, 1).toordinal() - EPOCH
    if isinstance(y, T) and y.op == "ite":
        return ite(y.args[0], ystart(y.args[1]), ystart(y.args[2]))
    return mk("ystart", y, ty="int")


tm.REBUILD["ystart"] = lambda x, y: ystart(y)


def split_year(D):
    """(year, day offset) when D is ystart(y)+k with k provably inside the year"""
    if isnum(D):
        d = pydt.date.fromordinal(int(D) + EPOCH)
        return d.year, d.timetuple().tm_yday - 1
    for m, c in P(D).items():
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ystart":
            k = sub(D, m[0][0])
            if rng(k).subset(iv(0, 364)):
                return m[0][0].args[0], k
    return None


NAMES = ("year", "yday", "month", "day", "hour", "minute", "second", "microsecond")
RNG = {"year": (1, 9999), "yday": (1, 366), "month": (1, 12), "day": (1, 31), "hour": (0, 23), "minute": (0, 59),
       "second": (0, 59), "microsecond": (0, 999999)}


def fdiv(w, n):
    return floor_(div_t(w, n))


def nofloor(x):
    return isnum(x) or not any(a.op in ("floor", "dtf") for a in subterms(x) if isinstance(a, T))


def dtf(name, w):
    """calendar field of a wall clock microsecond term"""
    if isinstance(w, T) and w.op == "ite":
        return ite(w.args[0], dtf(name, w.args[1]), dtf(name, w.args[2]))
    if name in ("hour", "minute", "second", "microsecond"):
        x = part_poly(name, w)
        if isnum(x) or top_nofloor(x):
            return x
        return mk("dtf", name, whole_periods(w, PERIOD[name]), ty="int")
    D = fdiv(w, DAY)
    s = split_year(D)
    if s is not None:
        if name == "year":
            return s[0]
        if name == "yday":
            return add(s[1], 1)
        if isnum(D):
            d = pydt.date.fromordinal(int(D) + EPOCH)
            return d.month if name == "month" else d.day
    if isinstance(D, T) and name in ("month", "day"):
        for m, c in P(D).items():
            if c == 1 and len(m) == 1 and m[0][0].op == "ymd" and isnum(sub(D, m[0][0])) and sub(D, m[0][0]) == 0:
                return m[0][0].args[1 if name == "month" else 2]
    return mk("dtf", name, mul(D, DAY) if True else w, ty="int")


PERIOD = {"hour": DAY, "minute": HOUR, "second": MIN, "microsecond": SEC}


def whole_periods(w, n):
    """drop whole periods of a field, which do not change it"""
    p = P(w)
    q = {m: c for m, c in p.items() if not (c.denominator == 1 and c % n == 0 and all(atom_int(a) and e > 0 for a, e in m))}
    return w if len(p) == len(q) or not q else unP(q)


def top_nofloor(x):
    return not any(a.op == "floor" for m in P(x) for a, e in m)


def part_poly(name, w):
    if name == "hour":
        return sub(fdiv(w, HOUR), mul(24, fdiv(w, DAY)))
    if name == "minute":
        return sub(fdiv(w, MIN), mul(60, fdiv(w, HOUR)))
    if name == "second":
        return sub(fdiv(w, SEC), mul(60, fdiv(w, MIN)))
    return sub(fdiv(w, 1), mul(SEC, fdiv(w, SEC)))


tm.REBUILD["dtf"] = lambda x, n, w: dtf(n, w)
_ar0 = tm.atom_range


def _ar(a):
    if a.op == "dtf":
        return iv(*RNG[a.args[0]])
    if a.op == "ystart":
        return iv(ystart(1), ystart(9999))
    return _ar0(a)


tm.atom_range = _ar


def expand(w):
    """replace calendar fields by their definition at the top of a sum so that rebuilt instants cancel"""
    if isnum(w):
        return w
    out = 0
    ch = False
    for m, c in P(w).items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "dtf":
            n, b = m[0][0].args
            if n in ("hour", "minute", "second", "microsecond"):
                out = add(out, mul(c, part_poly(n, b)))
                ch = True
                continue
            if n == "yday":
                D = fdiv(b, DAY)
                out = add(out, mul(c, add(sub(D, ystart(dtf("year", b))), 1)))
                ch = True
                continue
        out = add(out, unP({m: c}))
    return out if ch else w


def bad_range(x, lo, hi):
    return or_(cmp_("<", x, lo), cmp_(">", x, hi))


def check(I, st, node, conds, what):
    bad = or_(*[st.facts.val(c) if isinstance(c, T) else c for c in conds])
    if isinstance(bad, T):
        bad = st.facts.val(bad)
    if bad is not False:
        I.event("dtrange", node, st, cond=bad, what=what)
    if bad is True:
        I.do_raise(st, I.new_exc("ValueError", (what,), st), node)
    if bad is not False:
        I.may_raise(st, "ValueError", node, bad)


def mkdt(I, st, node, y, mo, d, h=0, mi=0, s=0, us=0, tz=None):
    for v in (y, mo, d, h, mi, s, us):
        if not numeric(v) and kind(v) != "any" or is_real(v) and kind(v) == "real":
            I.event("typeerror", node, st, what="datetime argument")
            I.do_raise(st, I.new_exc("TypeError", ("an integer is required",), st), node)
    check(I, st, node, [bad_range(y, 1, 9999), bad_range(mo, 1, 12), bad_range(d, 1, 31), bad_range(h, 0, 23), bad_range(mi, 0, 59), bad_range(s, 0, 59), bad_range(us, 0, 999999)], "datetime field out of range")
    if isnum(mo) and isnum(d) and mo == 1:
        D = add(ystart(y), d - 1)
    elif isnum(y) and isnum(mo) and isnum(d):
        try:
            D = pydt.date(y, mo, d).toordinal() - EPOCH
        except ValueError:
            I.do_raise(st, I.new_exc("ValueError", ("day is out of range",), st), node)
    else:
        D = mk("ymd", y, mo, d, ty="int")
    w = add(add(mul(D, DAY), mul(h, HOUR)), add(mul(mi, MIN), add(mul(s, SEC), us)))
    return dt(norm(expand(w)), offset(tz))


def norm(w):
    return w


def offset(tz):
    if tz is None:
        return None
    if isinstance(tz, T):
        if tz.op == "tz":
            return tz.args[0]
        if tz.op == "ite":
            return ite(tz.args[0], offset(tz.args[1]), offset(tz.args[2]))
    return mk("tzoff", tz if isinstance(tz, T) or isconst(tz) else M.v_id(tz), ty="int")


@ext("datetime.datetime")
def _dt(I, a, kw, st, node):
    nm = ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo")
    v = dict(zip(nm, a))
    v.update(kw)
    v.pop("fold", None)
    return mkdt(I, st, node, v.get("year"), v.get("month"), v.get("day"), v.get("hour", 0), v.get("minute", 0), v.get("second", 0), v.get("microsecond", 0), v.get("tzinfo"))


@ext("datetime.timedelta")
def _td(I, a, kw, st, node):
    nm = ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks")
    mult = {"days": DAY, "seconds": SEC, "microseconds": 1, "milliseconds": 1000, "minutes": MIN, "hours": HOUR, "weeks": 7 * DAY}
    v = dict(zip(nm, a))
    v.update(kw)
    us = 0
    for k, x in v.items():
        if not numeric(x) and kind(x) != "any":
            if isinstance(x, T) and x.op == "ite":
                return NotImplemented
            I.event("typeerror", node, st, what="timedelta argument")
            I.do_raise(st, I.new_exc("TypeError", (), st), node)
        us = add(us, mul(x, mult[k]))
    from .m_num import round_, toint
    us = round_(us) if not is_int(us) else toint(us)
    if isinstance(us, float):
        us = int(us)
    return td(us)


@ext("datetime.timezone")
def _tz(I, a, kw, st, node):
    x = a[0]
    if isinstance(x, T) and x.op == "td":
        return mk("tz", x.args[0], ty="tz")
    return NotImplemented


def from_iso(I, s, st, node):
    if isinstance(s, str):
        try:
            d = pydt.datetime.fromisoformat(s)
        except ValueError:
            I.do_raise(st, I.new_exc("ValueError", (s,), st), node)
        off = None if d.tzinfo is None else int(d.utcoffset().total_seconds() * SEC)
        n = d.replace(tzinfo=None)
        return dt((n.toordinal() - EPOCH) * DAY + n.hour * HOUR + n.minute * MIN + n.second * SEC + n.microsecond, off)
    if isinstance(s, T) and s.op == "iso":
        return dt(s.args[0], s.args[1])
    if isinstance(s, T) and s.op == "isoz":
        return dt(s.args[0], s.args[1])
    f = M.freeze(s, st)
    if isinstance(f, T) and any(isinstance(x, T) and x.op in ("iso", "isoz") for x in subterms(f)):
        return M.opaque(I, "fromisoformat", [f], st, node)
    I.may_raise(st, "ValueError", node)
    w = mk("isowall", f, ty="int")
    return ite(mk("isonaive", f, ty="bool"), dt(w, None), dt(w, mk("isooff", f, ty="int")))


for _k in ("fromisoformat",):
    CLSMETH[("datetime.datetime", _k)] = lambda I, a, kw, st, node: from_iso(I, a[0], st, node)
    EXT["datetime.datetime." + _k] = CLSMETH[("datetime.datetime", _k)]
EXT["dateutil.parser.isoparse"] = CLSMETH[("datetime.datetime", "fromisoformat")]


def _now(I, a, kw, st, node):
    tz = a[0] if a else kw.get("tz", None)
    return dt(fresh("now", "int", 0, 250000000 * 10**9), offset(tz))


EXT["datetime.datetime.now"] = _now
EXT["datetime.datetime.utcnow"] = lambda I, a, kw, st, node: dt(fresh("now", "int", 0, 250000000 * 10**9), None)


def _fromts(I, a, kw, st, node):
    from .m_num import round_
    tz = a[1] if len(a) > 1 else kw.get("tz", None)
    us = mul(a[0], SEC)
    return dt(round_(us), offset(tz)) if tz is not None else M.opaque(I, "fromtimestamp", a, st, node)


EXT["datetime.datetime.fromtimestamp"] = _fromts
EXT["datetime.datetime.utcfromtimestamp"] = lambda I, a, kw, st, node: _fromts(I, [a[0], UTC], {}, st, node)


# ------------------------------------------------------------------ attributes
def _field(n):
    def f(I, o, st, node):
        if o.op == "ite":
            return I.branch(o.args[0], st, lambda s: f(I, o.args[1], s, node), lambda s: f(I, o.args[2], s, node))
        if o.op != "dt":
            return NotImplemented
        return dtf(n, o.args[0])
    return f


for _n in ("year", "month", "day", "hour", "minute", "second", "microsecond"):
    ATTR[("dt", _n)] = _field(_n)


def _tzinfo(I, o, st, node):
    if o.op == "ite":
        return ite(o.args[0], _tzinfo(I, o.args[1], st, node), _tzinfo(I, o.args[2], st, node))
    if o.op != "dt":
        return NotImplemented
    return None if o.args[1] is None else mk("tz", o.args[1], ty="tz")


ATTR[("dt", "tzinfo")] = _tzinfo


def each(f):
    """distribute a method over conditional datetimes"""
    def g(I, o, a, kw, st, node):
        if isinstance(o, T) and o.op == "ite":
            return I.branch(o.args[0], st, lambda s: g(I, o.args[1], a, kw, s, node), lambda s: g(I, o.args[2], a, kw, s, node))
        if o.op not in ("dt", "td"):
            return NotImplemented
        return f(I, o, a, kw, st, node)
    return g


@meth("dt", "timetuple", "utctimetuple")
@each
def _timetuple(I, o, a, kw, st, node):
    w = o.args[0]
    o2 = Obj("struct_time", site=node)
    f = {"tm_year": "year", "tm_mon": "month", "tm_mday": "day", "tm_hour": "hour", "tm_min": "minute", "tm_sec": "second", "tm_yday": "yday"}
    st.heap[o2] = {k: dtf(v, w) for k, v in f.items()}
    return o2


def _stget(I, o, i, st, node):
    ks = ("tm_year", "tm_mon", "tm_mday", "tm_hour", "tm_min", "tm_sec", "tm_wday", "tm_yday")
    if isinstance(i, int) and 0 <= i < 8 and i != 6:
        return st.heap[o][ks[i]]
    return NotImplemented


GETITEM["struct_time"] = _stget


@meth("dt", "utcoffset")
@each
def _utcoff(I, o, a, kw, st, node):
    return None if o.args[1] is None else td(o.args[1])


@meth("dt", "replace")
@each
def _replace(I, o, a, kw, st, node):
    w, off = o.args
    kw = dict(kw)
    if "tzinfo" in kw:
        off = offset(kw.pop("tzinfo"))
    for n, u in (("hour", HOUR), ("minute", MIN), ("second", SEC), ("microsecond", 1)):
        if n in kw:
            x = kw.pop(n)
            lo, hi = RNG[n]
            check(I, st, node, [bad_range(x, lo, hi)], n)
            w = add(sub(w, mul(u, part_poly(n, w))), mul(u, x))
            w = expand(w)
    if kw or a:
        vals = {n: dtf(n, w) for n in ("year", "month", "day", "hour", "minute", "second", "microsecond")}
        vals.update(kw)
        r = mkdt(I, st, node, *[vals[n] for n in ("year", "month", "day", "hour", "minute", "second", "microsecond")])
        return dt(r.args[0], off)
    return dt(w, off)


@meth("dt", "astimezone")
@each
def _astz(I, o, a, kw, st, node):
    tz = a[0] if a else kw.get("tz")
    w, off = o.args
    to = offset(tz) if tz is not None else mk("localoff", w, ty="int")
    if off is None:
        off = mk("localoff", w, ty="int")
        I.event("localtime", node, st, value=o)
    return dt(add(sub(w, off), to), to)


@meth("dt", "isoformat")
@each
def _iso(I, o, a, kw, st, node):
    w, off = o.args
    if isinstance(w, int) and (off is None or isinstance(off, int)) and not a and not kw:
        return topy(w, off).isoformat()
    if a or kw:
        return mk("opaque", "isoformat", w, off, tuple(M.freeze(x, st) for x in a), tuple(sorted((k, M.freeze(v, st)) for k, v in kw.items())), ty="str")
    return mk("iso", w, off, ty="str")


def topy(w, off):
    d = pydt.datetime(1970, 1, 1) + pydt.timedelta(microseconds=w)
    if off is not None:
        d = d.replace(tzinfo=pydt.timezone.utc if off == 0 else pydt.timezone(pydt.timedelta(microseconds=off)))
    return d


_rep0 = METH.get(("str", "replace"))


def _replace_str(I, s, a, kw, st, node):
    if isinstance(s, T) and s.op == "iso" and isinstance(s.args[1], int) and s.args[1] == 0 and a[0] == "+00:00" and a[1] == "Z":
        return mk("isoz", *s.args, ty="str")
    if isinstance(s, T) and s.op == "isoz" and a[0] == "Z" and a[1] == "+00:00":
        return mk("iso", *s.args, ty="str")
    if isinstance(s, T) and s.op == "iso" and a[0] == "Z":
        return s  # isoformat() never writes a Z
    return _rep0(I, s, a, kw, st, node)


METH[("str", "replace")] = _replace_str


@meth("dt", "strftime")
@each
def _strftime(I, o, a, kw, st, node):
    w, off = o.args
    if isinstance(w, int) and isinstance(a[0], str):
        return topy(w, off).strftime(a[0])
    return mk("strftime", w, off, M.freeze(a[0], st), ty="str")


@meth("dt", "timestamp")
@each
def _timestamp(I, o, a, kw, st, node):
    w, off = o.args
    if off is None:
        off = mk("localoff", w, ty="int")
    return div(sub(w, off), SEC)


@meth("td", "total_seconds")
@each
def _totsec(I, o, a, kw, st, node):
    r = div(o.args[0], SEC)
    return float(r) if isinstance(r, int) else r


ATTR[("td", "days")] = lambda I, o, st, node: fdiv(o.args[0], DAY) if o.op == "td" else NotImplemented
ATTR[("td", "seconds")] = lambda I, o, st, node: sub(fdiv(o.args[0], SEC), mul(86400, fdiv(o.args[0], DAY))) if o.op == "td" else NotImplemented
ATTR[("td", "microseconds")] = lambda I, o, st, node: sub(o.args[0], mul(SEC, fdiv(o.args[0], SEC))) if o.op == "td" else NotImplemented


# ------------------------------------------------------------------ arithmetic
def _ites(x):
    return isinstance(x, T) and x.op == "ite"


def b_time(I, op, a, b, st, node, inplace):
    ka, kb = kind(a, st), kind(b, st)
    if ka not in ("dt", "td") and kb not in ("dt", "td"):
        return NotImplemented
    if _ites(a) and ka in ("dt", "td"):
        return I.branch(a.args[0], st, lambda s: M.binop(I, op, a.args[1], b, s, node), lambda s: M.binop(I, op, a.args[2], b, s, node))
    if _ites(b) and kb in ("dt", "td"):
        return I.branch(b.args[0], st, lambda s: M.binop(I, op, a, b.args[1], s, node), lambda s: M.binop(I, op, a, b.args[2], s, node))
    from .m_num import round_
    okt = lambda x: isinstance(x, T) and x.op in ("dt", "td")
    if ka in ("dt", "td") and not okt(a) or kb in ("dt", "td") and not okt(b):
        return mk("opaque", "time" + op, M.freeze(a, st), M.freeze(b, st), ty="any")
    if ka == "dt" and kb == "td" and op in ("Add", "Sub"):
        x = (add if op == "Add" else sub)(a.args[0], b.args[0])
        return dt(expand(x), a.args[1])
    if ka == "td" and kb == "dt" and op == "Add":
        return dt(expand(add(a.args[0], b.args[0])), b.args[1])
    if ka == kb == "dt" and op == "Sub":
        oa, ob = a.args[1], b.args[1]
        if (oa is None) != (ob is None):
            I.event("typeerror", node, st, what="naive/aware")
            I.do_raise(st, I.new_exc("TypeError", (), st), node)
        return td(sub(sub(a.args[0], oa or 0), sub(b.args[0], ob or 0)))
    if ka == kb == "td":
        if op in ("Add", "Sub"):
            return td((add if op == "Add" else sub)(a.args[0], b.args[0]))
        if op in ("Div", "FloorDiv", "Mod"):
            r = M.binop(I, op, a.args[0], b.args[0], st, node)
            return td(r) if op == "Mod" else r
    if ka == "td" and numeric(b):
        if op == "Mult":
            return td(round_(mul(a.args[0], b)))
        if op == "Div":
            return td(round_(M.binop(I, "Div", a.args[0], b, st, node)))
        if op == "FloorDiv":
            return td(M.binop(I, "FloorDiv", a.args[0], b, st, node))
    if kb == "td" and numeric(a) and op == "Mult":
        return td(round_(mul(b.args[0], a)))
    return NotImplemented


BINOP.insert(0, b_time)


def cmp_time(I, op, a, b, st, node):
    ka, kb = kind(a, st), kind(b, st)
    if ka not in ("dt", "td") or kb != ka:
        return NotImplemented
    if _ites(a):
        return I.branch(a.args[0], st, lambda s: M.compare(I, op, a.args[1], b, s, node), lambda s: M.compare(I, op, a.args[2], b, s, node))
    if _ites(b):
        return I.branch(b.args[0], st, lambda s: M.compare(I, op, a, b.args[1], s, node), lambda s: M.compare(I, op, a, b.args[2], s, node))
    if a.op != ka or b.op != kb:
        return NotImplemented
    x, y = a.args[0], b.args[0]
    if ka == "dt":
        oa, ob = a.args[1], b.args[1]
        if (oa is None) != (ob is None):
            if op == "Eq":
                return False
            I.event("typeerror", node, st, what="naive/aware")
            I.do_raise(st, I.new_exc("TypeError", (), st), node)
        x, y = sub(x, oa or 0), sub(y, ob or 0)
    return cmp_({"Eq": "==", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[op], x, y)


CMP.append(cmp_time)


def _localoff(x, w):
    from . import fold
    if fold.EVAL[0] and isnum(w):
        return -5 * HOUR  # a host west of Greenwich
    return mk("localoff", w, ty="int")


tm.REBUILD["localoff"] = _localoff
