"""numeric models: python numbers, numpy scalars, builtins over numbers"""
import math
from .terms import *
from . import terms as tm
from . import models as M
from .models import ext, meth, EXT, METH, BINOP, kind, numeric
from .interp import Obj, Ext, RangeV, BMeth, Star, ClassV, FuncV, GenV


def promote(da, db):
    if da == db:
        return da
    ka, sa = DT[da]
    kb, sb = DT[db]
    if ka == "b":
        return db
    if kb == "b":
        return da
    if ka == kb:
        return da if sa >= sb else db
    if "f" in (ka, kb):
        f, o = (da, db) if ka == "f" else (db, da)
        fs, os_ = DT[f][1], DT[o][1]
        need = {1: 2, 2: 4, 4: 8, 8: 8}[os_]
        return "float%d" % (8 * max(fs, need))
    i, u = (da, db) if ka == "i" else (db, da)
    is_, us = DT[i][1], DT[u][1]
    if is_ > us:
        return i
    return {1: "int16", 2: "int32", 4: "int64", 8: "float64"}[us]


def res_dt(a, b, div_=False):
    da, db = npdt(a), npdt(b)
    if da is None and db is None:
        return None
    if da and db:
        d = promote(da, db)
    else:
        d = da or db
        o = b if da else a
        if is_real(o) and DT[d][0] != "f":
            d = "float64"
    if div_ and DT[d][0] != "f":
        d = "float64"
    return d


def w(d, x):
    return wrap(d, x) if d else x


def is_arr(v, st):
    return kind(v, st) == "ndarray"


OPS = {"Add": add, "Sub": sub, "Mult": mul}


def split_op(f, a, b, facts, depth=0):
    """push an operation through conditional operands (int bit operations)"""
    return f(a, b)


def b_num(I, op, a, b, st, node, inplace):
    if not (numeric(a) and numeric(b)):
        ka, kb = kind(a, st), kind(b, st)
        if {ka, kb} <= {"any", "int", "real", "bool"} and "any" in (ka, kb) and (ka != "any" or kb != "any" or op not in ("Add", "Mod")):
            if op == "Mod" and ka == "any" or op == "Add" and ka == kb:
                return NotImplemented
            if op not in ("Add", "Sub", "Mult", "Div", "FloorDiv", "Mod", "Pow", "BitAnd", "BitOr", "BitXor", "LShift", "RShift"):
                return NotImplemented
        else:
            return NotImplemented
    if isinstance(a, bool) and not isinstance(b, bool):
        a = int(a)
    if isinstance(b, bool) and not isinstance(a, bool):
        b = int(b)
    if op in OPS:
        return w(res_dt(a, b), OPS[op](a, b))
    if op == "Div":
        return do_div(I, a, b, st, node, "Div")
    if op in ("FloorDiv", "Mod"):
        return do_div(I, a, b, st, node, op)
    if op == "Pow":
        return w(res_dt(a, b), pow_(a, b))
    if op in ("BitAnd", "BitOr", "BitXor"):
        o = {"BitAnd": "band", "BitOr": "bor", "BitXor": "bxor"}[op]
        if isbool(a) and isbool(b) and op == "BitXor":
            return not_(ite_b(a, b, not_(b)))
        return w(res_dt(a, b), bit_lift(lambda x, y: bitop(o, x, y), a, b))
    if op in ("LShift", "RShift"):
        d = npdt(a) or None
        if npdt(b) and npdt(a):
            d = promote(npdt(a), npdt(b))
        elif npdt(b) and not npdt(a):
            d = npdt(b)
        f = shl if op == "LShift" else shr
        return w(d, bit_lift(f, a, b))
    return NotImplemented


def bit_lift(f, a, b):
    if isinstance(a, T) and a.op == "ite":
        return ite(a.args[0], bit_lift(f, a.args[1], b), bit_lift(f, a.args[2], b))
    if isinstance(b, T) and b.op == "ite":
        return ite(b.args[0], bit_lift(f, a, b.args[1]), bit_lift(f, a, b.args[2]))
    return f(a, b)


def do_div(I, a, b, st, node, op):
    d = res_dt(a, b, op == "Div")
    z = cmp_("==", b, 0)
    if isinstance(z, T):
        z = st.facts.val(z)
    if npdt(b) is None and npdt(a) is None:
        if z is True:
            I.event("zerodiv", node, st, num=a, den=b)
            I.do_raise(st, I.new_exc("ZeroDivisionError", (), st), node)
        if z is not False:
            I.event("zerodiv", node, st, num=a, den=b)
            I.may_raise(st, "ZeroDivisionError", node, z)
            b2 = simp(b, st.facts)
            if not (isnum(b2) and b2 == 0):
                b = b2 if isinstance(b2, T) and b2.op != "ite" else b
    elif z is True:
        return mk("undef", "div0", a, ty="real")
    return w(d, div_val(a, b, op))


def div_val(a, b, op):
    if isinstance(b, T) and b.op == "ite" and op != "Div":
        return ite(b.args[0], div_val(a, b.args[1], op), div_val(a, b.args[2], op))
    try:
        if op == "Div":
            return as_real(div(a, b))
        if op == "FloorDiv":
            r = floordiv(a, b)
            return float(r) if isinstance(r, int) and (is_real(a) or is_real(b)) else r
        return mod_(a, b)
    except ZeroDivisionError:
        return mk("undef", "div0", a, ty="real")


def as_real(x):
    return float(x) if isinstance(x, int) and not isinstance(x, bool) else x


BINOP.append(b_num)


def num_unary(I, op, v, st, node):
    if isinstance(v, T) and v.op == "ite" and not numeric(v):
        return ite(v.args[0], num_unary(I, op, v.args[1], st, node), num_unary(I, op, v.args[2], st, node))
    k = kind(v, st)
    if k == "td":
        from .m_time import td
        return td(neg(v.args[0]))
    if op == "-":
        if isinstance(v, bool):
            v = int(v)
        if numeric(v) or k == "any":
            return w(npdt(v), neg(v))
    if op == "~":
        if numeric(v):
            return w(npdt(v), sub(neg(v), 1))
    if v is None or k in ("str", "bytes", "list", "dict", "tuple"):
        I.do_raise(st, I.new_exc("TypeError", (), st), node)
    return mk("opaque", "unary" + op, M.freeze(v, st), ty="any")


# ------------------------------------------------------------------ builtins
def range_len(r):
    if isinstance(r.s, int) and r.s == 1:
        return sub(r.b, r.a)
    if isinstance(r.s, int) and r.s > 0:
        return floordiv(add(sub(r.b, r.a), r.s - 1), r.s)
    if isinstance(r.s, int) and r.s < 0:
        return floordiv(add(sub(r.a, r.b), -r.s - 1), -r.s)
    return mk("rangelen", r.a, r.b, r.s, ty="int")


def toint(x):
    """python int value of a (numpy) integer"""
    if npdt(x) is None:
        return x
    v = unP(P(x))
    if npdt(v) is None:
        return v
    return mk("toint", v, ty="int")


REBUILD["toint"] = lambda x, a: toint(a)
_ar0 = tm.atom_range


def _ar(a):
    if a.op == "toint":
        return rng(a.args[0])
    return _ar0(a)


tm.atom_range = _ar


@ext("range")
def _range(I, a, kw, st, node):
    a = [nconst(toint(x)) if isinstance(x, T) else x for x in a]
    a = [simp(x, st.facts) for x in a]
    if len(a) == 1:
        return RangeV(0, a[0], 1)
    if len(a) == 2:
        return RangeV(a[0], a[1], 1)
    return RangeV(*a)


@ext("len")
def _len(I, a, kw, st, node):
    if len(a) != 1:
        return NotImplemented
    v = a[0]
    if isinstance(v, T) and v.op == "ite":
        return I.branch(v.args[0], st, lambda s: _len(I, [v.args[1]], {}, s, node), lambda s: _len(I, [v.args[2]], {}, s, node))
    n = M.length(I, v, st, node)
    return n


@ext("int")
def _int(I, a, kw, st, node):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, T) and v.op == "ite" and not numeric(v):
        return I.branch(v.args[0], st, lambda s: _int(I, [v.args[1]] + a[1:], kw, s, node), lambda s: _int(I, [v.args[2]] + a[1:], kw, s, node))
    if isinstance(v, bool):
        return int(v)
    if numeric(v):
        if isinstance(v, T) and v.op == "ite":
            return ite(v.args[0], _int(I, [v.args[1]], {}, st, node), _int(I, [v.args[2]], {}, st, node))
        v = simp(v, st.facts)
        if isinstance(v, T) and not is_int(v) and rng(v, st.facts).subset(iv(0, None)):
            return floor_(v)
        r = trunc_(v)
        return toint(r)
    if kind(v, st) == "str":
        base = a[1] if len(a) > 1 else 10
        if isinstance(v, str) and isinstance(base, int):
            try:
                return int(v, base)
            except ValueError:
                I.do_raise(st, I.new_exc("ValueError", (), st), node)
        from .m_str import str_to_int
        r = str_to_int(v, base, st.facts)
        if r is not None:
            return r
        I.may_raise(st, "ValueError", node, mk("notint", v, base, ty="bool"))
        return mk("strint", v, base, ty="int")
    if v is None:
        I.event("typeerror", node, st, what="int(None)")
        I.do_raise(st, I.new_exc("TypeError", (), st), node)
    if kind(v, st) == "any":
        return mk("strint", M.freeze(v, st), 10, ty="int")
    return NotImplemented


@ext("float", "numpy.float64", "numpy.double")
def _float(I, a, kw, st, node):
    if not a:
        return 0.0
    v = a[0]
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            I.do_raise(st, I.new_exc("ValueError", (), st), node)
    if numeric(v):
        if isnum(v) or isinstance(v, bool):
            return float(v)
        return as_float(v)
    if kind(v, st) == "str":
        I.may_raise(st, "ValueError", node, mk("notfloat", v, ty="bool"))
        return mk("strfloat", v, ty="real")
    return NotImplemented


def as_float(v):
    return unP(P(v), None) if not (isinstance(v, T) and v.op == "wrap") else unP(P(v))


@ext("bool", "numpy.bool_")
def _bool(I, a, kw, st, node):
    return M.truth(I, a[0], st, node) if a else False


@ext("abs", "numpy.abs", "numpy.absolute", "math.fabs", "numpy.fabs")
def _abs(I, a, kw, st, node):
    v = a[0]
    if numeric(v):
        if isnum(v):
            return abs(v)
        r = rng(v, st.facts)
        if r.subset(iv(0, None)):
            return v
        return w(npdt(v), ite(cmp_(">=", v, 0), v, neg(v)))
    if kind(v, st) == "td":
        from .m_time import td
        return td(_abs(I, [v.args[0]], {}, st, node))
    if kind(v, st) == "ndarray":
        return mk("arrmap", "abs", M.freeze(v, st), ty="ndarray")
    return NotImplemented


def minmax(I, a, kw, st, node, sel):
    key = kw.get("key")
    if key is not None:
        return NotImplemented
    if len(a) == 1:
        items = I.seq_items(a[0], st)
        if items is None:
            v = M.freeze(a[0], st)
            if M.elem_ty(v) in ("int", "real") or isinstance(v, T) and v.ty in ("seq", "ndarray", "pyarr"):
                return mk("amax" if sel == "max" else "amin", v, ty=M.elem_ty(v) if M.elem_ty(v) != "any" else "real")
            return NotImplemented
    else:
        items = list(a)
    if not items:
        if "default" in kw:
            return kw["default"]
        I.do_raise(st, I.new_exc("ValueError", (), st), node)
    r = items[0]
    for x in items[1:]:
        if numeric(r) and numeric(x):
            c = cmp_(">" if sel == "max" else "<", x, r)
        else:
            c = M.truth(I, M.compare(I, "Gt" if sel == "max" else "Lt", x, r, st, node), st, node)
        if isinstance(c, T):
            c = st.facts.val(c)
        r = ite(c, x, r)
    return r


@ext("min", "numpy.minimum")
def _min(I, a, kw, st, node):
    return minmax(I, a, kw, st, node, "min")


@ext("max", "numpy.maximum")
def _max(I, a, kw, st, node):
    return minmax(I, a, kw, st, node, "max")


@ext("sum")
def _sum(I, a, kw, st, node):
    items = I.seq_items(a[0], st)
    if items is None:
        return NotImplemented
    r = a[1] if len(a) > 1 else 0
    for x in items:
        r = I.models.binop(I, "Add", r, x, st, node)
    return r


@ext("any")
def _any(I, a, kw, st, node):
    items = I.seq_items(a[0], st)
    if items is None:
        v = M.freeze(a[0], st)
        return mk("anyof", v, ty="bool")
    return or_(*[M.truth(I, x, st, node) for x in items])


@ext("all")
def _all(I, a, kw, st, node):
    items = I.seq_items(a[0], st)
    if items is None:
        v = M.freeze(a[0], st)
        return mk("allof", v, ty="bool")
    return and_(*[M.truth(I, x, st, node) for x in items])


@ext("round", "numpy.round", "numpy.rint")
def _round(I, a, kw, st, node):
    v = a[0]
    if len(a) > 1 or kw:
        nd = a[1] if len(a) > 1 else kw.get("ndigits")
        if isnum(v) and isinstance(nd, int):
            return round(v, nd)
        return mk("roundn", M.freeze(v, st), M.freeze(nd, st), ty="real")
    if isnum(v):
        return round(v)
    if numeric(v):
        return round_(v)
    return NotImplemented


def round_(v):
    if isnum(v):
        return round(v)
    if is_int(v):
        return v
    r = tm._lift1(round_, v)
    if r is not None:
        return r
    p = P(v)
    if all(c.denominator == 1 and all(tm.atom_int(a) and e > 0 for a, e in m) for m, c in p.items()):
        return unP(p)
    return mk("round", v, ty="int")


REBUILD["round"] = lambda x, a: round_(a)


@ext("math.floor", "numpy.floor")
def _floor(I, a, kw, st, node):
    return floor_(a[0]) if numeric(a[0]) else NotImplemented


@ext("math.trunc", "numpy.trunc")
def _trunc(I, a, kw, st, node):
    return trunc_(a[0]) if numeric(a[0]) else NotImplemented


@ext("math.ceil", "numpy.ceil")
def _ceil(I, a, kw, st, node):
    return neg(floor_(neg(a[0]))) if numeric(a[0]) else NotImplemented


@ext("divmod")
def _divmod(I, a, kw, st, node):
    return (do_div(I, a[0], a[1], st, node, "FloorDiv"), do_div(I, a[0], a[1], st, node, "Mod"))


@ext("pow", "math.pow")
def _pow(I, a, kw, st, node):
    return b_num(I, "Pow", a[0], a[1], st, node, False)


@ext("math.log10", "math.log", "math.log2", "math.sqrt", "math.exp", "math.gcd", "math.isclose", "math.isnan", "math.isinf", "math.isfinite", "numpy.isnan", "numpy.isclose", "math.modf", "math.copysign")
def _mathuf(I, a, kw, st, node):
    return NotImplemented


@ext("math.modf")
def _modf(I, a, kw, st, node):
    t_ = trunc_(a[0])
    return (sub(a[0], t_), t_)


@ext("isinstance")
def _isinstance(I, a, kw, st, node):
    return inst(I, a[0], a[1], st)


TYMAP = {
    "str": {"str"}, "bytes": {"bytes"}, "bytearray": {"bytearray"}, "int": {"int", "bool"}, "float": {"real"},
    "bool": {"bool"}, "list": {"list"}, "tuple": {"tuple"}, "dict": {"dict"}, "set": {"set"},
    "numpy.ndarray": {"ndarray"}, "array.array": {"pyarr"}, "datetime.datetime": {"dt"}, "datetime.timedelta": {"td"},
    "pathlib.Path": {"path"}, "re.Pattern": {"repat"},
}
NPABS = {"numpy.integer": "iu", "numpy.signedinteger": "i", "numpy.unsignedinteger": "u", "numpy.floating": "f", "numpy.number": "iuf", "numpy.generic": "iufb", "numbers.Number": "iufb", "numbers.Integral": "iub", "numbers.Real": "iufb"}


def inst(I, v, spec, st):
    if isinstance(spec, tuple):
        return or_(*[inst(I, v, s, st) for s in spec])
    if isinstance(v, T) and v.op == "ite":
        return ite_b(v.args[0], inst(I, v.args[1], spec, st), inst(I, v.args[2], spec, st))
    if isinstance(v, GenV) or isinstance(spec, GenV):
        return False
    k = kind(v, st)
    if isinstance(spec, ClassV):
        if isinstance(v, Obj) and isinstance(v.cls, ClassV):
            return spec in v.cls.mro()
        if k == "any":
            return mk("isinst", v, spec.name, ty="bool")
        return False
    if isinstance(spec, Ext):
        nm = spec.name
        d = npdt(v) if isinstance(v, T) else None
        if nm in ("object",):
            return True
        if d is not None:
            if nm in NPABS:
                return DT[d][0] in NPABS[nm]
            if nm.startswith("numpy."):
                return nm[6:] == d
            if nm == "float":
                return d == "float64"
            return False
        if nm in ("typing.Sequence", "collections.abc.Sequence"):
            return k in ("list", "tuple", "str", "bytes", "bytearray", "range")
        if nm in ("numbers.Number", "numbers.Real"):
            return k in ("int", "real", "bool")
        if nm == "numbers.Integral":
            return k in ("int", "bool")
        if nm in TYMAP:
            if k == "any":
                return mk("isinst", v, nm, ty="bool")
            return k in TYMAP[nm]
        if isinstance(v, Obj) and k in ("obj", "exc"):
            return I.exc_matches(v, spec)
        if k == "any":
            return mk("isinst", v, nm, ty="bool")
        return False
    if spec is type(None) or spec is None:
        return M.is_none(v)
    if isinstance(spec, T):
        return mk("isinst", M.freeze(v, st), M.freeze(spec, st), ty="bool")
    return False


@ext("type")
def _type(I, a, kw, st, node):
    if len(a) != 1:
        return NotImplemented
    v = a[0]
    if isinstance(v, T) and v.op == "ite":
        return ite(v.args[0], _type(I, [v.args[1]], {}, st, node), _type(I, [v.args[2]], {}, st, node))
    k = kind(v, st)
    if isinstance(v, Obj) and isinstance(v.cls, (ClassV, Ext)):
        return v.cls
    if isinstance(v, T) and npdt(v):
        return Ext("numpy." + npdt(v))
    nm = {"str": "str", "bytes": "bytes", "bytearray": "bytearray", "int": "int", "real": "float", "bool": "bool", "list": "list",
          "tuple": "tuple", "dict": "dict", "set": "set", "ndarray": "numpy.ndarray", "pyarr": "array.array", "dt": "datetime.datetime",
          "td": "datetime.timedelta", "none": "NoneType"}.get(k)
    if nm:
        return Ext(nm)
    return mk("opaque", "type", M.freeze(v, st), ty="any")


def _extname(I, o, st, node):
    return o.name.split(".")[-1]


M.ATTR[("ext", "__name__")] = _extname


@ext("enumerate")
def _enumerate(I, a, kw, st, node):
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    items = I.iter_items(a[0], st)
    if items is not None and isinstance(start, int):
        return I.new_list([(start + i, x) for i, x in enumerate(items)], st, node)
    o = Obj("enumerate")
    st.heap[o] = {"it": a[0], "start": start}
    return o


@ext("zip")
def _zip(I, a, kw, st, node):
    its = [I.iter_items(x, st) for x in a]
    if all(x is not None for x in its):
        return I.new_list(list(zip(*its)), st, node)
    o = Obj("zip")
    st.heap[o] = {"its": tuple(a)}
    return o


@ext("reversed")
def _reversed(I, a, kw, st, node):
    items = I.iter_items(a[0], st)
    if items is not None:
        return I.new_list(items[::-1], st, node)
    r = a[0]
    if isinstance(r, RangeV) and isinstance(r.s, int) and r.s == 1:
        return RangeV(sub(r.b, 1), sub(r.a, 1), -1)
    return NotImplemented


@ext("sorted")
def _sorted(I, a, kw, st, node):
    items = I.iter_items(a[0], st)
    if items is not None and all(isconst(x) for x in items) and not kw:
        return I.new_list(sorted(items), st, node)
    return NotImplemented


@ext("list")
def _list(I, a, kw, st, node):
    if not a:
        return I.new_list((), st, node)
    items = I.iter_items(a[0], st)
    if items is not None:
        return I.new_list(items, st, node)
    v = a[0]
    if isinstance(v, Obj) and v.cls in ("enumerate", "zip") or isinstance(v, (RangeV, GenV)):
        return NotImplemented
    f = M.freeze(v, st)
    if isinstance(f, T) and f.ty in ("ndarray", "pyarr"):
        f = mk("tolist", f, ty="seq")
    return I.new_list(f if isinstance(f, T) else mk("opaque", "list", f, ty="seq"), st, node)


@ext("tuple")
def _tuple(I, a, kw, st, node):
    if not a:
        return ()
    items = I.iter_items(a[0], st)
    if items is not None:
        return tuple(items)
    return M.freeze(a[0], st)


@ext("set", "frozenset")
def _set(I, a, kw, st, node):
    items = I.iter_items(a[0], st) if a else []
    if items is None:
        return NotImplemented
    o = Obj("set")
    st.heap[o] = {"items": tuple(items)}
    return o


@ext("dict", "collections.OrderedDict")
def _dict(I, a, kw, st, node):
    ents = []
    if a:
        v = a[0]
        if isinstance(v, Obj) and v.cls == "dict":
            e = st.heap[v]["ents"]
            if not isinstance(e, tuple):
                return I.new_dict(e, st, node)
            ents = list(e)
        else:
            items = I.iter_items(v, st)
            if items is None:
                return NotImplemented
            ents = [(x[0], x[1], True) for x in items if isinstance(x, tuple)]
    d = I.new_dict(ents, st, node)
    for k, v in kw.items():
        M.setitem(I, d, k, v, st, node)
    return d


@ext("map")
def _map(I, a, kw, st, node):
    items = I.iter_items(a[1], st)
    if items is None or len(a) != 2:
        return NotImplemented
    return I.new_list([I.call(a[0], [x], {}, st, node) for x in items], st, node)


@ext("iter")
def _iter(I, a, kw, st, node):
    return a[0]


@ext("callable")
def _callable(I, a, kw, st, node):
    return isinstance(a[0], (FuncV, ClassV, BMeth, Ext))


@ext("getattr")
def _getattr(I, a, kw, st, node):
    if isinstance(a[1], str):
        if len(a) > 2:
            has = _hasattr(I, a, kw, st, node)
            if has is False:
                return a[2]
            if has is not True:
                return NotImplemented
        return I.getattr(a[0], a[1], st, node)
    return NotImplemented


@ext("hasattr")
def _hasattr(I, a, kw, st, node):
    o, n = a[0], a[1]
    if isinstance(o, Obj) and isinstance(n, str):
        cell = st.heap.get(o, {})
        if n in cell:
            v = cell[n]
            from .interp import UNDEF
            if v is UNDEF:
                return False
            if isinstance(v, T) and v.op == "ite" and UNDEF in v.args:
                return v.args[0] if v.args[2] is UNDEF else not_(v.args[0])
            return True
        if isinstance(o.cls, ClassV):
            return o.cls.lookup(n) is not None or o.lazy
        return False
    return NotImplemented


@ext("setattr")
def _setattr(I, a, kw, st, node):
    if isinstance(a[1], str):
        I.setattr(a[0], a[1], a[2], st, node)
        return None
    return NotImplemented


@ext("id", "hash")
def _id(I, a, kw, st, node):
    return mk("idof", M.freeze(a[0], st), ty="int")


@meth(("int",), "bit_length")
def _bitlen(I, v, a, kw, st, node):
    if isinstance(v, int):
        return v.bit_length()
    return mk("bitlen", v, ty="int")


@meth(("int", "real", "bool"), "item")
def _item(I, v, a, kw, st, node):
    return toint(v)


@meth(("real",), "is_integer")
def _isint(I, v, a, kw, st, node):
    if isnum(v):
        return float(v).is_integer()
    return cmp_("==", v, floor_(v))


@meth(("int",), "to_bytes")
def _tobytes(I, v, a, kw, st, node):
    n = a[0] if a else kw.get("length", 1)
    order = a[1] if len(a) > 1 else kw.get("byteorder", "big")
    signed = kw.get("signed", False)
    code = {1: "B", 2: "H", 4: "I", 8: "Q"}.get(n)
    if code is None or not isinstance(order, str):
        return NotImplemented
    if signed is True:
        code = code.lower()
    from .content import fld
    return fld(code, "<" if order == "little" else ">", v)


M.CLSMETH[("int", "from_bytes")] = lambda I, a, kw, st, node: _from_bytes(I, a, kw, st, node)


def _from_bytes(I, a, kw, st, node):
    c = a[0]
    if kind(c, st) == "bytearray":
        c = st.heap[c]["c"]
    order = a[1] if len(a) > 1 else kw.get("byteorder", "big")
    from . import content as ct
    n = ct.clen(c, st.facts)
    code = {1: "B", 2: "H", 4: "I", 8: "Q"}.get(n if isinstance(n, int) else simp(n, st.facts))
    if code is None:
        return mk("opaque", "from_bytes", c, order, ty="int")
    if kw.get("signed") is True:
        code = code.lower()
    return ct.unp(code, "<" if order == "little" else ">", c)
