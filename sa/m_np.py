"""numpy and array.array models"""
from .terms import *
from . import terms as tm
from . import content as ct
from . import models as M
from .models import ext, meth, EXT, METH, BINOP, GETITEM, SETITEM, ATTR, CMP, EXTATTR, kind, numeric
from .interp import Obj, Ext, RangeV, BMeth, Star, ClassV, FuncV, GenV
from .m_num import promote, toint

CODE = {"int8": "b", "int16": "h", "int32": "i", "int64": "q", "uint8": "B", "uint16": "H", "uint32": "I", "uint64": "Q",
        "float16": "e", "float32": "f", "float64": "d", "bool": "?"}
NAMES = {}
for _n, (_k, _s) in DT.items():
    NAMES[_n] = _n
    NAMES[f"{'b' if _k == 'b' else _k}{_s}"] = _n
for _c, _n in {"b": "int8", "B": "uint8", "h": "int16", "H": "uint16", "i": "int32", "I": "uint32", "q": "int64", "Q": "uint64",
               "l": "int64", "L": "uint64", "f": "float32", "d": "float64", "e": "float16", "?": "bool",
               "int": "int64", "float": "float64", "single": "float32", "double": "float64", "short": "int16", "intc": "int32"}.items():
    NAMES.setdefault(_c, _n)


def dtype(name, endian="<"):
    if DT[name][1] == 1 or endian in ("=", "|", "@"):
        endian = "<"
    return mk("dtype", name, endian, ty="dtype")


def parse_dt(s):
    e = "<"
    if s and s[0] in "<>=|!":
        e = ">" if s[0] in ">!" else "<"
        s = s[1:]
    n = NAMES.get(s)
    return dtype(n, e) if n else None


def as_dtype(I, v, st):
    """dtype term for a dtype-like value, possibly conditional; None if unknown"""
    if isinstance(v, T):
        if v.op == "dtype":
            return v
        if v.op == "ite":
            a, b = as_dtype(I, v.args[1], st), as_dtype(I, v.args[2], st)
            if a is None or b is None:
                return None
            return ite(v.args[0], a, b)
        return None
    if v is None:
        return dtype("float64")
    if isinstance(v, str):
        return parse_dt(v)
    if isinstance(v, Ext):
        n = v.name
        if n.startswith("numpy."):
            n = n[6:]
            if n in ("bool_",):
                n = "bool"
            n = NAMES.get(n, n) if n not in ("int_", "long") else "int64"
        elif n == "int":
            n = "int64"
        elif n == "float":
            n = "float64"
        elif n != "bool":
            return None
        if n in DT:
            return dtype(n)
    return None


def with_dt(I, v, st, node, f):
    d = as_dtype(I, v, st)
    if isinstance(d, T) and d.op == "ite":
        return I.branch(d.args[0], st, lambda s: with_dt(I, d.args[1], s, node, f), lambda s: with_dt(I, d.args[2], s, node, f))
    if d is None:
        return M.opaque(I, "numpy.dtype?", [v], st, node)
    return f(d, st)


@ext("numpy.dtype")
def _dtype(I, a, kw, st, node):
    d = as_dtype(I, a[0], st)
    if d is None:
        return NotImplemented
    return d


@meth("dtype", "newbyteorder")
def _nbo(I, d, a, kw, st, node):
    e = a[0] if a else "S"

    def one(e, s):
        if isinstance(e, T) and e.op == "ite":
            return I.branch(e.args[0], s, lambda q: one(e.args[1], q), lambda q: one(e.args[2], q))
        if not isinstance(e, str):
            return mk("opaque", "newbyteorder", d, M.freeze(e, s), ty="dtype")
        c = e[:1].lower()
        if c == "s":
            n = "<" if d.args[1] == ">" else ">"
        elif c in ("<", "l", "=", "n"):
            n = "<"
        elif c in (">", "b"):
            n = ">"
        elif c in ("|", "i"):
            n = d.args[1]
        else:
            I.do_raise(s, I.new_exc("ValueError", (), s), node)
        return dtype(d.args[0], n)
    return one(e, st)


ATTR[("dtype", "type")] = lambda I, d, st, node: Ext("numpy." + d.args[0]) if d.op == "dtype" else NotImplemented
ATTR[("dtype", "name")] = lambda I, d, st, node: d.args[0] if d.op == "dtype" else NotImplemented
ATTR[("dtype", "itemsize")] = lambda I, d, st, node: DT[d.args[0]][1] if d.op == "dtype" else NotImplemented
ATTR[("dtype", "kind")] = lambda I, d, st, node: DT[d.args[0]][0] if d.op == "dtype" else NotImplemented
ATTR[("dtype", "byteorder")] = lambda I, d, st, node: ("|" if DT[d.args[0]][1] == 1 else "=" if d.args[1] == "<" else ">") if d.op == "dtype" else NotImplemented
ATTR[("dtype", "isnative")] = lambda I, d, st, node: d.args[1] == "<" if d.op == "dtype" else NotImplemented
ATTR[("dtype", "char")] = lambda I, d, st, node: {"int64": "l", "uint64": "L"}.get(d.args[0], CODE[d.args[0]]) if d.op == "dtype" else NotImplemented
ATTR[("dtype", "str")] = lambda I, d, st, node: ("|" if DT[d.args[0]][1] == 1 else d.args[1]) + DT[d.args[0]][0] + str(DT[d.args[0]][1]) if d.op == "dtype" else NotImplemented


def cmp_dt(I, op, a, b, st, node):
    if op != "Eq":
        return NotImplemented
    if not (kind(a) == "dtype" or kind(b) == "dtype"):
        return NotImplemented
    x, y = as_dtype(I, a, st), as_dtype(I, b, st)
    if x is None or y is None:
        return NotImplemented
    if isinstance(x, T) and x.op == "dtype" and isinstance(y, T) and y.op == "dtype":
        return x is y
    return NotImplemented


CMP.append(cmp_dt)


# ------------------------------------------------------------------ scalars
def to_scalar(I, dt, x, st, node):
    """numpy scalar constructor / int assignment into an array"""
    if isinstance(x, T) and x.op == "ite" and not numeric(x):
        return I.branch(x.args[0], st, lambda s: to_scalar(I, dt, x.args[1], s, node), lambda s: to_scalar(I, dt, x.args[2], s, node))
    k = kind(x, st)
    if k in ("ndarray", "list", "tuple", "seq"):
        return make_array(I, x, dtype(dt), st, node)
    if x is None:
        I.do_raise(st, I.new_exc("TypeError", (), st), node)
    if k == "str":
        from .m_num import _int, _float
        x = (_float if DT[dt][0] == "f" else _int)(I, [x], {}, st, node)
    if isinstance(x, bool):
        x = int(x)
    if DT[dt][0] in "iu":
        if is_real(x) if numeric(x) else False:
            I.event("narrow", node, st, value=x, dt=dt, how="float->int")
            return wrap(dt, trunc_(x))
        if numeric(x) and npdt(x) is None:
            lo, hi = dt_range(dt)
            bad = or_(cmp_("<", x, lo), cmp_(">", x, hi))
            bad = st.facts.val(bad) if isinstance(bad, T) else bad
            if bad is True:
                I.event("overflow", node, st, value=x, dt=dt)
                I.do_raise(st, I.new_exc("OverflowError", (), st), node)
            if bad is not False:
                I.event("overflow", node, st, value=x, dt=dt)
                I.may_raise(st, "OverflowError", node, bad)
        return wrap(dt, x)
    if DT[dt][0] == "f":
        if isinstance(x, int):
            x = float(x)
        return wrap(dt, x)
    if dt == "bool":
        return M.truth(I, x, st, node)
    return wrap(dt, x)


def _scalar(dt):
    def f(I, a, kw, st, node):
        return to_scalar(I, dt, a[0] if a else 0, st, node)
    return f


for _n in DT:
    EXT["numpy." + _n] = _scalar(_n)
for _a, _b in {"intc": "int32", "short": "int16", "longlong": "int64", "single": "float32", "double": "float64", "bool_": "bool", "byte": "int8"}.items():
    EXT["numpy." + _a] = _scalar(_b)


def _bin(op):
    def f(I, a, kw, st, node):
        x, y = a[0], a[1]
        if op in ("LShift", "RShift", "BitAnd", "BitOr", "BitXor"):
            # numpy ufunc on python ints works as int64
            def lift(v, o):
                if numeric(v) and npdt(v) is None and npdt(o) is None:
                    return to_scalar(I, "int64", v, st, node)
                return v
            x, y = lift(x, y), lift(y, x)
            for p, q in ((x, y), (y, x)):
                if numeric(p) and npdt(p) is None and npdt(q):
                    lo, hi = dt_range(npdt(q))
                    bad = or_(cmp_("<", p, lo), cmp_(">", p, hi)) if lo is not None else False
                    bad = st.facts.val(bad) if isinstance(bad, T) else bad
                    if bad is True:
                        I.event("overflow", node, st, value=p, dt=npdt(q))
                        I.do_raise(st, I.new_exc("OverflowError", (), st), node)
                    if bad is not False:
                        I.event("overflow", node, st, value=p, dt=npdt(q))
                        I.may_raise(st, "OverflowError", node, bad)
        return M.binop(I, op, x, y, st, node)
    return f


for _n, _o in {"left_shift": "LShift", "right_shift": "RShift", "bitwise_and": "BitAnd", "bitwise_or": "BitOr", "bitwise_xor": "BitXor",
               "add": "Add", "subtract": "Sub", "multiply": "Mult", "bitwise_left_shift": "LShift", "bitwise_right_shift": "RShift"}.items():
    EXT["numpy." + _n] = _bin(_o)


@ext("numpy.invert", "numpy.bitwise_not")
def _inv(I, a, kw, st, node):
    return M.unary(I, "~", a[0], st, node)


@ext("numpy.iinfo")
def _iinfo(I, a, kw, st, node):
    def f(d, s):
        o = Obj("iinfo", site=node)
        lo, hi = dt_range(d.args[0])
        s.heap[o] = {"min": lo, "max": hi, "bits": 8 * DT[d.args[0]][1]}
        return o
    return with_dt(I, a[0], st, node, f)


ABST = {"integer": "iu", "signedinteger": "i", "unsignedinteger": "u", "floating": "f", "inexact": "f", "number": "iuf", "generic": "iufb"}


@ext("numpy.issubdtype")
def _issub(I, a, kw, st, node):
    def f(d, s):
        t = a[1]
        if isinstance(t, Ext) and t.name.startswith("numpy.") and t.name[6:] in ABST:
            return DT[d.args[0]][0] in ABST[t.name[6:]]
        x = as_dtype(I, t, s)
        if isinstance(x, T) and x.op == "dtype":
            return x.args[0] == d.args[0]
        return M.opaque(I, "issubdtype", [d, t], s, node)
    return with_dt(I, a[0], st, node, f)


def can_cast(x, y, casting):
    if casting == "unsafe":
        return True
    kx, sx = DT[x]
    ky, sy = DT[y]
    safe = promote(x, y) == y
    if casting == "safe":
        return safe
    if casting == "same_kind":
        order = "buif"
        if kx == "i" and ky == "u":
            return False
        return safe or order.index(kx) <= order.index(ky)
    return x == y


@ext("numpy.can_cast")
def _cancast(I, a, kw, st, node):
    casting = a[2] if len(a) > 2 else kw.get("casting", "safe")

    def f(d, s):
        def g(e, s2):
            return can_cast(d.args[0], e.args[0], casting)
        return with_dt(I, a[1], s, node, g)
    src = a[0]
    if kind(src, st) == "ndarray":
        src = adtype(I, src, st)
    return with_dt(I, src, st, node, f)


# ------------------------------------------------------------------ arrays
def adtype(I, o, st):
    """dtype term of an ndarray value"""
    if isinstance(o, Obj):
        c = st.heap[o]
        if "dtype" in c:
            return dtype(c["dtype"], c.get("endian", "<"))
        o = c["arr"]
    if not isinstance(o, T):
        return None
    if o.op == "sym":
        d = e = None
        for k, v in o.args[3]:
            if k == "dtype":
                d = v
            if k == "endian":
                e = v
        if d:
            return dtype(d, e or "<")
    if o.op == "astype":
        return dtype(o.args[1], o.args[2] if len(o.args) > 2 else "<")
    if o.op == "arrof":
        return dtype(o.args[1])
    if o.op == "frombuffer":
        return dtype(o.args[1], o.args[2])
    if o.op in ("byteswap", "store", "aslice", "zerosarr"):
        if o.op == "zerosarr":
            return dtype(o.args[1])
        return adtype(I, o.args[0], st)
    if o.op == "ite":
        a, b = adtype(I, o.args[1], st), adtype(I, o.args[2], st)
        if a is not None and b is not None:
            return ite(o.args[0], a, b)
    return mk("attr", o, "dtype", ty="dtype")


_ad0 = tm.arr_dtype


def arr_dtype2(a):
    if isinstance(a, T) and a.op in ("byteswap", "store", "aslice", "zerosarr"):
        if a.op == "zerosarr":
            return a.args[1]
        return arr_dtype2(a.args[0])
    if isinstance(a, T) and a.op == "ite":
        x, y = arr_dtype2(a.args[1]), arr_dtype2(a.args[2])
        return x if x == y else None
    return _ad0(a)


tm.arr_dtype = arr_dtype2
M.arr_dtype = arr_dtype2


def new_items(items, d, st, node):
    o = Obj("ndarray", site=node)
    st.heap[o] = {"items": tuple(items), "dtype": d.args[0], "endian": d.args[1]}
    return o


def make_array(I, x, d, st, node):
    """np.array(x, dtype=d) ; d a plain dtype term or None to infer"""
    k = kind(x, st)
    if k == "ndarray":
        if d is None:
            if isinstance(x, Obj):
                o = Obj("ndarray", site=node)
                st.heap[o] = dict(st.heap[x])
                return o
            return x
        return astype(I, x, d, st, node)
    items = I.seq_items(x, st)
    if isinstance(x, RangeV) and items is None:
        return M.opaque(I, "np.array", [x.a, x.b], st, node)
    if items is not None:
        if d is None:
            dts = [npdt(i) for i in items]
            if items and all(dts):
                n = dts[0]
                for y in dts[1:]:
                    n = promote(n, y)
                d = dtype(n)
            elif any(is_real(i) for i in items if numeric(i)) or not items:
                d = dtype("float64")
            else:
                d = dtype("int64")
        vals = [to_scalar(I, d.args[0], i, st, node) for i in items]
        return new_items(vals, d, st, node)
    v = M.freeze(x, st)
    if isinstance(v, T) and v.ty == "pyarr" and d is None:
        d = pyarr_dt(v)
        if d is None:
            return M.opaque(I, "np.array", [x], st, node)
    if d is None:
        et = M.elem_ty(v)
        d = dtype("float64" if et == "real" else "int64")
    et = M.elem_ty(v)
    if DT[d.args[0]][0] in "iu" and isinstance(v, T) and v.ty == "seq":
        j = fresh("el", "int", 0, None)
        e = M.elem(v, j)
        I.event("arrconv", node, st, seq=v, dtype=d.args[0], ety=et)
        b = or_(mk("seqoutside", v, d.args[0], ty="bool"))
        I.may_raise(st, "OverflowError", node, b)
    return mk("astype", v, d.args[0], d.args[1], ty="ndarray")


def pyarr_dt(v):
    tc = sz = None
    for k, x in (v.args[3] if v.op == "sym" else ()):
        if k == "typecode":
            tc = x
        if k == "itemsize":
            sz = x
    if isinstance(tc, str) and isinstance(sz, int):
        kd = "f" if tc in "fd" else ("i" if tc in "bhilq" else "u")
        n = NAMES.get(f"{kd}{sz}")
        return dtype(n) if n else None
    return None


def mkastype(v, dt, e):
    if arr_dtype2(v) == dt:
        x = v
        while isinstance(x, T) and x.op == "astype" and x.args[1] == dt and x.args[2] != e:
            x = x.args[0]
            if arr_dtype2(x) != dt:
                return mk("astype", x, dt, e, ty="ndarray")
        if x is not v:
            return x if e == "<" else mk("astype", x, dt, e, ty="ndarray")
        d = None
        if isinstance(v, T) and v.op == "astype":
            return v
    return mk("astype", v, dt, e, ty="ndarray")


def astype(I, x, d, st, node):
    if isinstance(x, Obj):
        c = st.heap[x]
        if isinstance(c.get("items"), tuple):
            vals = []
            for i in c["items"]:
                if DT[d.args[0]][0] in "iu" and is_real(i):
                    i = trunc_(i)
                vals.append(wrap(d.args[0], unP(P(i)) if not isnum(i) else i) if numeric(i) else i)
            I.event("astype", node, st, arr=x, dtype=d.args[0], src=c["dtype"])
            return new_items(vals, d, st, node)
        v = c["arr"]
    else:
        v = x
    I.event("astype", node, st, arr=v, dtype=d.args[0], src=arr_dtype2(v))
    cur = adtype(I, v, st)
    if cur is d:
        return v
    return mk("astype", v, d.args[0], d.args[1], ty="ndarray")


@ext("numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.asanyarray", "numpy.fromiter")
def _array(I, a, kw, st, node):
    dtv = a[1] if len(a) > 1 else kw.get("dtype", None)
    if dtv is None:
        if node is not None and EXTNAME(node) == "asarray" and kind(a[0], st) == "ndarray":
            return a[0]
        return make_array(I, a[0], None, st, node)
    return with_dt(I, dtv, st, node, lambda d, s: make_array(I, a[0], d, s, node))


def EXTNAME(node):
    import ast
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
        return node.func.attr
    return ""


def shape_len(I, s, st):
    if isinstance(s, Obj) or isinstance(s, tuple):
        it = I.seq_items(s, st)
        if it is not None and len(it) == 1:
            return it[0]
        return None
    return s if numeric(s) else None


@ext("numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full")
def _zeros(I, a, kw, st, node):
    nm = EXTNAME(node)
    fill = {"ones": 1}.get(nm, 0)
    rest = list(a[1:])
    if nm == "full":
        fill = rest.pop(0) if rest else kw.get("fill_value", 0)
    dtv = rest[0] if rest else kw.get("dtype", None)
    n = shape_len(I, a[0] if a else kw.get("shape"), st)

    def f(d, s):
        if n is None:
            return M.opaque(I, "numpy.zeros", [a[0]], s, node)
        m = simp(n, s.facts) if isinstance(n, T) else n
        o = Obj("ndarray", site=node)
        if isinstance(m, int) and m < 0:
            I.do_raise(s, I.new_exc("ValueError", (), s), node)
        if isinstance(m, int) and m <= 4096:
            s.heap[o] = {"items": (wrap(d.args[0], fill if DT[d.args[0]][0] != "f" else float(fill)),) * m, "dtype": d.args[0], "endian": d.args[1]}
        else:
            bad = cmp_("<", m, 0)
            bad = s.facts.val(bad) if isinstance(bad, T) else bad
            if bad is not False:
                I.may_raise(s, "ValueError", node, bad)
            s.heap[o] = {"arr": mk("zerosarr", m, d.args[0], ty="ndarray"), "dtype": d.args[0], "endian": d.args[1]}
        return o
    return with_dt(I, dtv, st, node, f)


@ext("numpy.frombuffer")
def _frombuffer(I, a, kw, st, node):
    from .m_bytes import content
    c = content(I, a[0], st)
    if c is None:
        return NotImplemented
    dtv = a[1] if len(a) > 1 else kw.get("dtype", None)
    count = a[2] if len(a) > 2 else kw.get("count", -1)
    off = a[3] if len(a) > 3 else kw.get("offset", 0)

    def f(d, s):
        size = DT[d.args[0]][1]
        cc = ct.slice_(c, off, None, s.facts) if not (isnum(off) and off == 0) else c
        L = ct.clen(cc, s.facts)
        if isnum(count) and count == -1:
            n = floordiv(L, size)
            bad = cmp_("!=", mod_(L, size), 0)
        else:
            n = count
            bad = cmp_("<", L, mul(count, size))
        bad = s.facts.val(bad) if isinstance(bad, T) else bad
        I.event("frombuffer", node, s, content=cc, dtype=d.args[0], endian=d.args[1], count=n, bad=bad)
        if bad is True:
            I.do_raise(s, I.new_exc("ValueError", (), s), node)
        if bad is not False:
            I.may_raise(s, "ValueError", node, bad)
        return frombuffer(cc, d.args[0], d.args[1], n)
    return with_dt(I, dtv, st, node, f)


def frombuffer(c, dt, e, n):
    """array of n dt values read from the start of content c"""
    if isinstance(c, T) and c.op == "ite":
        return ite(c.args[0], frombuffer(c.args[1], dt, e, n), frombuffer(c.args[2], dt, e, n))
    first = c.args[0] if isinstance(c, T) and c.op == "cat" else c
    if isinstance(first, T) and first.op == "packarr" and first.args[0] == e and CODE[dt] == {"l": "i", "L": "I"}.get(first.args[1], first.args[1]) and ct.same_num(first.args[2], n):
        a = first.args[3]
        if arr_dtype2(a) == dt:
            return a
        return mk("astype", a, dt, "<", ty="ndarray")
    if isinstance(first, T) and first.op == "tobytes" and arr_dtype2(first.args[0]) == dt and first.args[1] == e and ct.same_num(M.alen(first.args[0]), n):
        return first.args[0]
    return mk("frombuffer", c, dt, e, n, ty="ndarray")


tm.REBUILD["frombuffer"] = lambda x, c, d, e, n: frombuffer(c, d, e, n)


@ext("numpy.shape")
def _shape(I, a, kw, st, node):
    return shape(I, a[0], st, node)


def shape(I, v, st, node):
    if isinstance(v, T) and v.op == "sym":
        for k, x in v.args[3]:
            if k == "ndim" and x != 1:
                return (M.alen(v),) + tuple(fresh("dim", "int", 0, None) for _ in range(x - 1))
    return (M.length(I, v, st, node),)


ATTR[("ndarray", "shape")] = shape
ATTR[("ndarray", "size")] = lambda I, v, st, node: M.length(I, v, st, node)
ATTR[("ndarray", "ndim")] = lambda I, v, st, node: len(shape(I, v, st, node))
ATTR[("ndarray", "dtype")] = lambda I, v, st, node: adtype(I, v, st)
ATTR[("ndarray", "itemsize")] = lambda I, v, st, node: (lambda d: DT[d.args[0]][1] if d is not None and d.op == "dtype" else NotImplemented)(adtype(I, v, st))
ATTR[("ndarray", "nbytes")] = lambda I, v, st, node: (lambda d: mul(DT[d.args[0]][1], M.length(I, v, st, node)) if d is not None and d.op == "dtype" else NotImplemented)(adtype(I, v, st))
ATTR[("ndarray", "flat")] = lambda I, v, st, node: v


@ext("numpy.ndim")
def _ndim(I, a, kw, st, node):
    return len(shape(I, a[0], st, node))


@ext("numpy.size")
def _size(I, a, kw, st, node):
    return M.length(I, a[0], st, node)


def aitems(I, o, st):
    if isinstance(o, Obj) and isinstance(st.heap[o].get("items"), tuple):
        return st.heap[o]["items"]
    if isinstance(o, T) and o.op == "arrof" and isinstance(o.args[0], T) and o.args[0].op == "seqv":
        return tuple(wrap(o.args[1], x) for x in o.args[0].args[0])
    return None


def _aget(I, o, i, st, node):
    items = aitems(I, o, st)
    if isinstance(i, tuple) and len(i) == 1:
        i = i[0]
    if items is not None:
        if isinstance(i, slice):
            if all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                return new_items(items[i], adtype(I, o, st), st, node)
            return M.opaque(I, "aslice", [o, i.start, i.stop], st, node)
        i = nconst(i) if numeric(i) else i
        if isinstance(i, T):
            s2 = simp(i, st.facts)
            i = s2 if isinstance(s2, int) else i
        if isinstance(i, int):
            i = int(i)
            if -len(items) <= i < len(items):
                return items[i]
            I.event("indexerror", node, st, obj=o, index=i)
            I.do_raise(st, I.new_exc("IndexError", (), st), node)
        if isinstance(i, T) and items:
            r = items[-1]
            for j in range(len(items) - 2, -1, -1):
                c = cmp_("==", i, j)
                r = ite(st.facts.val(c) if isinstance(c, T) else c, items[j], r)
            return r
    v = M.arr_val(o, st) if isinstance(o, Obj) else o
    if isinstance(i, slice):
        return M.seq_get(I, v, i, st, node)
    n = M.alen(v)
    i = M.norm_index(i, n)
    if numeric(i):
        bad = cmp_(">=", i, n)
        bad = st.facts.val(bad) if isinstance(bad, T) else bad
        I.event("aindex", node, st, arr=v, index=i, bad=bad)
        if bad is True:
            I.do_raise(st, I.new_exc("IndexError", (), st), node)
        if bad is not False:
            I.may_raise(st, "IndexError", node, bad)
    return read_store(v, i, st)


def read_store(v, i, st=None):
    while isinstance(v, T) and v.op == "store":
        c = cmp_("==", v.args[1], i)
        if isinstance(c, T) and st is not None:
            c = st.facts.val(c)
        if c is True:
            return v.args[2]
        if c is False:
            v = v.args[0]
            continue
        return ite(c, v.args[2], read_store(v.args[0], i, st))
    if isinstance(v, T) and v.op == "zerosarr":
        return wrap(v.args[1], 0)
    return M.elem(v, i)


GETITEM["ndarray"] = _aget


def _aset(I, o, i, v, st, node):
    if not isinstance(o, Obj):
        I.event("setitem_opaque", node, st, obj=o, index=i, value=v)
        return None
    cell = st.heap[o]
    if isinstance(i, tuple) and len(i) == 1:
        i = i[0]
    if isinstance(i, slice):
        src = I.seq_items(v, st) if not isinstance(v, Obj) or v.cls != "ndarray" else aitems(I, v, st)
        items = cell.get("items")
        if isinstance(items, tuple) and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
            l = list(items)
            idx = list(range(*i.indices(len(l))))
            if src is None and numeric(v):
                src = (v,) * len(idx)
            if src is not None and len(src) == len(idx):
                for j, x in zip(idx, src):
                    l[j] = to_scalar(I, cell["dtype"], x, st, node)
                cell["items"] = tuple(l)
                return None
        cell.pop("items", None)
        cell["arr"] = mk("opaque", "asliceset", M.freeze(i.start, st), M.freeze(i.stop, st), M.freeze(v, st), ty="ndarray")
        return None
    x = to_scalar(I, cell["dtype"], v, st, node)
    items = cell.get("items")
    i = nconst(i) if numeric(i) else i
    if isinstance(i, T):
        s2 = simp(i, st.facts)
        i = s2 if isinstance(s2, int) else i
    if isinstance(items, tuple):
        if isinstance(i, int):
            if not -len(items) <= i < len(items):
                I.event("indexerror", node, st, obj=o, index=i)
                I.do_raise(st, I.new_exc("IndexError", (), st), node)
            l = list(items)
            l[int(i)] = x
            cell["items"] = tuple(l)
            return None
        cell["items"] = tuple(ite(cmp_("==", i, j), x, y) for j, y in enumerate(items))
        return None
    a = M.arr_val(o, st)
    cell.pop("items", None)
    n = M.alen(a)
    i = M.norm_index(i, n)
    bad = or_(cmp_(">=", i, n), cmp_("<", i, neg(n)))
    bad = st.facts.val(bad) if isinstance(bad, T) else bad
    I.event("astore", node, st, arr=a, obj=o, index=i, value=x, bad=bad)
    if bad is True:
        I.do_raise(st, I.new_exc("IndexError", (), st), node)
    if bad is not False:
        I.may_raise(st, "IndexError", node, bad)
    cell["arr"] = mk("store", a, i, x, ty="ndarray")
    return None


SETITEM["ndarray"] = _aset


@meth("ndarray", "astype")
def _astype(I, o, a, kw, st, node):
    dtv = a[0] if a else kw.get("dtype")
    return with_dt(I, dtv, st, node, lambda d, s: astype(I, o, d, s, node))


@meth("ndarray", "byteswap")
def _byteswap(I, o, a, kw, st, node):
    v = M.arr_val(o, st) if isinstance(o, Obj) else o
    return mk("byteswap", v, ty="ndarray")


@meth("ndarray", "view")
def _view(I, o, a, kw, st, node):
    def f(d, s):
        v = M.arr_val(o, s) if isinstance(o, Obj) else o
        cur = adtype(I, v, s)
        if cur is d:
            return v
        if isinstance(v, T) and v.op == "byteswap" and cur is not None and cur.op == "dtype" and cur.args[0] == d.args[0] and cur.args[1] != d.args[1]:
            return mk("astype", v.args[0], d.args[0], d.args[1], ty="ndarray") if False else v.args[0]
        return mk("opaque", "view", v, d, ty="ndarray")
    return with_dt(I, a[0] if a else kw.get("dtype"), st, node, f)


def tobytes(I, o, st):
    items = aitems(I, o, st)
    d = adtype(I, o, st)
    if d is None or d.op != "dtype":
        return mk("opaque", "tobytes", M.freeze(o, st), ty="bytes")
    code, e = CODE[d.args[0]], d.args[1]
    if items is not None:
        return ct.cat(*[ct.fld(code, e, x) for x in items])
    v = M.arr_val(o, st) if isinstance(o, Obj) else o
    n = M.alen(v)
    if isinstance(v, T) and v.op == "byteswap":
        d0 = adtype(I, v.args[0], st)
        if d0 is not None and d0.op == "dtype":
            return packarr(">" if d0.args[1] == "<" else "<", code, n, v.args[0])
    return packarr(e, code, n, v)


def fb_items(x):
    """elements of frombuffer with a constant count"""
    c = CODE[x.args[1]]
    sz = ct.SIZE[c]
    return [ct.unp(c, x.args[2], ct.slice_(x.args[0], i * sz, (i + 1) * sz, None)) for i in range(x.args[3])]


def packarr(e, code, n, v):
    x = v
    dt = arr_dtype2(v)
    if isinstance(x, T) and x.op == "frombuffer" and CODE[x.args[1]] == code and x.args[2] == e:
        c = x.args[0]
        if ct.same_num(n, x.args[3]):
            return ct.slice_(c, 0, mul(n, ct.SIZE[code]), None)
    if isinstance(x, T) and x.op == "frombuffer" and isinstance(n, int) and n <= 64 and x.args[3] == n and x.args[1] in CODE:
        return ct.cat(*[ct.fld(code, e, y) for y in fb_items(x)])
    return mk("packarr", e, code, n, v, ty="bytes")


tm.REBUILD["packarr"] = lambda x, e, c, n, v: packarr(e, c, n, v)


@meth("ndarray", "tobytes")
def _tobytes(I, o, a, kw, st, node):
    return tobytes(I, o, st)


@meth("ndarray", "tolist")
def _tolist(I, o, a, kw, st, node):
    items = aitems(I, o, st)
    if items is not None:
        return I.new_list([toint(x) for x in items], st, node)
    l = I.new_list([], st, node)
    st.heap[l]["items"] = M.arr_val(o, st) if isinstance(o, Obj) else o
    return l


@meth("ndarray", "copy")
def _acopy(I, o, a, kw, st, node):
    if isinstance(o, Obj):
        n = Obj("ndarray", site=node)
        st.heap[n] = dict(st.heap[o])
        return n
    return o


@meth("ndarray", "max")
def _amax(I, o, a, kw, st, node):
    return amm(I, o, st, node, "max")


@meth("ndarray", "min")
def _amin(I, o, a, kw, st, node):
    return amm(I, o, st, node, "min")


def amm(I, o, st, node, sel):
    items = aitems(I, o, st) if kind(o, st) == "ndarray" else I.seq_items(o, st)
    if items is not None:
        if not items:
            I.do_raise(st, I.new_exc("ValueError", (), st), node)
        r = items[0]
        for x in items[1:]:
            r = ite(cmp_(">" if sel == "max" else "<", x, r), x, r)
        return r
    v = M.freeze(o, st)
    n = M.length(I, o, st, node)
    bad = cmp_("==", n, 0)
    bad = st.facts.val(bad) if isinstance(bad, T) else bad
    if bad is True:
        I.do_raise(st, I.new_exc("ValueError", (), st), node)
    if bad is not False:
        I.event("emptymax", node, st, arr=v)
        I.may_raise(st, "ValueError", node, bad)
    et = M.elem_ty(v)
    if isinstance(v, T) and v.op == "arrmap" and v.args[0] == "abs":
        dt = arr_dtype2(v.args[1])
        # max(abs(a)); abs wraps for the most negative value of the dtype
        hi, lo = mk("amax", v.args[1], ty=et), mk("amin", v.args[1], ty=et)
        if sel == "max" and dt:
            return mk("opaque", "maxabs", v.args[1], ty="int")
    return mk("amax" if sel == "max" else "amin", v, ty=et if et != "any" else "real")


@ext("numpy.max", "numpy.amax")
def _npmax(I, a, kw, st, node):
    return amm(I, a[0], st, node, "max")


@ext("numpy.min", "numpy.amin")
def _npmin(I, a, kw, st, node):
    return amm(I, a[0], st, node, "min")


# ------------------------------------------------------------------ array.array
@ext("array.array")
def _pyarray(I, a, kw, st, node):
    return NotImplemented


def _pattr(name):
    def f(I, o, st, node):
        if o.op == "sym":
            for k, x in o.args[3]:
                if k == name:
                    return x
        return NotImplemented
    return f


ATTR[("pyarr", "typecode")] = _pattr("typecode")
ATTR[("pyarr", "itemsize")] = _pattr("itemsize")


@meth("pyarr", "tobytes")
def _ptobytes(I, o, a, kw, st, node):
    d = pyarr_dt(o)
    if d is None:
        return NotImplemented
    return packarr("<", CODE[d.args[0]], M.alen(o), o)


@meth("pyarr", "tolist")
def _ptolist(I, o, a, kw, st, node):
    l = I.new_list([], st, node)
    st.heap[l]["items"] = o
    return l


# ------------------------------------------------------------------ element-wise arithmetic
def b_arr(I, op, a, b, st, node, inplace):
    ka, kb = kind(a, st), kind(b, st)
    if "ndarray" not in (ka, kb):
        return NotImplemented
    xa = aitems(I, a, st) if ka == "ndarray" else None
    xb = aitems(I, b, st) if kb == "ndarray" else None
    if ka == "ndarray" and xa is not None and (xb is not None and len(xb) == len(xa) or numeric(b)):
        ys = xb if xb is not None else (b,) * len(xa)
        vals = [M.binop(I, op, x, y, st, node) for x, y in zip(xa, ys)]
    elif kb == "ndarray" and xb is not None and numeric(a):
        vals = [M.binop(I, op, a, y, st, node) for y in xb]
    else:
        d = adtype(I, a if ka == "ndarray" else b, st)
        t = mk("arrop", op, M.freeze(a, st), M.freeze(b, st), ty="ndarray")
        if inplace and isinstance(a, Obj):
            st.heap[a] = {"arr": mk("astype", t, st.heap[a].get("dtype", "int32"), "<", ty="ndarray"), "dtype": st.heap[a].get("dtype", "int32"), "endian": "<"}
            return a
        return t
    if inplace and isinstance(a, Obj):
        dt_ = st.heap[a]["dtype"]
        st.heap[a]["items"] = tuple(wrap(dt_, x) for x in vals)
        return a
    d0 = npdt(vals[0]) if vals else "int64"
    return new_items(vals, dtype(d0 or "int64"), st, node)


BINOP.insert(0, b_arr)


@ext("numpy.diff")
def _diff(I, a, kw, st, node):
    x = aitems(I, a[0], st) if kind(a[0], st) == "ndarray" else I.seq_items(a[0], st)
    if x is None or len(a) > 1 or kw:
        return NotImplemented
    vals = [M.binop(I, "Sub", q, p, st, node) for p, q in zip(x, x[1:])]
    return new_items(vals, dtype((npdt(vals[0]) if vals else None) or "int64"), st, node)


@ext("numpy.cumsum")
def _cumsum(I, a, kw, st, node):
    x = aitems(I, a[0], st) if kind(a[0], st) == "ndarray" else I.seq_items(a[0], st)
    if x is None or len(a) > 1:
        return NotImplemented
    d = as_dtype(I, kw["dtype"], st) if "dtype" in kw else dtype("int64")
    out, acc = [], wrap(d.args[0], 0)
    for v in x:
        acc = wrap(d.args[0], add(acc, v))
        out.append(acc)
    return new_items(out, d, st, node)


@ext("numpy.concatenate", "numpy.append", "numpy.hstack")
def _concat(I, a, kw, st, node):
    parts = I.seq_items(a[0], st) if len(a) == 1 else list(a)
    if parts is None:
        return NotImplemented
    its = [aitems(I, p, st) if kind(p, st) == "ndarray" else I.seq_items(p, st) for p in parts]
    if any(x is None for x in its):
        return mk("opaque", "concat", *[M.freeze(p, st) for p in parts], ty="ndarray")
    ds = [adtype(I, p, st) if kind(p, st) == "ndarray" else dtype("int64") for p in parts]
    d = ds[0].args[0]
    for y in ds[1:]:
        d = promote(d, y.args[0])
    return new_items([wrap(d, v) for x in its for v in x], dtype(d), st, node)
