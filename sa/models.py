"""Library models: dispatch, containers, truth, comparison."""
from .terms import *
from . import terms as tm
from . import content as ct
from .interp import (Obj, FuncV, BoundV, PropV, ClassV, Ext, BMeth, ModuleV, Star, RangeV, GenV,
                     MISSING, UNDEF, Dead, Unsupported, merge_ents)

EXT = {}      # dotted library name -> f(I, args, kwargs, st, node)
METH = {}     # (kind, method) -> f(I, recv, args, kwargs, st, node)
ATTR = {}     # (kind, attribute) -> f(I, recv, st, node)
GETITEM = {}  # kind -> f
SETITEM = {}
BINOP = []    # list of f(I, op, a, b, st, node, inplace) -> value | NotImplemented
CMP = []      # list of f(I, op, a, b, st, node) -> value | NotImplemented
EXTATTR = {}  # dotted name -> constant

BUILTINS = {
    "len", "int", "float", "str", "bool", "bytes", "bytearray", "list", "dict", "tuple", "set", "frozenset",
    "range", "enumerate", "zip", "min", "max", "abs", "sum", "isinstance", "type", "print", "open", "repr",
    "round", "sorted", "reversed", "any", "all", "map", "filter", "getattr", "setattr", "hasattr", "iter",
    "next", "super", "object", "property", "staticmethod", "classmethod", "id", "hash", "ord", "chr", "hex",
    "bin", "divmod", "pow", "callable", "issubclass", "memoryview", "vars", "format", "input", "slice",
    "NotImplemented", "complex", "exit", "quit",
}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


def meth(kind, *names):
    def d(f):
        for k in (kind if isinstance(kind, tuple) else (kind,)):
            for n in names:
                METH[(k, n)] = f
        return f
    return d


def kind(v, st=None):
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, (float, Fraction)):
        return "real"
    if isinstance(v, str):
        return "str"
    if isinstance(v, bytes):
        return "bytes"
    if v is None:
        return "none"
    if isinstance(v, tuple):
        return "tuple"
    if isinstance(v, T):
        return v.ty
    if isinstance(v, Obj):
        if isinstance(v.cls, str):
            return v.cls
        if isinstance(v.cls, Ext):
            return "exc"
        return "obj"
    if isinstance(v, ClassV):
        return "class"
    if isinstance(v, Ext):
        return "ext"
    if isinstance(v, (FuncV, BoundV, BMeth)):
        return "func"
    if isinstance(v, RangeV):
        return "range"
    if isinstance(v, GenV):
        return "gen"
    return type(v).__name__


def numeric(v):
    return kind(v) in ("int", "real", "bool", "num") or isinstance(v, T) and v.ty in ("int", "real", "bool")


# ------------------------------------------------------------------ opaque
def freeze(v, st):
    """immutable snapshot of a value for use as a term argument"""
    if isinstance(v, Obj):
        cell = st.heap.get(v, {})
        if v.cls == "bytearray":
            return cell.get("c", v_id(v))
        if v.cls in ("list", "set"):
            it = cell.get("items")
            if isinstance(it, tuple):
                return mk("seqv", tuple(freeze(x, st) for x in it), ty="seq")
            return it
        if v.cls == "dict":
            e = cell.get("ents")
            if isinstance(e, tuple):
                return mk("dictv", tuple((freeze(k, st), freeze(x, st), c) for k, x, c in e), ty="dictv")
            return e
        if v.cls == "ndarray":
            return arr_val(v, st)
        if isinstance(v.cls, ClassV) and v.cls.fields is not None:
            return mk("ntv", v.cls.name, tuple(freeze(cell.get(f), st) for f in v.cls.fields), ty="obj")
        return v_id(v)
    if isinstance(v, tuple):
        return tuple(freeze(x, st) for x in v)
    if isinstance(v, (T,)) or isconst(v):
        return v
    return v_id(v)


_vids = {}


def v_id(v):
    nm = repr(v) if isinstance(v, (Ext, ClassV, ModuleV)) else f"{type(v).__name__}:{id(v)}"
    if isinstance(v, Obj):
        nm = f"obj:{v.name or v.n}:{v.n}"
    _vids[nm] = v
    return mk("ref", nm, ty="any")


def arr_val(v, st):
    """ndarray Obj -> immutable array term"""
    cell = st.heap.get(v, {})
    if isinstance(cell.get("items"), tuple):
        return mk("arrof", mk("seqv", cell["items"], ty="seq"), cell["dtype"], ty="ndarray")
    if "arr" not in cell:
        return mk("opaque", "arr", freeze(cell.get("items"), st), ty="ndarray")
    return cell["arr"]


def opaque(I, name, args, st, node):
    fa = tuple(freeze(a.v if isinstance(a, Star) else a, st) for a in args)
    I.event("opaque", node, st, name=name, args=list(args))
    return mk("opaque", name, *fa, ty="any")


# ------------------------------------------------------------------ calls
def call(I, fn, args, kwargs, st, node):
    if isinstance(fn, Ext):
        I.event("xcall", node, st, target=fn.name, args=list(args), kwargs=dict(kwargs))
        # distribute over conditional arguments when the model needs plain ones
        f = EXT.get(fn.name)
        if f is not None:
            r = f(I, args, kwargs, st, node)
            if r is not NotImplemented:
                return r
        from .interp import EXC_PARENT
        if fn.name in EXC_PARENT or fn.name == "BaseException":
            return I.new_exc(fn.name, tuple(args), st)
        return opaque(I, fn.name, list(args) + list(kwargs.values()), st, node)
    if isinstance(fn, BMeth):
        return call_meth(I, fn.recv, fn.name, args, kwargs, st, node)
    if isinstance(fn, Obj) and isinstance(fn.cls, ClassV):
        f = fn.cls.lookup("__call__")
        if isinstance(f, FuncV):
            return I.call_func(f, [fn] + args, kwargs, st, node)
    if isinstance(fn, Obj) and fn.cls == "callable":
        return st.heap[fn]["f"](I, args, kwargs, st, node)
    return opaque(I, "call", [fn] + list(args) + list(kwargs.values()), st, node)


def call_meth(I, recv, name, args, kwargs, st, node):
    if isinstance(recv, T) and recv.op == "ite" and recv.ty not in ("int", "real", "bool"):
        return I.branch(recv.args[0], st,
                        lambda s: call_meth(I, recv.args[1], name, args, kwargs, s, node),
                        lambda s: call_meth(I, recv.args[2], name, args, kwargs, s, node))
    k = kind(recv, st)
    f = METH.get((k, name))
    if f is not None:
        r = f(I, recv, args, kwargs, st, node)
        if r is not NotImplemented:
            return r
    I.event("mcall", node, st, recv=recv, name=name, args=list(args))
    if recv is None:
        I.event("attrerror", node, st, obj=None, name=name)
        I.do_raise(st, I.new_exc("AttributeError", (name,), st), node)
    return opaque(I, f"{k}.{name}", [recv] + list(args) + list(kwargs.values()), st, node)


KNOWN_METHODS = {}


def getattr(I, o, name, st, node):
    if isinstance(o, Ext):
        full = o.name + "." + name
        if full in EXTATTR:
            return EXTATTR[full]
        if o.name in ("str", "bytes", "dict", "list", "float", "int", "bytearray") and (o.name, name) in METH:
            k = o.name
            h = Obj("callable")
            st.heap[h] = {"f": lambda I, a, kw, s, n: call_meth(I, a[0], name, a[1:], kw, s, n)}
            if (k, name) in CLSMETH:
                st.heap[h] = {"f": CLSMETH[(k, name)]}
            return h
        if (o.name, name) in CLSMETH:
            h = Obj("callable")
            st.heap[h] = {"f": CLSMETH[(o.name, name)]}
            return h
        if name in ("__name__", "__qualname__"):
            return o.name.split(".")[-1]
        return Ext(full)
    k = kind(o, st)
    f = ATTR.get((k, name))
    if f is not None:
        r = f(I, o, st, node)
        if r is not NotImplemented:
            return r
    if (k, name) in METH:
        return BMeth(o, name)
    if isinstance(o, Obj):
        cell = st.heap.get(o, {})
        if name in cell:
            v = cell[name]
            if v is UNDEF or isinstance(v, T) and v.op == "ite" and UNDEF in v.args:
                v = I.strip_undef(v, st, node, name)
            return v
        if o.cls == "namespace":
            I.event("attrerror", node, st, obj=o, name=name)
            I.do_raise(st, I.new_exc("AttributeError", (name,), st), node)
        if k == "exc":
            if name == "args":
                return cell.get("args", ())
            return opaque(I, "exc." + name, [o], st, node)
    if o is None or k in ("int", "real", "bool", "str", "bytes", "tuple", "list", "dict") and isconst_kind_attr_missing(k, name):
        I.event("attrerror", node, st, obj=o, name=name)
        I.do_raise(st, I.new_exc("AttributeError", (name,), st), node)
    if isinstance(o, (BoundV, FuncV, BMeth)):
        return opaque(I, "func." + name, [], st, node)
    return BMeth(o, name) if isinstance(o, T) and o.ty in ("any", "obj") and is_method_name(name) else mk("attr", freeze(o, st), name, ty="any")


CLSMETH = {}
PY = {"int": int, "real": float, "bool": bool, "str": str, "bytes": bytes, "tuple": tuple, "list": list, "dict": dict}


NPSCALAR = set("""T all any argmax argmin argsort as_integer_ratio astype base bit_count byteswap choose clip compress conj conjugate copy cumprod cumsum data denominator device diagonal dtype dump dumps fill flags flat flatten fromhex getfield hex imag is_integer item itemsize max mean min nbytes ndim nonzero numerator prod put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take to_device tobytes tofile tolist trace transpose var view""".split())


def isconst_kind_attr_missing(k, name):
    import builtins
    if k in ("int", "real", "bool"):
        # numpy scalars carry more attributes
        return not (name.startswith("__") or name in NPSCALAR or builtins.hasattr(int, name) or builtins.hasattr(float, name))
    return not builtins.hasattr(PY[k], name)


def is_method_name(name):
    return False


def obj_attr(I, o, name, st, node):
    return NotImplemented


# ------------------------------------------------------------------ truth
def length(I, v, st, node):
    k = kind(v, st)
    if isinstance(v, T) and v.op == "ite":
        return ite(v.args[0], length(I, v.args[1], st, node), length(I, v.args[2], st, node))
    if k == "str":
        return slen(v)
    if k == "bytes":
        return ct.clen(v, st.facts)
    if k == "bytearray":
        return length(I, st.heap[v]["c"], st, node)
    if k == "tuple":
        return len(v)
    if isinstance(v, RangeV):
        from .m_num import range_len
        return range_len(v)
    if isinstance(v, Obj):
        cell = st.heap.get(v, {})
        if k in ("list", "set"):
            it = cell["items"]
            if isinstance(it, tuple):
                return len(it)
            return alen(it)
        if k == "dict":
            e = cell["ents"]
            if isinstance(e, tuple):
                n = 0
                for _, _, c in e:
                    n = add(n, ite(c, 1, 0))
                return n
            return mk("alen", e, ty="int")
        if k == "ndarray":
            if isinstance(cell.get("items"), tuple):
                return len(cell["items"])
            return alen(cell["arr"])
        if isinstance(v.cls, ClassV):
            f = v.cls.lookup("__len__")
            if isinstance(f, FuncV):
                return I.call_func(f, [v], {}, st, node)
            if v.cls.fields is not None:
                return len(v.cls.fields)
    if isinstance(v, T) and v.ty in ("seq", "ndarray", "pyarr", "dictv"):
        return alen(v)
    if isinstance(v, T):
        return mk("len", v, ty="int")
    if v is None or k in ("int", "real", "bool"):
        I.event("typeerror", node, st, what="len")
        I.do_raise(st, I.new_exc("TypeError", ("len",), st), node)
    return opaque(I, "len", [v], st, node)


def alen(a):
    if isinstance(a, tuple):
        return len(a)
    if isinstance(a, T):
        if a.op == "seqv":
            return len(a.args[0])
        if a.op == "ite":
            return ite(a.args[0], alen(a.args[1]), alen(a.args[2]))
        if a.op in ("astype", "arrof", "byteswap"):
            return alen(a.args[0])
        if a.op == "frombuffer":
            return a.args[3]
        if a.op == "seqcat":
            n = 0
            for p in a.args:
                n = add(n, alen(p))
            return n
        if a.op == "zerosarr":
            return a.args[0]
        if a.op == "store":
            return alen(a.args[0])
        if a.op == "aslice":
            return mk("alen", a, ty="int", )
    return nonneg(mk("alen", a, ty="int"))


def nonneg(t):
    return t


tm_atom_range = tm.atom_range


def _ar(a):
    if a.op == "alen":
        return iv(0, None)
    if a.op == "shr" and isinstance(a.args[1], int):
        r = hull(rng(a.args[0]))
        if r.parts:
            lo, _, hi, _ = r.parts[0]
            return iv(None if lo is None else int(lo) >> a.args[1], None if hi is None else int(hi) >> a.args[1])
        return FULL
    return tm_atom_range(a)


tm.atom_range = _ar
_shr0 = tm.shr


def bit_truth(c, st):
    """a condition on a few bits of a word whose other bits are symbolic"""
    if c.op == "in" and isinstance(c.args[0], T) and c.args[0].op in ("band", "shr"):
        from . import bits
        try:
            x = bits.canon(c.args[0], st.facts)
        except (bits.NoBits, Budget, RecursionError):
            return c
        if isinstance(x, int):
            return c.args[1].contains(x)
    return c


def truth(I, v, st, node):
    if isinstance(v, bool):
        return v
    if isinstance(v, T):
        if v.ty == "bool":
            return bit_truth(v, st)
        if v.op == "ite":
            return ite_b(v.args[0], truth(I, v.args[1], st, node), truth(I, v.args[2], st, node))
        if v.ty in ("int", "real"):
            return cmp_("!=", v, 0)
        if v.ty in ("str", "bytes", "seq", "pyarr", "dictv"):
            return cmp_("!=", length(I, v, st, node), 0)
        if v.ty in ("dt", "tz", "dtype", "match", "repat", "file", "stream"):
            return True
        if v.ty == "td":
            return cmp_("!=", v.args[0], 0)
        return mk("truthy", v, ty="bool")
    if v is None:
        return False
    if isinstance(v, (int, float, str, bytes, tuple, Fraction)):
        return bool(v)
    if isinstance(v, Obj):
        if isinstance(v.cls, str) and v.cls in ("list", "dict", "set", "bytearray"):
            return cmp_("!=", length(I, v, st, node), 0)
        if isinstance(v.cls, ClassV):
            f = v.cls.lookup("__bool__")
            if isinstance(f, FuncV):
                return truth(I, I.call_func(f, [v], {}, st, node), st, node)
            if v.cls.lookup("__len__") or v.cls.fields is not None:
                return cmp_("!=", length(I, v, st, node), 0)
        return True
    if isinstance(v, RangeV):
        return cmp_(">", length(I, v, st, node), 0)
    return True


# ------------------------------------------------------------------ comparison
def is_none(v):
    if v is None:
        return True
    if isinstance(v, T):
        if v.op == "ite":
            return ite_b(v.args[0], is_none(v.args[1]), is_none(v.args[2]))
        if v.ty == "any" and v.op in ("sym", "opaque", "attr", "elem", "mcall", "jsonv"):
            return mk("isnone", v, ty="bool")
        return False
    return False


def equal(I, a, b, st, node):
    """python == as boolean term"""
    if isinstance(a, T) and a.op == "ite" and not numeric(a):
        return ite_b(a.args[0], equal(I, a.args[1], b, st, node), equal(I, a.args[2], b, st, node))
    if isinstance(b, T) and b.op == "ite" and not numeric(b):
        return ite_b(b.args[0], equal(I, a, b.args[1], st, node), equal(I, a, b.args[2], st, node))
    if a is b and not (isinstance(a, Obj) and isinstance(a.cls, ClassV)):
        return True
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Obj) and isinstance(x.cls, ClassV):
            f = x.cls.lookup("__eq__")
            if isinstance(f, FuncV):
                return truth(I, I.call_func(f, [x, y], {}, st, node), st, node)
            if x.cls.fields is not None and isinstance(y, Obj) and y.cls is x.cls:
                return and_(*[equal(I, st.heap[x][k], st.heap[y][k], st, node) for k in x.cls.fields])
            return x is y
    if a is None or b is None:
        return is_none(b if a is None else a)
    if numeric(a) and numeric(b):
        return cmp_("==", a, b)
    ka, kb = kind(a, st), kind(b, st)
    if ka == "bytearray":
        a, ka = st.heap[a]["c"], "bytes"
    if kb == "bytearray":
        b, kb = st.heap[b]["c"], "bytes"
    if ka == kb == "bytes":
        return eq_bytes(a, b, st)
    if ka == kb == "str":
        from .m_str import eq_str
        return eq_str(a, b, st.facts)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return and_(*[equal(I, x, y, st, node) for x, y in zip(a, b)])
    if isinstance(a, Obj) and isinstance(b, Obj) and ka == kb == "list":
        x, y = st.heap[a]["items"], st.heap[b]["items"]
        if isinstance(x, tuple) and isinstance(y, tuple):
            return equal(I, x, y, st, node)
        return eqv(freeze(a, st), freeze(b, st))
    if isinstance(a, Obj) and isinstance(b, Obj) and ka == kb == "dict":
        return eqv(freeze(a, st), freeze(b, st))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Obj) and isinstance(x.cls, str) and isinstance(y, (Ext, ClassV)):
            return False
    for f in CMP:
        r = f(I, "Eq", a, b, st, node)
        if r is not NotImplemented:
            return r
    if isconst(a) and isconst(b):
        return a == b
    if isinstance(a, (Ext, ClassV, FuncV, ModuleV)) and isinstance(b, (Ext, ClassV, FuncV, ModuleV)):
        return a is b
    kindset = {"int", "real", "bool", "str", "bytes", "none", "tuple", "list", "dict", "dt", "td", "ndarray", "obj", "seq"}
    if ka in kindset and kb in kindset and ka != kb and not {ka, kb} <= {"int", "real", "bool"}:
        return False
    fa, fb = freeze(a, st), freeze(b, st)
    if isinstance(fa, (tuple,)) or isinstance(fb, tuple):
        return mk("eqv", fa, fb, ty="bool")
    return eqv(fa, fb)


def eq_bytes(a, b, st=None):
    facts = st.facts if st is not None else None
    if isinstance(a, bytes) and isinstance(b, bytes):
        return a == b
    if isinstance(b, T) and isinstance(a, bytes):
        a, b = b, a
    if isinstance(b, bytes) and isinstance(a, T):
        n = ct.clen(a, facts)
        le = cmp_("==", n, len(b))
        if isinstance(le, T) and facts is not None:
            le = facts.val(le)
        if le is False:
            return False
        if len(b) <= 8:
            out = [le]
            for i in range(len(b)):
                out.append(cmp_("==", ct.unp("B", "<", byte_at(a, i, facts)), b[i]))
            return and_(*out)
    return eqv(a, b)


def byte_at(c, i, facts):
    return ct.slice_(c, i, add(i, 1), facts)


def compare(I, op, a, b, st, node):
    if isinstance(a, GenV) or isinstance(b, GenV):
        return opaque(I, "cmp", [op], st, node)
    if op in ("Is", "IsNot"):
        if a is None or b is None:
            r = is_none(b if a is None else a)
        elif isinstance(a, T) and a.op == "ite":
            r = ite_b(a.args[0], compare(I, "Is", a.args[1], b, st, node), compare(I, "Is", a.args[2], b, st, node))
        elif isinstance(b, T) and b.op == "ite":
            r = ite_b(b.args[0], compare(I, "Is", a, b.args[1], st, node), compare(I, "Is", a, b.args[2], st, node))
        elif isbool(a) and isbool(b):
            r = ite_b(a, b, not_(b))
        elif isinstance(a, T) or isinstance(b, T):
            r = True if a is b else eqv(freeze(a, st), freeze(b, st))
        else:
            r = a is b or (isconst(a) and isconst(b) and type(a) is type(b) and a == b)
        return r if op == "Is" else not_(r)
    if op == "Eq":
        if numeric_array(a, b, st):
            return opaque(I, "arr==", [a, b], st, node)
        return equal(I, a, b, st, node)
    if op == "NotEq":
        for x, y in ((a, b),):
            if isinstance(x, Obj) and isinstance(x.cls, ClassV):
                f = x.cls.lookup("__ne__")
                if isinstance(f, FuncV):
                    return truth(I, I.call_func(f, [x, y], {}, st, node), st, node)
        return not_(equal(I, a, b, st, node))
    if op in ("In", "NotIn"):
        r = contains(I, a, b, st, node)
        return r if op == "In" else not_(r)
    sop = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[op]
    if numeric_array(a, b, st):
        return mk("arrcmp", sop, freeze(a, st), freeze(b, st), ty="ndarray")
    if numeric(a) and numeric(b):
        return cmp_(sop, a, b)
    for x, y, nm in ((a, b, {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[sop]),):
        if isinstance(x, Obj) and isinstance(x.cls, ClassV):
            f = x.cls.lookup(nm)
            if isinstance(f, FuncV):
                return truth(I, I.call_func(f, [x, y], {}, st, node), st, node)
    for f in CMP:
        r = f(I, op, a, b, st, node)
        if r is not NotImplemented:
            return r
    if isinstance(a, T) and a.op == "ite":
        return I.branch(a.args[0], st, lambda s: compare(I, op, a.args[1], b, s, node), lambda s: compare(I, op, a.args[2], b, s, node))
    if isinstance(b, T) and b.op == "ite":
        return I.branch(b.args[0], st, lambda s: compare(I, op, a, b.args[1], s, node), lambda s: compare(I, op, a, b.args[2], s, node))
    ka, kb = kind(a, st), kind(b, st)
    if isconst(a) and isconst(b) and ka == kb and ka in ("str", "bytes"):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[sop]
    nums = ("int", "real", "bool")
    hard = ("none", "str", "bytes", "tuple", "list", "dict", "obj")
    if (ka in nums and kb in hard) or (kb in nums and ka in hard) or ka == "none" or kb == "none":
        I.event("typeerror", node, st, what=f"compare {ka} {kb}")
        I.do_raise(st, I.new_exc("TypeError", (f"'{sop}' {ka} {kb}",), st), node)
    if ka in nums + ("any",) and kb in nums + ("any",):
        return cmp_(sop, a, b)
    return mk("cmp", sop, freeze(a, st), freeze(b, st), ty="bool")


def numeric_array(a, b, st):
    return kind(a, st) == "ndarray" or kind(b, st) == "ndarray"


def contains(I, x, c, st, node):
    if isinstance(c, T) and c.op == "ite":
        return I.branch(c.args[0], st, lambda s: contains(I, x, c.args[1], s, node), lambda s: contains(I, x, c.args[2], s, node))
    k = kind(c, st)
    if k == "str":
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        from .m_str import str_contains
        return str_contains(x, c)
    if isinstance(c, Obj) and k == "dict":
        e = st.heap[c]["ents"]
        if isinstance(e, tuple):
            return or_(*[and_(p, equal(I, x, kk, st, node)) for kk, _, p in e])
        return mk("haskey", e, freeze(x, st), ty="bool")
    items = I.seq_items(c, st)
    if items is not None:
        return or_(*[equal(I, x, y, st, node) for y in items])
    if isinstance(c, RangeV) and isinstance(c.s, int) and c.s == 1 and numeric(x):
        return and_(cmp_(">=", x, c.a), cmp_("<", x, c.b))
    if isinstance(c, Obj) and isinstance(c.cls, ClassV):
        f = c.cls.lookup("__contains__")
        if isinstance(f, FuncV):
            return truth(I, I.call_func(f, [c, x], {}, st, node), st, node)
    if isinstance(c, T) and c.ty in ("dictv", "any"):
        return mk("haskey", c, freeze(x, st), ty="bool")
    return mk("contains", freeze(c, st), freeze(x, st), ty="bool")


# ------------------------------------------------------------------ sequences
def seq_append(items, v):
    return seq_extend(items, (v,))


def seq_parts(x):
    """sequence value -> list of parts (tuples or T)"""
    if isinstance(x, tuple):
        return [x] if x else []
    if isinstance(x, T) and x.op == "seqcat":
        return list(x.args)
    if isinstance(x, T) and x.op == "seqv":
        return [x.args[0]] if x.args[0] else []
    return [x]


def seqcat(*parts):
    out = []
    for p in parts:
        for q in seq_parts(p):
            if isinstance(q, tuple) and out and isinstance(out[-1], tuple):
                out[-1] = out[-1] + q
            else:
                out.append(q)
    if not out:
        return ()
    if len(out) == 1:
        return out[0]
    return mk("seqcat", *out, ty="seq")


tm.REBUILD["seqcat"] = lambda x, *a: seqcat(*a)
tm.REBUILD["alen"] = lambda x, a: alen(a)


def seq_extend(items, more):
    if isinstance(items, T) and items.op == "ite":
        # keep the conditional part as one segment
        return seqcat(items, more)
    return seqcat(items, more)


def seq_ite(c, a, b):
    """ite over sequences with common prefix factored out"""
    pa, pb = seq_parts(a), seq_parts(b)
    pre = []
    while pa and pb and (pa[0] is pb[0] or same(pa[0], pb[0])):
        pre.append(pa.pop(0))
        pb.pop(0)
    if pa and pb and isinstance(pa[0], tuple) and isinstance(pb[0], tuple):
        k = 0
        while k < min(len(pa[0]), len(pb[0])) and same(pa[0][k], pb[0][k]):
            k += 1
        if k:
            pre.append(pa[0][:k])
            pa[0] = pa[0][k:]
            pb[0] = pb[0][k:]
            pa = [p for p in pa if p != ()]
            pb = [p for p in pb if p != ()]
    ra, rb = seqcat(*pa), seqcat(*pb)
    if not pre:
        if isinstance(ra, tuple) and isinstance(rb, tuple) and len(ra) == len(rb):
            return tuple(ite(c, x, y) for x, y in zip(ra, rb))
        return mk("ite", c, ra, rb, ty="seq") if c not in (True, False) else (ra if c else rb)
    if ra == () and rb == ():
        return seqcat(*pre)
    return seqcat(*pre, seq_ite(c, ra, rb))


_ite0 = tm.ite


# ------------------------------------------------------------------ items
def norm_index(i, n):
    if isinstance(i, int) and not isinstance(i, bool) and i < 0:
        return add(n, i)
    return i


def getitem(I, o, i, st, node):
    k = kind(o, st)
    if isinstance(i, T) and i.op == "ite" and not isinstance(o, (T,)):
        return I.branch(i.args[0], st, lambda s: getitem(I, o, i.args[1], s, node), lambda s: getitem(I, o, i.args[2], s, node))
    if isinstance(o, Ext) or isinstance(o, ClassV) or isinstance(o, T) and o.op == "opaque" and o.ty == "any" and isinstance(i, (Ext, ClassV)):
        return o  # typing subscripts
    f = GETITEM.get(k)
    if f is not None:
        r = f(I, o, i, st, node)
        if r is not NotImplemented:
            return r
    items = None
    if k in ("tuple", "list") or k == "obj":
        items = I.seq_items(o, st)
    if items is not None:
        if isinstance(i, slice):
            if all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                r = tuple(items[i])
                return r if k == "tuple" else I.new_list(r, st, node)
            return opaque(I, "slice", [o, i.start, i.stop], st, node)
        if isinstance(i, bool):
            i = int(i)
        i = nconst(i) if not isinstance(i, (str, bytes, tuple)) and i is not None else i
        if isinstance(i, T):
            i2 = simp(i, st.facts)
            if isinstance(i2, int):
                i = i2
        if isinstance(i, int):
            if -len(items) <= i < len(items):
                return items[i]
            I.event("indexerror", node, st, obj=o, index=i)
            I.do_raise(st, I.new_exc("IndexError", (), st), node)
        if isinstance(i, T) and items:
            r = items[-1]
            for j in range(len(items) - 2, -1, -1):
                c = st.facts.val(cmp_("==", i, j)) if isinstance(cmp_("==", i, j), T) else cmp_("==", i, j)
                r = ite(c, items[j], r)
            return r
        return opaque(I, "index", [o, i], st, node)
    if k == "list":
        return seq_get(I, st.heap[o]["items"], i, st, node)
    if k == "dict":
        return dict_get(I, o, i, st, node, None, raising=True)
    if isinstance(o, T) and o.ty in ("seq", "ndarray", "pyarr"):
        return seq_get(I, o, i, st, node)
    if o is None or k in ("int", "real", "bool") or isinstance(o, (FuncV, BoundV)):
        I.event("typeerror", node, st, what="subscript")
        I.do_raise(st, I.new_exc("TypeError", ("not subscriptable",), st), node)
    if isinstance(i, slice):
        return mk("opaque", "slice", freeze(o, st), freeze(i.start, st), freeze(i.stop, st), ty="any")
    return mk("item", freeze(o, st), freeze(i, st), ty="any")


def elem_ty(a):
    if isinstance(a, T):
        dt = arr_dtype(a)
        if dt:
            return "real" if DT[dt][0] == "f" else "int"
        if a.op == "sym":
            for k, v in a.args[3]:
                if k == "ety":
                    return v
        if a.op in ("split", "splitlines", "groups"):
            return "str"
    return "any"


FBCODE = {"int16": "h", "uint16": "H", "int32": "i", "uint32": "I", "int64": "q", "uint64": "Q", "float32": "f", "float64": "d", "int8": "b", "uint8": "B"}


def elem(a, i):
    if isinstance(a, tuple) and isinstance(i, int):
        return a[i]
    if isinstance(a, T):
        if a.op == "seqv" and isinstance(i, int):
            return a.args[0][i]
        if a.op == "ite":
            return ite(a.args[0], elem(a.args[1], i), elem(a.args[2], i))
        if a.op == "astype":
            return wrap(a.args[1], elem(a.args[0], i))
        if a.op == "arrof":
            return wrap(a.args[1], elem(a.args[0], i))
        if a.op == "frombuffer" and isinstance(i, int) and isinstance(a.args[3], int) and a.args[1] in FBCODE:
            n = a.args[3]
            j = i + n if i < 0 else i
            k = ct.clen(a.args[0])
            code = FBCODE[a.args[1]]
            w = ct.SIZE[code]
            if 0 <= j < n and isinstance(k, int) and k >= n * w:
                return ct.unp(code, a.args[2], ct.slice_(a.args[0], j * w, j * w + w, Facts()))
    return mk("elem", a, i, ty=elem_ty(a))


tm.REBUILD["elem"] = lambda x, a, i: elem(a, i)


def seq_get(I, a, i, st, node):
    if isinstance(i, slice):
        if i.step is None and (i.start is None or isinstance(i.start, int) and i.start == 0) and i.stop is None:
            return a
        n = alen(a)
        s0 = norm_index(i.start if i.start is not None else 0, n)
        e0 = norm_index(i.stop, n) if i.stop is not None else None
        if i.step is not None and i.step != 1:
            return opaque(I, "stepslice", [a, i.start, i.stop, i.step], st, node)
        t = mk("aslice", a, s0, e0, ty=a.ty if isinstance(a, T) else "seq")
        return t
    if isinstance(a, T) and a.op == "seqcat" and isinstance(i, int):
        first = a.args[0]
        if isinstance(first, tuple) and 0 <= i < len(first):
            return first[i]
        last = a.args[-1]
        if isinstance(last, tuple) and i < 0 and -i <= len(last):
            return last[i]
    return elem(a, norm_index(i, alen(a)))


def dict_get(I, o, key, st, node, default, raising=False):
    e = st.heap[o]["ents"] if isinstance(o, Obj) else o
    if not isinstance(e, tuple):
        v = mk("jsonv", e, freeze(key, st), ty="any")
        if raising:
            I.may_raise(st, "KeyError", node, not_(mk("haskey", e, freeze(key, st), ty="bool")))
            return v
        return ite(mk("haskey", e, freeze(key, st), ty="bool"), v, default)
    cands = []
    for k, v, p in e:
        c = equal(I, key, k, st, node)
        c = and_(c, p)
        if isinstance(c, T):
            c = st.facts.val(c)
        if c is False:
            continue
        cands.append((c, v))
    hit = or_(*[c for c, _ in cands])
    if isinstance(hit, T):
        hit = st.facts.val(hit)
    if hit is not True and raising:
        I.event("keyerror", node, st, obj=o, key=key, hit=hit)
        if hit is False:
            I.do_raise(st, I.new_exc("KeyError", (key,), st), node)
        b = st.copy()
        if b.assume(not_(hit)):
            if I.sinks:
                ex = I.new_exc("KeyError", (key,), b)
                I.sinks[-1].append((b, ex, node))
        st.assume(hit)
    r = default
    if raising and cands:
        r = cands[-1][1]
        cands = cands[:-1]
    for c, v in reversed(cands):
        r = ite(c, v, r)
    return r


def setitem(I, o, i, v, st, node):
    k = kind(o, st)
    f = SETITEM.get(k)
    if f is not None:
        r = f(I, o, i, v, st, node)
        if r is not NotImplemented:
            return
    if k == "list":
        items = st.heap[o]["items"]
        if isinstance(items, tuple) and not isinstance(i, slice):
            i2 = nconst(i)
            if isinstance(i2, T):
                s2 = simp(i2, st.facts)
                i2 = s2 if isinstance(s2, int) else i2
            if isinstance(i2, int) and -len(items) <= i2 < len(items):
                l = list(items)
                l[i2] = v
                st.heap[o]["items"] = tuple(l)
                return
            if isinstance(i2, T):
                l = [ite(cmp_("==", i2, j), v, x) for j, x in enumerate(items)]
                st.heap[o]["items"] = tuple(l)
                return
            I.do_raise(st, I.new_exc("IndexError", (), st), node)
        st.heap[o]["items"] = mk("store", freeze(o, st), freeze(i, st) if not isinstance(i, slice) else "slice", freeze(v, st), ty="seq")
        return
    if k == "dict":
        e = st.heap[o]["ents"]
        if isinstance(e, tuple):
            out = []
            done = False
            for kk, vv, p in e:
                c = equal(I, i, kk, st, node)
                if c is True:
                    out.append((kk, v, True))
                    done = True
                elif c is False:
                    out.append((kk, vv, p))
                else:
                    out.append((kk, ite(c, v, vv), p))
            if not done:
                out.append((i, v, True))
            st.heap[o]["ents"] = tuple(out)
        else:
            st.heap[o]["ents"] = mk("dstore", e, freeze(i, st), freeze(v, st), ty="dictv")
        return
    I.event("setitem_opaque", node, st, obj=o, index=i, value=v)


def delitem(I, o, i, st, node):
    if kind(o, st) == "dict" and isinstance(st.heap[o]["ents"], tuple):
        st.heap[o]["ents"] = tuple(x for x in st.heap[o]["ents"] if equal(I, i, x[0], st, node) is not True)
        return
    I.event("delitem_opaque", node, st, obj=o, index=i)


# ------------------------------------------------------------------ list/dict methods
@meth("list", "append")
def _l_append(I, o, a, kw, st, node):
    st.heap[o]["items"] = seq_append(st.heap[o]["items"], a[0])


@meth("list", "extend")
def _l_extend(I, o, a, kw, st, node):
    items = I.seq_items(a[0], st)
    st.heap[o]["items"] = seq_extend(st.heap[o]["items"], tuple(items) if items is not None else freeze(a[0], st))


@meth("list", "insert")
def _l_insert(I, o, a, kw, st, node):
    it = st.heap[o]["items"]
    if isinstance(it, tuple) and isinstance(a[0], int):
        l = list(it)
        l.insert(a[0], a[1])
        st.heap[o]["items"] = tuple(l)
        return None
    if isinstance(a[0], int) and a[0] == 0:
        st.heap[o]["items"] = seqcat((a[1],), it)
        return None
    return NotImplemented


@meth("list", "pop")
def _l_pop(I, o, a, kw, st, node):
    it = st.heap[o]["items"]
    i = a[0] if a else -1
    if isinstance(it, tuple) and isinstance(i, int) and it:
        l = list(it)
        v = l.pop(i)
        st.heap[o]["items"] = tuple(l)
        return v
    return NotImplemented


@meth("list", "copy")
def _l_copy(I, o, a, kw, st, node):
    return I.new_list(st.heap[o]["items"], st, node)


@meth("list", "clear")
def _l_clear(I, o, a, kw, st, node):
    st.heap[o]["items"] = ()


@meth("list", "remove", "sort", "reverse")
def _l_mut(I, o, a, kw, st, node):
    st.heap[o]["items"] = mk("opaque", "listmut", freeze(o, st), *[freeze(x, st) for x in a], ty="seq")


@meth("set", "add")
def _s_add(I, o, a, kw, st, node):
    st.heap[o]["items"] = seq_append(st.heap[o]["items"], a[0])


@meth("dict", "get")
def _d_get(I, o, a, kw, st, node):
    return dict_get(I, o, a[0], st, node, a[1] if len(a) > 1 else None)


@meth("dict", "keys")
def _d_keys(I, o, a, kw, st, node):
    items = I.seq_items(o, st)
    if items is None:
        return NotImplemented
    return I.new_list(items, st)


@meth("dict", "values")
def _d_values(I, o, a, kw, st, node):
    e = st.heap[o]["ents"]
    if isinstance(e, tuple) and all(c is True for _, _, c in e):
        return I.new_list([v for _, v, _ in e], st)
    return NotImplemented


@meth("dict", "items")
def _d_items(I, o, a, kw, st, node):
    e = st.heap[o]["ents"]
    if isinstance(e, tuple) and all(c is True for _, _, c in e):
        return I.new_list([(k, v) for k, v, _ in e], st)
    return NotImplemented


@meth("dict", "copy")
def _d_copy(I, o, a, kw, st, node):
    return I.new_dict(st.heap[o]["ents"], st, node)


@meth("dict", "update")
def _d_update(I, o, a, kw, st, node):
    src = st.heap[a[0]]["ents"] if a and isinstance(a[0], Obj) and a[0].cls == "dict" else None
    if isinstance(src, tuple):
        for k, v, c in src:
            if c is True:
                setitem(I, o, k, v, st, node)
            else:
                old = dict_get(I, o, k, st, node, None)
                setitem(I, o, k, ite(c, v, old), st, node)
        for k, v in kw.items():
            setitem(I, o, k, v, st, node)
        return None
    st.heap[o]["ents"] = mk("dupdate", freeze(o, st), *[freeze(x, st) for x in a], ty="dictv")


@meth("dict", "setdefault")
def _d_setdefault(I, o, a, kw, st, node):
    d = a[1] if len(a) > 1 else None
    v = dict_get(I, o, a[0], st, node, d)
    setitem(I, o, a[0], v, st, node)
    return v


@meth("dict", "pop")
def _d_pop(I, o, a, kw, st, node):
    v = dict_get(I, o, a[0], st, node, a[1] if len(a) > 1 else None)
    delitem(I, o, a[0], st, node)
    return v


# ------------------------------------------------------------------ iteration over unknown iterables
def iter_len(I, it, st, node):
    """number of iterations as a term, or None when unknown"""
    if isinstance(it, RangeV):
        from .m_num import range_len
        return range_len(it)
    if isinstance(it, Obj) and it.cls in ("enumerate",):
        return iter_len(I, st.heap[it]["it"], st, node)
    if isinstance(it, Obj) and it.cls == "zip":
        return None
    k = kind(it, st)
    if k in ("list", "set"):
        return alen(st.heap[it]["items"])
    if isinstance(it, T) and it.ty in ("seq", "ndarray", "pyarr", "str", "bytes"):
        return length(I, it, st, node)
    if k == "bytearray":
        return length(I, it, st, node)
    return None


def iter_item(I, it, k, st, node):
    if isinstance(it, RangeV):
        return add(it.a, mul(k, it.s))
    if isinstance(it, Obj) and it.cls == "enumerate":
        return (add(st.heap[it]["start"], k), iter_item(I, st.heap[it]["it"], k, st, node))
    if isinstance(it, Obj) and it.cls == "zip":
        return tuple(iter_item(I, x, k, st, node) for x in st.heap[it]["its"])
    kd = kind(it, st)
    if kd in ("list", "set"):
        return elem(st.heap[it]["items"], k)
    if isinstance(it, T) and it.ty in ("seq", "ndarray", "pyarr"):
        return elem(it, k)
    if kd in ("str", "bytes", "bytearray"):
        return getitem(I, it, k, st, node)
    if isinstance(it, GenV):
        # records of an analysed generator: a fresh object of its record class
        cls = RECORD_GENERATORS.get(it.func.name)
        if cls is not None:
            c = it.func.module.env.get(cls)
            if isinstance(c, ClassV):
                return GEN_ITEM(I, it, c, k, st, node)
        return mk("genitem", v_id(it), k, ty="any")
    if kd == "file":
        return mk("line", v_id(it), k, ty="str")
    return mk("iteritem", freeze(it, st), k, ty="any")


RECORD_GENERATORS = {"readMSeed3Records": "MSeed3Record", "readMiniseed2Records": "MiniseedRecord"}


def GEN_ITEM(I, it, c, k, st, node):
    o = Obj(c, site=node, lazy=True, name=f"rec@{node.lineno}")
    st.heap[o] = {}
    I.event("genitem", node, st, gen=it, obj=o, k=k)
    return o


def sym_comp(I, e, st, kind_, it, g):
    """comprehension over an iterable of unknown length"""
    k = fresh("ck", "int", 0, None)
    n = iter_len(I, it, st, e)
    import ast
    if len(e.generators) != 1 or kind_ == "dict":
        return opaque(I, "comp", [it], st, e)
    x = iter_item(I, it, k, st, e)
    I.assign(g.target, x, st)
    if n is not None:
        q = st.copy()
        q.axiom(cmp_("<", k, n))
        q.axiom(cmp_(">=", k, 0))
    else:
        q = st
    guard = True
    for c in g.ifs:
        guard = and_(guard, truth(I, I.ev(c, q), q, c))
    v = I.ev(e.elt, q)
    if guard is True and v is x:
        return I.new_list(freeze(it, st), st, e) if not isinstance(it, RangeV) else opaque(I, "rangelist", [it.a, it.b], st, e)
    src = freeze(it, st) if not isinstance(it, RangeV) else mk("rangev", it.a, it.b, it.s, ty="seq")
    m = mk("seqmap", src, mk("lam", k, freeze(v, st), guard, ty="lam"), ty="seq")
    return I.new_list(m, st, e)


# ------------------------------------------------------------------ with
def with_enter(I, v, st, node):
    if isinstance(v, Obj) and isinstance(v.cls, ClassV):
        f = v.cls.lookup("__enter__")
        if isinstance(f, FuncV):
            return I.call_func(f, [v], {}, st, node)
    if v is None or isinstance(v, (int, float, str, bytes, tuple)) or isinstance(v, Obj) and v.cls in ("list", "dict"):
        I.event("typeerror", node, st, what="with")
        I.do_raise(st, I.new_exc("TypeError", ("does not support the context manager protocol",), st), node)
    I.event("enter", node, st, obj=v)
    return v


def with_exit(I, v, st, node, exc=None):
    if isinstance(v, Obj) and isinstance(v.cls, ClassV):
        f = v.cls.lookup("__exit__")
        if isinstance(f, FuncV):
            I.call_func(f, [v, None, None, None], {}, st, node)
            return
    if isinstance(v, Obj) and v.cls == "file" and v in st.heap and st.heap[v].get("inode") is not None:
        from . import m_misc
        m_misc.fs_flush(st, v)
        st.heap[v]["closed"] = True
    I.event("close", node, st, obj=v, exc=exc, implicit=True)


TYPES = {"int", "float", "str", "bytes", "bytearray", "list", "tuple", "dict", "set", "bool", "object", "type", "complex", "NoneType", "numpy.ndarray", "array.array", "datetime.datetime", "datetime.timedelta"}


def binop(I, op, a, b, st, node, inplace=False):
    for f in BINOP:
        r = f(I, op, a, b, st, node, inplace)
        if r is not NotImplemented:
            return r
    names = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "FloorDiv": "__floordiv__", "Mod": "__mod__"}
    if isinstance(a, Obj) and isinstance(a.cls, ClassV) and op in names:
        f = a.cls.lookup(names[op])
        if isinstance(f, FuncV):
            return I.call_func(f, [a, b], {}, st, node)
    if isinstance(a, T) and a.op == "ite":
        return I.branch(a.args[0], st, lambda s: binop(I, op, a.args[1], b, s, node, inplace), lambda s: binop(I, op, a.args[2], b, s, node, inplace))
    if isinstance(b, T) and b.op == "ite":
        return I.branch(b.args[0], st, lambda s: binop(I, op, a, b.args[1], s, node, inplace), lambda s: binop(I, op, a, b.args[2], s, node, inplace))
    ka, kb = kind(a, st), kind(b, st)
    hard = ("none", "str", "bytes", "tuple", "list", "dict", "int", "real", "bool")
    if ka in hard and kb in hard:
        I.event("typeerror", node, st, what=f"{ka} {op} {kb}")
        I.do_raise(st, I.new_exc("TypeError", (f"unsupported operand {op}: {ka} and {kb}",), st), node)
    if op != "BitOr" and (isinstance(a, ClassV) or isinstance(b, ClassV) or any(isinstance(x, Ext) and x.name in TYPES for x in (a, b))):
        if all(isinstance(x, ClassV) or isinstance(x, Ext) and x.name in TYPES or kind(x, st) in hard for x in (a, b)):
            I.event("typeerror", node, st, what=f"{ka} {op} {kb}")
            I.do_raise(st, I.new_exc("TypeError", (f"unsupported operand {op}: {ka} and {kb}",), st), node)
    if isinstance(a, (Ext, ClassV)) or isinstance(b, (Ext, ClassV)):
        return opaque(I, "typeop", [], st, node)
    return mk("opaque", "binop" + op, freeze(a, st), freeze(b, st), ty="any")


def unary(I, op, v, st, node):
    from .m_num import num_unary
    return num_unary(I, op, v, st, node)


def scat(*parts):
    from .m_str import scat as f
    return f(*parts)


def format_(I, v, spec, st, node):
    from .m_str import format_ as f
    return f(I, v, spec, st, node)


def str_(I, v, st, node):
    from .m_str import str_ as f
    return f(I, v, st, node)


def repr_(I, v, st, node):
    from .m_str import repr_ as f
    return f(I, v, st, node)


def slen(v):
    from .m_str import slen as f
    return f(v)


from . import m_num, m_str, m_bytes, m_np, m_time, m_misc  # noqa: E402,F401
