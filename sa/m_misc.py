"""re, json, files, os, argparse, print models"""
import json as pyjson
import os as pyos
import re as pyre
from .terms import *
from . import terms as tm
from . import content as ct
from . import models as M
from .models import ext, meth, EXT, METH, BINOP, GETITEM, ATTR, CMP, EXTATTR, CLSMETH, kind, numeric
from .interp import Obj, Ext, ClassV, FuncV, GenV, MISSING, Unsupported, Dead

EXTATTR["sys.byteorder"] = "little"
EXTATTR["os.sep"] = "/"
EXTATTR["os.linesep"] = "\n"
EXTATTR["os.devnull"] = "/dev/null"
EXTATTR["math.pi"] = 3.141592653589793
EXTATTR["math.inf"] = mk("inf", ty="real")
for _i, _f in enumerate(("IGNORECASE", "I", "ASCII", "A", "MULTILINE", "M", "DOTALL", "S", "VERBOSE", "X")):
    EXTATTR["re." + _f] = int(vars(pyre)[_f])


# ------------------------------------------------------------------ re
def mkpat(p, fl=0):
    return mk("repat", p, fl, ty="repat")


@ext("re.compile")
def _compile(I, a, kw, st, node):
    p = a[0]
    fl = a[1] if len(a) > 1 else kw.get("flags", 0)
    if isinstance(p, T) and p.ty == "repat":
        return p
    if not isinstance(p, (str, bytes)):
        I.may_raise(st, "re.error", node)
    else:
        try:
            pyre.compile(p, fl if isinstance(fl, int) else 0)
        except pyre.error:
            I.do_raise(st, I.new_exc("re.error", (), st), node)
    return mkpat(M.freeze(p, st), fl)


def do_match(I, mode, pat, s, st, node):
    p, fl = pat.args
    if s is None or kind(s, st) in ("int", "real", "bytes", "list", "dict", "none"):
        I.event("typeerror", node, st, what="re")
        I.do_raise(st, I.new_exc("TypeError", ("expected string",), st), node)
    if isinstance(s, T) and s.op == "ite":
        return I.branch(s.args[0], st, lambda q: do_match(I, mode, pat, s.args[1], q, node), lambda q: do_match(I, mode, pat, s.args[2], q, node))
    I.event("rematch", node, st, mode=mode, pattern=p, flags=fl, subject=s)
    if isinstance(s, str) and isinstance(p, str) and isinstance(fl, int):
        r = pyre.compile(p, fl)
        m = {"match": r.match, "search": r.search, "fullmatch": r.fullmatch}[mode](s)
        if m is None:
            return None
        return mk("cmatch", (m.group(0),) + tuple(m.groups()), ty="match")
    if isinstance(p, str) and isinstance(fl, int):
        from . import rx
        from .m_str import split_known, free_of
        g = rx.split_groups(p, fl) if mode == "fullmatch" and isinstance(s, T) and s.op == "scat" else None
        if g is not None:
            src, ch = g
            parts = list(s.args)
            if all(isinstance(q, str) or free_of(q, ch) for q in parts):
                pieces = split_known(parts, ch)
                if len(pieces) != len(src):
                    return None
                c = and_(*[inlang(x, fl, q) for x, q in zip(src, pieces)])
                return ite(c, mk("cmatch", (s,) + tuple(pieces), ty="match"), None)
        if isinstance(s, T) and s.op in ("sym", "scat", "ssub"):
            v = rx.constant(mk("rematch", mode, p, fl, s, ty="bool"))
            if v is False:
                return None
            if v is True:
                return mk("match", mode, p, fl, s, ty="match")
    m = mk("match", mode, p, fl, s, ty="match")
    return ite(mk("rematch", mode, p, fl, s, ty="bool"), m, None)


def inlang(p, fl, s):
    """text s is in the language of p"""
    from . import rx
    if isinstance(s, str):
        return pyre.fullmatch(p, s, fl) is not None
    t = mk("rematch", "fullmatch", p, fl, s, ty="bool")
    v = rx.constant(t)
    return t if v is None else v


for _m in ("match", "search", "fullmatch"):
    def _f(mode):
        def g(I, a, kw, st, node):
            fl = a[2] if len(a) > 2 else kw.get("flags", 0)
            p = a[0] if isinstance(a[0], T) and a[0].ty == "repat" else mkpat(a[0], fl)
            return do_match(I, mode, p, a[1], st, node)

        def h(I, o, a, kw, st, node):
            return do_match(I, mode, o, a[0], st, node)
        return g, h
    EXT["re." + _m], METH[("repat", _m)] = _f(_m)

ATTR[("repat", "pattern")] = lambda I, o, st, node: o.args[0] if o.op == "repat" else NotImplemented


def group(m, i):
    if m.op == "ite":
        return ite(m.args[0], group(m.args[1], i), group(m.args[2], i))
    if m.op == "cmatch":
        g = m.args[0]
        return g[i]
    mode, p, fl, s = m.args
    if mode == "fullmatch" and isinstance(i, int) and i == 0:
        return s
    return mk("regroup", mode, p, fl, s, i, ty="str")


def ngroups(m):
    if m.op == "cmatch":
        return len(m.args[0]) - 1
    p = m.args[1]
    return pyre.compile(p).groups if isinstance(p, str) else None


@meth("match", "group")
def _group(I, m, a, kw, st, node):
    idx = list(a) or [0]
    if len(idx) == 1:
        return group(m, idx[0])
    return tuple(group(m, i) for i in idx)


@meth("match", "groups")
def _groups(I, m, a, kw, st, node):
    if m.op == "ite":
        return NotImplemented
    n = ngroups(m)
    if n is None:
        return NotImplemented
    return tuple(group(m, i + 1) for i in range(n))


GETITEM["match"] = lambda I, m, i, st, node: group(m, i)
for _m in ("start", "end", "span", "groupdict"):
    METH[("match", _m)] = lambda I, m, a, kw, st, node: NotImplemented


@ext("re.sub", "re.split", "re.findall", "re.escape", "fnmatch.fnmatch")
def _reuf(I, a, kw, st, node):
    import ast
    nm = node.func.attr if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else "re"
    if all(isinstance(x, (str, int)) for x in a) and nm in ("sub", "escape"):
        return getattr_(pyre, nm)(*a)
    return mk("re" + nm, *[M.freeze(x, st) for x in a], ty="str" if nm in ("sub", "escape") else "any")


import builtins as _b
getattr_ = _b.getattr


# ------------------------------------------------------------------ json
def thaw(I, v, st, node):
    """fresh heap value from an immutable snapshot"""
    if isinstance(v, T):
        if v.op == "dictv" and isinstance(v.args[0], tuple):
            ents = []
            for k, x, c in v.args[0]:
                ents.append((k if isinstance(k, (str, T)) else js_key(k), thaw(I, x, st, node), c))
            return I.new_dict(ents, st, node)
        if v.op == "seqv":
            return I.new_list([thaw(I, x, st, node) for x in v.args[0]], st, node)
        if v.op == "ite":
            return ite(v.args[0], thaw(I, v.args[1], st, node), thaw(I, v.args[2], st, node))
        if v.ty == "dictv":
            o = I.new_dict([], st, node)
            st.heap[o]["ents"] = v
            return o
        if v.ty == "seq":
            o = I.new_list([], st, node)
            st.heap[o]["items"] = v
            return o
    if isinstance(v, tuple):
        return I.new_list([thaw(I, x, st, node) for x in v], st, node)
    return v


def js_key(k):
    if k is True:
        return "true"
    if k is False:
        return "false"
    if k is None:
        return "null"
    return str(k) if isinstance(k, (int, float)) else k


def from_py(I, v, st, node):
    if isinstance(v, dict):
        return I.new_dict([(k, from_py(I, x, st, node), True) for k, x in v.items()], st, node)
    if isinstance(v, list):
        return I.new_list([from_py(I, x, st, node) for x in v], st, node)
    return v


def loads(I, s, st, node):
    from .m_bytes import content
    if isinstance(s, T) and s.op == "ite":
        return I.branch(s.args[0], st, lambda q: loads(I, s.args[1], q, node), lambda q: loads(I, s.args[2], q, node))
    c = content(I, s, st)
    if c is not None and kind(s, st) != "str":
        s = c
        if isinstance(s, T) and s.op == "utf8":
            s = s.args[0]
    if isinstance(s, (str, bytes)):
        try:
            return from_py(I, pyjson.loads(s), st, node)
        except ValueError:
            I.do_raise(st, I.new_exc("json.JSONDecodeError", (), st), node)
    if isinstance(s, T) and s.op == "jdumps":
        return thaw(I, s.args[0], st, node)
    if s is None or kind(s, st) in ("dict", "list", "int", "none"):
        I.event("typeerror", node, st, what="json.loads")
        I.do_raise(st, I.new_exc("TypeError", (), st), node)
    bad = not_(mk("jsonok", M.freeze(s, st), ty="bool"))
    I.may_raise(st, "json.JSONDecodeError", node, bad)
    v = mk("jloads", M.freeze(s, st), ty="any")
    if sym_is_jsonobj(s):
        o = I.new_dict([], st, node)
        st.heap[o]["ents"] = mk("jobj", M.freeze(s, st), ty="dictv")
        return o
    return v


def sym_is_jsonobj(s):
    from .m_str import extra
    return isinstance(s, T) and s.op == "sym" and extra(s, "jobj")


def dumps(I, v, kw, st, node):
    if isinstance(v, T) and v.op == "ite":
        return I.branch(v.args[0], st, lambda q: dumps(I, v.args[1], kw, q, node), lambda q: dumps(I, v.args[2], kw, q, node))
    if isinstance(v, Obj) and not isinstance(v.cls, str) or kind(v, st) in ("bytes", "bytearray", "dt", "td", "ndarray"):
        I.event("typeerror", node, st, what="json.dumps")
        I.do_raise(st, I.new_exc("TypeError", ("not JSON serializable",), st), node)
    f = M.freeze(v, st)
    py = to_py(f)
    plain = {k: x for k, x in kw.items() if k in ("indent", "sort_keys", "separators", "ensure_ascii")}
    if py is not MISSING and all(isconst(x) or isinstance(x, tuple) for x in plain.values()):
        return pyjson.dumps(py, **plain)
    opts = tuple(sorted((k, M.freeze(x, st)) for k, x in kw.items()))
    return mk("jdumps", f, opts, ty="str")


def to_py(f):
    if isinstance(f, T):
        if f.op == "dictv" and isinstance(f.args[0], tuple):
            out = {}
            for k, x, c in f.args[0]:
                x = to_py(x)
                if c is not True or x is MISSING or isinstance(k, T):
                    return MISSING
                out[k] = x
            return out
        if f.op == "seqv":
            l = [to_py(x) for x in f.args[0]]
            return MISSING if any(x is MISSING for x in l) else l
        return MISSING
    if isinstance(f, tuple):
        l = [to_py(x) for x in f]
        return MISSING if any(x is MISSING for x in l) else l
    if isinstance(f, Fraction):
        return float(f)
    return f


@ext("json.loads")
def _loads(I, a, kw, st, node):
    return loads(I, a[0], st, node)


@ext("json.dumps")
def _dumps(I, a, kw, st, node):
    return dumps(I, a[0], kw, st, node)


@ext("json.load")
def _load(I, a, kw, st, node):
    f = a[0]
    if isinstance(f, Obj) and kind(f, st) == "file":
        return loads(I, read(I, f, None, st, node), st, node)
    return NotImplemented


@ext("json.dump")
def _dump(I, a, kw, st, node):
    s = dumps(I, a[0], kw, st, node)
    write(I, a[1], s, st, node)


@ext("copy.deepcopy")
def _deepcopy(I, a, kw, st, node):
    return deepcopy(I, a[0], st, node, {})


def deepcopy(I, v, st, node, memo):
    if isinstance(v, T) and v.op == "ite":
        return ite(v.args[0], deepcopy(I, v.args[1], st, node, memo), deepcopy(I, v.args[2], st, node, memo))
    if isinstance(v, tuple):
        return tuple(deepcopy(I, x, st, node, memo) for x in v)
    if isinstance(v, Obj):
        if v in memo:
            return memo[v]
        o = Obj(v.cls, site=node)
        memo[v] = o
        cell = st.heap.get(v, {})
        new = {}
        for k, x in cell.items():
            if k == "ents" and isinstance(x, tuple):
                new[k] = tuple((kk, deepcopy(I, y, st, node, memo), c) for kk, y, c in x)
            elif k == "items" and isinstance(x, tuple):
                new[k] = tuple(deepcopy(I, y, st, node, memo) for y in x)
            else:
                new[k] = deepcopy(I, x, st, node, memo)
        st.heap[o] = new
        return o
    return v


@ext("copy.copy")
def _copy(I, a, kw, st, node):
    v = a[0]
    if isinstance(v, Obj):
        o = Obj(v.cls, site=node)
        st.heap[o] = dict(st.heap[v])
        return o
    return v


# ------------------------------------------------------------------ files
def new_file(st, node=None, name=None, mode="rb", stream=None, text=False):
    o = Obj("file", site=node)
    st.heap[o] = {"name": name, "mode": mode, "pos": 0, "stream": stream, "out": b"", "closed": False, "nw": 0}
    return o


FS = Obj("fs")


def fs_names(st):
    return st.heap.get(FS)


def fs_create(st, name, data):
    """a file of the modelled file system"""
    if FS not in st.heap:
        st.heap[FS] = {}
    i = Obj("inode")
    st.heap[i] = {"data": data}
    st.heap[FS][name] = i
    return i


def fs_data(st, name):
    i = st.heap.get(FS, {}).get(name)
    return st.heap[i]["data"] if i is not None and i is not MISSING else None


def fs_open(I, name, f, mode, st, node):
    fs = st.heap[FS]
    i = fs.get(f)
    if i is MISSING:
        i = None
    if not isinstance(mode, str):
        raise Unsupported("open mode")
    if "x" in mode and i is not None:
        I.do_raise(st, I.new_exc("FileExistsError", (name,), st), node)
    if i is None:
        if "r" in mode:
            I.do_raise(st, I.new_exc("FileNotFoundError", (name,), st), node)
        i = fs_create(st, f, b"")
    if "w" in mode:
        st.heap[i]["data"] = b"" if "b" in mode else ""
    o = new_file(st, node, name, mode, st.heap[i]["data"] if "r" in mode or "+" in mode else None)
    st.heap[o]["inode"] = i
    if "a" in mode:
        st.heap[o]["out"] = st.heap[i]["data"]
    if "b" not in mode and not isinstance(st.heap[o]["out"], str):
        st.heap[o]["out"] = ""
    I.event("open", node, st, obj=o, name=name, mode=mode)
    return o


def fs_write(I, o, c, st):
    cell = st.heap[o]
    i = cell["inode"]
    if "+" in cell["mode"]:
        d, p = st.heap[i]["data"], cell["pos"]
        n = ct.clen(c, st.facts)
        st.heap[i]["data"] = cell["stream"] = ct.cat(ct.slice_(d, 0, p, st.facts), c, ct.slice_(d, add(p, n), None, st.facts))
        cell["pos"] = add(p, n)
    elif isinstance(cell["out"], str) or isinstance(cell["out"], T) and cell["out"].ty == "str":
        from . import m_str
        cell["out"] = m_str.scat(cell["out"], c)
    else:
        cell["out"] = ct.cat(cell["out"], c)


def fs_flush(st, o):
    cell = st.heap[o]
    i = cell.get("inode")
    if i is not None and "+" not in cell["mode"] and "r" not in cell["mode"] and not cell["closed"]:
        st.heap[i]["data"] = cell["out"]


def open_file(I, name, mode, st, node):
    f = M.freeze(name, st)
    if FS in st.heap:
        return fs_open(I, name, f, mode, st, node)
    o = new_file(st, node, name, mode, None)
    if isinstance(mode, str) and ("r" in mode or "+" in mode):
        st.heap[o]["stream"] = mk("filecontent", f, I.fs_epoch(st) if hasattr_(I, "fs_epoch") else 0, ty="bytes" if "b" in mode else "str")
    I.event("open", node, st, obj=o, name=name, mode=mode)
    I.may_raise(st, "OSError", node)
    return o


hasattr_ = _b.hasattr


@ext("open", "io.open")
def _open(I, a, kw, st, node):
    mode = a[1] if len(a) > 1 else kw.get("mode", "r")
    n = a[0]
    if isinstance(n, Obj) and n.cls == "pkgfile":
        return open_pkg(I, n, st, node)
    return open_file(I, n, mode, st, node)


@ext("io.BytesIO")
def _bytesio(I, a, kw, st, node):
    from .m_bytes import content
    o = new_file(st, node, None, "w+b", content(I, a[0], st) if a else b"")
    st.heap[o]["mem"] = True
    return o


@ext("io.StringIO")
def _stringio(I, a, kw, st, node):
    o = new_file(st, node, None, "w+", a[0] if a else "")
    st.heap[o]["mem"] = True
    return o


def read(I, f, n, st, node):
    cell = st.heap[f]
    s, pos = cell.get("stream"), cell["pos"]
    if s is None:
        return M.opaque(I, "read", [f], st, node)
    if isinstance(s, str) or isinstance(s, T) and s.ty == "str":
        cell["pos"] = mk("endpos", s, ty="int")
        I.event("read", node, st, obj=f, n=n, pos=pos)
        return s if n is None else mk("tread", s, pos, M.freeze(n, st), ty="str")
    if n is not None and isinstance(n, T) and n.op == "ite":
        return I.branch(n.args[0], st, lambda q: read(I, f, n.args[1], q, node), lambda q: read(I, f, n.args[2], q, node))
    if n is not None and not numeric(n):
        if kind(n, st) != "any":
            I.event("typeerror", node, st, what="read size")
            I.do_raise(st, I.new_exc("TypeError", (), st), node)
    if isinstance(n, int) and n < 0:
        n = None
    neg_ = cmp_("<", n, 0) if n is not None else False
    neg_ = st.facts.val(neg_) if isinstance(neg_, T) else neg_
    I.event("read", node, st, obj=f, n=n, pos=pos, neg=neg_)
    if isinstance(s, T) and s.op not in ("cat", "zeros", "sub", "read") and not isinstance(ct.clen(s), int):
        r = mk("read", s, pos, n, ty="bytes")
    elif n is None:
        r = ct.slice_(s, pos, None, st.facts)
    else:
        r = ct.slice_(s, pos, add(pos, n), st.facts)
    for a in ct.axioms(r):
        st.axiom(a)
    cell["pos"] = add(pos, ct.clen(r, st.facts))
    return r


@meth("file", "read")
def _fread(I, o, a, kw, st, node):
    n = a[0] if a else None
    return read(I, o, n, st, node)


@meth("file", "seek")
def _fseek(I, o, a, kw, st, node):
    wh = a[1] if len(a) > 1 else kw.get("whence", 0)
    cell = st.heap[o]
    I.event("seek", node, st, obj=o, off=a[0], whence=wh, pos=cell["pos"])
    if isinstance(wh, int) and wh == 0:
        cell["pos"] = a[0]
    elif isinstance(wh, int) and wh == 1:
        cell["pos"] = add(cell["pos"], a[0])
    else:
        cell["pos"] = add(mk("blen", cell["stream"], ty="int") if isinstance(cell["stream"], T) else len(cell["stream"] or b""), a[0])
    return cell["pos"]


EXTATTR.update({"io.SEEK_SET": 0, "io.SEEK_CUR": 1, "io.SEEK_END": 2, "os.SEEK_SET": 0, "os.SEEK_CUR": 1, "os.SEEK_END": 2})


@meth("file", "tell")
def _ftell(I, o, a, kw, st, node):
    return st.heap[o]["pos"]


def write(I, o, v, st, node):
    from .m_bytes import content
    c = content(I, v, st)
    if c is None:
        c = M.freeze(v, st)
    if not (isinstance(o, Obj) and kind(o, st) == "file"):
        I.event("write", node, st, obj=o, value=v, content=c)
        return None
    cell = st.heap[o]
    if cell.get("inode") is not None:
        if cell["closed"]:
            I.do_raise(st, I.new_exc("ValueError", ("write to closed file",), st), node)
        fs_write(I, o, c, st)
        I.event("write", node, st, obj=o, value=v, content=c)
        return ct.clen(c, st.facts) if "b" in cell["mode"] else fresh("w", "int", 0)
    I.event("write", node, st, obj=o, value=v, content=c)
    if isinstance(c, (bytes, T)) and kind(v, st) in ("bytes", "bytearray"):
        if isinstance(cell["out"], (bytes, T)):
            cell["out"] = ct.cat(cell["out"], c)
    cell["nw"] = add(cell["nw"], 1) if numeric(cell.get("nw")) else cell.get("nw")
    return mk("written", fresh("w", "int", 0), ty="int")


@meth("file", "write")
def _fwrite(I, o, a, kw, st, node):
    write(I, o, a[0], st, node)
    return None


@meth("file", "writelines")
def _fwl(I, o, a, kw, st, node):
    items = I.seq_items(a[0], st)
    if items is None:
        I.event("write", node, st, obj=o, value=a[0], content=M.freeze(a[0], st))
    for x in items or ():
        write(I, o, x, st, node)


@meth("file", "getvalue", "getbuffer")
def _fgv(I, o, a, kw, st, node):
    return st.heap[o]["out"]


@meth("file", "close")
def _fclose(I, o, a, kw, st, node):
    fs_flush(st, o)
    st.heap[o]["closed"] = True
    I.event("close", node, st, obj=o, exc=None, implicit=False)


@meth("file", "flush")
def _fflush(I, o, a, kw, st, node):
    fs_flush(st, o)
    I.event("flush", node, st, obj=o)


@meth("file", "fileno", "readline", "readlines", "truncate", "isatty")
def _fno(I, o, a, kw, st, node):
    return mk("opaque", "fileop", M.v_id(o), ty="any")


for _n in ("name", "mode", "closed"):
    ATTR[("file", _n)] = (lambda k: lambda I, o, st, node: st.heap[o].get(k))(_n)


STDOUT = {}


def std(I, st, name):
    o = STDOUT.get(name)
    if o is None:
        o = Obj("file", name=name)
        STDOUT[name] = o
    if o not in st.heap:
        st.heap[o] = {"name": f"<{name}>", "mode": "w", "pos": 0, "stream": None, "out": b"", "closed": False, "nw": 0}
    return o


# ------------------------------------------------------------------ package resources
@ext("importlib.resources.files", "importlib_resources.files")
def _files(I, a, kw, st, node):
    o = Obj("pkgfile")
    p = a[0]
    if not isinstance(p, str):
        return NotImplemented
    st.heap[o] = {"path": pyos.path.join(I.root, *p.split("."))}
    return o


def _pkgdiv(I, op, a, b, st, node, inplace):
    if isinstance(a, Obj) and a.cls == "pkgfile" and op == "Div" and isinstance(b, str):
        o = Obj("pkgfile")
        st.heap[o] = {"path": pyos.path.join(st.heap[a]["path"], b)}
        return o
    return NotImplemented


BINOP.insert(0, _pkgdiv)


@meth("pkgfile", "joinpath")
def _join(I, o, a, kw, st, node):
    return _pkgdiv(I, "Div", o, a[0], st, node, False)


def open_pkg(I, o, st, node):
    with open(st.heap[o]["path"], "rb") as f:
        data = f.read()
    I.srcfiles[st.heap[o]["path"]] = st.heap[o]["path"]
    return new_file(st, node, st.heap[o]["path"], "rb", data)


@meth("pkgfile", "open")
def _pkgopen(I, o, a, kw, st, node):
    return open_pkg(I, o, st, node)


@meth("pkgfile", "read_text")
def _pkgrt(I, o, a, kw, st, node):
    with open(st.heap[o]["path"], "r", encoding="utf-8") as f:
        return f.read()


@meth("pkgfile", "read_bytes")
def _pkgrb(I, o, a, kw, st, node):
    with open(st.heap[o]["path"], "rb") as f:
        return f.read()


@ext("os.path.join")
def _pjoin(I, a, kw, st, node):
    if all(isinstance(x, str) for x in a):
        return pyos.path.join(*a)
    return mk("pathjoin", *[M.freeze(x, st) for x in a], ty="str")


@ext("os.path.dirname", "os.path.abspath", "os.path.basename", "os.path.realpath")
def _pdir(I, a, kw, st, node):
    import ast
    nm = node.func.attr if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else "path"
    if isinstance(a[0], str):
        return getattr_(pyos.path, nm)(a[0])
    return mk("path" + nm, M.freeze(a[0], st), ty="str")


@ext("os.rename", "os.replace", "shutil.move")
def _rename(I, a, kw, st, node):
    fs = st.heap.get(FS)
    if fs is not None:
        s, d = M.freeze(a[0], st), M.freeze(a[1], st)
        if fs.get(s) in (None, MISSING):
            I.do_raise(st, I.new_exc("FileNotFoundError", (a[0],), st), node)
        fs[d] = fs[s]
        if s != d:
            fs[s] = None
        I.event("fs", node, st, what="rename", src=a[0], dst=a[1])
        return
    I.event("fs", node, st, what="rename", src=a[0], dst=a[1])
    I.may_raise(st, "OSError", node)


@ext("os.remove", "os.unlink")
def _remove(I, a, kw, st, node):
    fs = st.heap.get(FS)
    if fs is not None:
        s = M.freeze(a[0], st)
        if fs.get(s) in (None, MISSING):
            I.do_raise(st, I.new_exc("FileNotFoundError", (a[0],), st), node)
        fs[s] = None
        I.event("fs", node, st, what="remove", src=a[0], dst=None)
        return
    I.event("fs", node, st, what="remove", src=a[0], dst=None)
    I.may_raise(st, "OSError", node)


@ext("shutil.copy", "shutil.copyfile", "shutil.copy2")
def _copyfile(I, a, kw, st, node):
    fs = st.heap.get(FS)
    if fs is None:
        return NotImplemented
    s, d = M.freeze(a[0], st), M.freeze(a[1], st)
    if fs.get(s) in (None, MISSING):
        I.do_raise(st, I.new_exc("FileNotFoundError", (a[0],), st), node)
    i = fs.get(d)
    data = st.heap[fs[s]]["data"]
    if i in (None, MISSING):
        i = fs_create(st, d, b"")
    else:
        st.heap[i]["data"] = b""
    # the copy is not atomic: the target is first emptied
    I.event("fs", node, st, what="copying", src=a[0], dst=a[1])
    st.heap[i]["data"] = data
    I.event("fs", node, st, what="copy", src=a[0], dst=a[1])
    return a[1]


@ext("os.path.exists", "os.path.isfile")
def _exists(I, a, kw, st, node):
    fs = st.heap.get(FS)
    if fs is not None:
        return fs.get(M.freeze(a[0], st)) not in (None, MISSING)
    return mk("exists", M.freeze(a[0], st), ty="bool")


# ------------------------------------------------------------------ print / exit
@ext("print")
def _print(I, a, kw, st, node):
    f = kw.get("file", None)
    I.event("print", node, st, args=list(a), file=f, kwargs=dict(kw))
    for x in a:
        if isinstance(x, Obj) and isinstance(x.cls, ClassV):
            I.models.str_(I, x, st, node)
        elif isinstance(x, T) and x.op == "ite" and any(isinstance(y, Obj) for y in x.args[1:]):
            I.models.str_(I, x, st, node)
    return None


@ext("sys.stdout.write")
def _stdoutw(I, a, kw, st, node):
    I.event("write", node, st, obj=Ext("sys.stdout"), value=a[0], content=M.freeze(a[0], st))
    return fresh("w", "int", 0)


@ext("sys.stdout.writelines")
def _stdoutwl(I, a, kw, st, node):
    for x in I.seq_items(a[0], st) or ():
        _stdoutw(I, [x], kw, st, node)


@ext("sys.exit", "exit", "quit")
def _exit(I, a, kw, st, node):
    I.event("exit", node, st, code=a[0] if a else None)
    I.do_raise(st, I.new_exc("SystemExit", tuple(a), st), node)


@ext("warnings.warn", "logging.warning", "logging.info", "logging.debug", "logging.error")
def _warn(I, a, kw, st, node):
    I.event("log", node, st, args=list(a))


@ext("logging.getLogger")
def _getlogger(I, a, kw, st, node):
    return Obj("logger")


for _n in ("info", "debug", "warning", "error", "exception"):
    METH[("logger", _n)] = lambda I, o, a, kw, st, node: None


# ------------------------------------------------------------------ namedtuple
@ext("collections.namedtuple")
def _namedtuple(I, a, kw, st, node):
    f = a[1]
    if isinstance(f, str):
        names = f.replace(",", " ").split()
    else:
        names = list(I.seq_items(f, st) or ())
    c = ClassV(a[0], [], I.frames[-1].module, node)
    c.fields = names
    d = kw.get("defaults")
    c.nt_defaults = list(I.seq_items(d, st) or ()) if d is not None else []
    return c


# ------------------------------------------------------------------ argparse
@ext("argparse.ArgumentParser")
def _ap(I, a, kw, st, node):
    o = Obj("argparser", site=node)
    st.heap[o] = {"actions": ()}
    return o


def _apg(excl):
    def f(I, o, a, kw, st, node):
        g = Obj("argparser", site=node)
        st.heap[g] = {"parent": o, "excl": excl, "required": kw.get("required", False)}
        return g
    return f


METH[("argparser", "add_mutually_exclusive_group")] = _apg(True)
METH[("argparser", "add_argument_group")] = _apg(False)


@meth("argparser", "set_defaults", "print_help", "print_usage")
def _apd(I, o, a, kw, st, node):
    return None


@meth("argparser", "error")
def _ape(I, o, a, kw, st, node):
    I.event("exit", node, st, code=2)
    I.do_raise(st, I.new_exc("SystemExit", (2,), st), node)


@meth("argparser", "add_argument")
def _apa(I, o, a, kw, st, node):
    group = None
    while "parent" in st.heap[o]:
        group = o if group is None else group
        o = st.heap[o]["parent"]
    names = [x for x in a if isinstance(x, str)]
    dest = kw.get("dest")
    if dest is None:
        longs = [x for x in names if x.startswith("--")]
        if longs:
            dest = longs[0][2:].replace("-", "_")
        elif names:
            dest = names[0].lstrip("-").replace("-", "_")
    st.heap[o]["actions"] = st.heap[o]["actions"] + ((dest, tuple(names), dict(kw), node),)
    st.heap[o]["groups"] = st.heap[o].get("groups", ()) + (group,)
    return None


def arg_value(I, dest, names, kw, st, node):
    action = kw.get("action")
    default = kw.get("default")
    positional = not names or not names[0].startswith("-")
    if action == "store_true":
        return sym(f"arg_{dest}", "bool")
    if action == "store_false":
        return not_(sym(f"arg_no_{dest}", "bool"))
    if action == "store_const":
        return ite(sym(f"arg_{dest}_given", "bool"), kw.get("const"), default)
    if action in ("version", "help"):
        return MISSING
    if action == "count":
        return sym(f"arg_{dest}", "int", 0)
    ty = kw.get("type")
    nargs = kw.get("nargs")

    def one(i=""):
        nm = f"arg_{dest}{i}"
        if isinstance(ty, Ext) and ty.name == "int":
            return sym(nm, "int")
        if isinstance(ty, Ext) and ty.name == "float":
            return sym(nm, "real")
        if isinstance(ty, Obj) and ty.cls == "filetype":
            return open_file(I, sym(nm, "str"), st.heap[ty]["mode"], st, node)
        if isinstance(ty, FuncV):
            return I.call(ty, [sym(nm, "str")], {}, st, node)
        return sym(nm, "str")
    if nargs in ("*", "+"):
        v = I.new_list([], st, node)
        st.heap[v]["items"] = sym(f"arg_{dest}", "seq", ety="str")
        if not positional:
            return ite(sym(f"arg_{dest}_given", "bool"), v, default)
        if nargs == "+":
            st.axiom(cmp_(">=", M.alen(st.heap[v]["items"]), 1))
        return v
    if isinstance(nargs, int):
        v = I.new_list([one(i) for i in range(nargs)], st, node)
    elif nargs == "?":
        v = ite(sym(f"arg_{dest}_given", "bool"), one(), default)
        return v
    else:
        v = one()
    if positional or kw.get("required") is True:
        return v
    return ite(sym(f"arg_{dest}_given", "bool"), v, default)


def parse_argv(I, o, argv, st, node):
    """parse a given command line with the declarations recorded for the parser"""
    import argparse
    import contextlib
    import io
    ap = argparse.ArgumentParser(prog="tool", exit_on_error=True)
    groups, post = {}, {}
    cell = st.heap[o]
    for (dest, names, kw, n), g in zip(cell["actions"], cell.get("groups", (None,) * len(cell["actions"]))):
        k, late = {}, None
        for a, v in kw.items():
            if a == "help":
                continue
            if a == "version":
                v = "version"
            if a == "type":
                late = v
                if isinstance(v, Ext) and v.name in ("int", "float", "str"):
                    v, late = {"int": int, "float": float, "str": str}[v.name], None
                else:
                    continue
            if isinstance(v, Obj) and kind(v, st) == "list":
                v = I.seq_items(v, st)
            if isinstance(v, T) or isinstance(v, Obj) and a != "default":
                raise Unsupported(f"argument declaration {dest} {a}")
            k[a] = v
        at = ap
        if g is not None and st.heap[g]["excl"]:
            at = groups.get(g) or groups.setdefault(g, ap.add_mutually_exclusive_group(required=st.heap[g]["required"] is True))
        act = at.add_argument(*names, **k)
        post[act.dest] = (late, k.get("default"), n)
    buf = io.StringIO()
    try:
        with contextlib.redirect_stderr(buf), contextlib.redirect_stdout(buf):
            r = ap.parse_args(list(argv))
    except SystemExit as e:
        I.event("exit", node, st, code=e.code, text=buf.getvalue())
        I.do_raise(st, I.new_exc("SystemExit", (e.code,), st), node)
    ns = Obj("namespace", site=node)
    out = {}
    for dest, v in vars(r).items():
        late, default, n = post.get(dest, (None, None, node))

        def conv(x):
            if late is None or x is default:
                return x
            if isinstance(late, Obj) and late.cls == "filetype":
                try:
                    return open_file(I, x, st.heap[late]["mode"], st, n)
                except Dead:
                    raise
            return I.call(late, [x], {}, st, n)
        out[dest] = I.new_list([conv(x) for x in v], st, n) if isinstance(v, list) else conv(v)
    st.heap[ns] = out
    return ns


@meth("argparser", "parse_args", "parse_known_args")
def _parse(I, o, a, kw, st, node):
    ns = Obj("namespace", site=node)
    cell = {}
    if I.argv is not None:
        return parse_argv(I, o, I.argv, st, node)
    I.event("exit", node, st, code="argparse")
    for dest, names, k, n in st.heap[o]["actions"]:
        v = arg_value(I, dest, names, k, st, n)
        if v is not MISSING:
            cell[dest] = v
    st.heap[ns] = cell
    return ns


@ext("argparse.FileType")
def _filetype(I, a, kw, st, node):
    o = Obj("filetype", site=node)
    st.heap[o] = {"mode": a[0] if a else kw.get("mode", "r")}
    return o


# ------------------------------------------------------------------ paths
@ext("pathlib.Path")
def _path(I, a, kw, st, node):
    return mk("path", *[M.freeze(x, st) for x in a], ty="path")


# ------------------------------------------------------------------ sequence operators
def b_seq(I, op, a, b, st, node, inplace):
    ka, kb = kind(a, st), kind(b, st)
    if op == "Add" and ka == "list" and inplace:
        M.METH[("list", "extend")](I, a, [b], {}, st, node)
        return a
    if op == "Add" and ka == kb and ka in ("list", "tuple"):
        x = I.seq_items(a, st)
        y = I.seq_items(b, st)
        if ka == "tuple":
            return tuple(x) + tuple(y)
        r = I.new_list([], st, node)
        st.heap[r]["items"] = M.seq_extend(st.heap[a]["items"], st.heap[b]["items"])
        return r
    if op == "Mult" and (ka in ("list", "tuple") and numeric(b) or kb in ("list", "tuple") and numeric(a)):
        s, n, k = (a, b, ka) if ka in ("list", "tuple") else (b, a, kb)
        x = I.seq_items(s, st)
        n = simp(n, st.facts) if isinstance(n, T) else n
        if x is not None and isinstance(n, int):
            return tuple(x) * n if k == "tuple" else I.new_list(list(x) * n, st, node)
        return M.opaque(I, "seqmul", [a, b], st, node)
    if op == "BitOr" and ka == kb == "dict":
        r = I.new_dict([], st, node) if not inplace else a
        if not inplace:
            st.heap[r]["ents"] = st.heap[a]["ents"]
        M.METH[("dict", "update")](I, r, [b], {}, st, node)
        return r
    return NotImplemented


BINOP.append(b_seq)


# ------------------------------------------------------------------ generators
_next0 = EXT.get("next")
_iter0 = EXT.get("iter")


@ext("next")
def _next(I, a, kw, st, node):
    if isinstance(a[0], GenV) and I.inline_gens:
        return I.gen_next(a[0], st, node, a[1] if len(a) > 1 else MISSING)
    return _next0(I, a, kw, st, node) if _next0 else NotImplemented


@ext("iter")
def _iter(I, a, kw, st, node):
    if isinstance(a[0], GenV) and len(a) == 1:
        return a[0]
    return _iter0(I, a, kw, st, node) if _iter0 else NotImplemented


def _genlist(name):
    old = EXT.get(name)

    def g(I, a, kw, st, node):
        if a and isinstance(a[0], GenV) and I.inline_gens:
            a = [I.gen_list(a[0], st, node)] + list(a[1:])
            if name == "list":
                return a[0]
        return old(I, a, kw, st, node) if old else NotImplemented
    EXT[name] = g


for _k in ("list", "tuple", "sorted", "enumerate", "set", "len", "sum", "any", "all", "reversed"):
    _genlist(_k)
