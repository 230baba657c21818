"""byte strings, bytearray, struct, CRC models"""
import struct
from .terms import *
from . import terms as tm
from . import content as ct
from . import models as M
from .models import ext, meth, EXT, METH, BINOP, GETITEM, SETITEM, ATTR, kind, numeric
from .interp import Obj, Ext, RangeV, BMeth, Star, ClassV


def content(I, v, st):
    """byte content of a bytes-like value or None"""
    k = kind(v, st)
    if k == "bytearray":
        return st.heap[v]["c"]
    if k == "bytes":
        return v
    if k == "memoryview":
        return content(I, st.heap[v]["o"], st)
    return None


def new_ba(c, st, node):
    o = Obj("bytearray", site=node)
    st.heap[o] = {"c": c}
    return o


def from_ints(items, facts=None):
    parts = []
    for x in items:
        parts.append(ct.fld("B", "<", x))
    return ct.cat(*parts)


def coerce(I, a, kw, st, node):
    """content for bytes(x)/bytearray(x)"""
    if not a:
        return b""
    x = a[0]
    c = content(I, x, st)
    if c is not None:
        return c
    k = kind(x, st)
    if k == "str":
        from .m_str import encode, norm_enc
        enc = a[1] if len(a) > 1 else kw.get("encoding", "utf-8")
        return encode(x, norm_enc(enc))
    if k in ("int", "bool"):
        return ct.zeros(x)
    items = I.seq_items(x, st)
    if items is not None and all(numeric(y) for y in items):
        return from_ints(items)
    if isinstance(x, T) and x.op == "ite":
        return ite(x.args[0], coerce(I, [x.args[1]] + a[1:], kw, st, node), coerce(I, [x.args[2]] + a[1:], kw, st, node))
    if k == "ndarray":
        return tobytes(I, x, st, node)
    return mk("bytesof", M.freeze(x, st), ty="bytes")


def tobytes(I, x, st, node):
    from .m_np import tobytes as f
    return f(I, x, st)


def fresh_content(st, c):
    for a in ct.axioms(c):
        st.axiom(a)
    return c


@ext("bytes")
def _bytes(I, a, kw, st, node):
    return coerce(I, a, kw, st, node)


@ext("bytearray")
def _bytearray(I, a, kw, st, node):
    return new_ba(coerce(I, a, kw, st, node), st, node)


@ext("memoryview")
def _mv(I, a, kw, st, node):
    o = Obj("memoryview", site=node)
    st.heap[o] = {"o": a[0]}
    return o


@meth(("bytearray", "memoryview"), "tobytes")
def _mvtb(I, o, a, kw, st, node):
    return content(I, o, st)


@meth("bytearray", "extend")
def _ba_extend(I, o, a, kw, st, node):
    st.heap[o]["c"] = ct.cat(st.heap[o]["c"], coerce(I, a, kw, st, node))


@meth("bytearray", "append")
def _ba_append(I, o, a, kw, st, node):
    st.heap[o]["c"] = ct.cat(st.heap[o]["c"], ct.fld("B", "<", a[0]))


@meth("bytearray", "copy")
def _ba_copy(I, o, a, kw, st, node):
    return new_ba(st.heap[o]["c"], st, node)


@meth("bytearray", "clear")
def _ba_clear(I, o, a, kw, st, node):
    st.heap[o]["c"] = b""


@meth("bytearray", "pop", "insert", "reverse", "remove")
def _ba_mut(I, o, a, kw, st, node):
    st.heap[o]["c"] = mk("opaque", "bamut", st.heap[o]["c"], ty="bytes")


def b_bytes(I, op, a, b, st, node, inplace):
    ka, kb = kind(a, st), kind(b, st)
    bl = ("bytes", "bytearray")
    if op == "Add" and ka in bl and kb in bl:
        r = ct.cat(content(I, a, st), content(I, b, st))
        if ka == "bytearray":
            if inplace:
                st.heap[a]["c"] = r
                return a
            return new_ba(r, st, node)
        return r
    if op == "Mult" and (ka in bl and numeric(b) or kb in bl and numeric(a)):
        c, n = (content(I, a, st), b) if ka in bl else (content(I, b, st), a)
        if isinstance(c, bytes) and isinstance(n, int):
            r = c * n
        elif isinstance(c, bytes) and not any(c):
            if c and st.facts.val(cmp_("<", n, 0)) is not False:
                n = ite(cmp_(">", n, 0), n, 0)
            r = ct.zeros(mul(n, len(c)))
        else:
            r = mk("brep", c, n, ty="bytes")
        return new_ba(r, st, node) if "bytearray" in (ka, kb) else r
    if op == "Mod" and ka == "bytes":
        return mk("opaque", "bytes%", a, M.freeze(b, st), ty="bytes")
    return NotImplemented


BINOP.insert(0, b_bytes)


def bget(I, o, i, st, node):
    c = content(I, o, st)
    if isinstance(c, T) and c.op == "ite":
        r = I.branch(c.args[0], st, lambda s: bget(I, c.args[1], i, s, node), lambda s: bget(I, c.args[2], i, s, node))
    elif isinstance(i, slice):
        if i.step not in (None, 1):
            r = mk("opaque", "bstep", c, M.freeze(i.start, st), M.freeze(i.stop, st), i.step, ty="bytes")
        else:
            a, b = i.start, i.stop
            a = simp(a, st.facts) if isinstance(a, T) else a
            b = simp(b, st.facts) if isinstance(b, T) else b
            for x in (a, b):
                if x is not None and not numeric(x):
                    I.do_raise(st, I.new_exc("TypeError", ("slice index",), st), node)
                if is_real(x) if x is not None else False:
                    I.event("typeerror", node, st, what="slice index")
                    I.do_raise(st, I.new_exc("TypeError", ("slice index",), st), node)
            r = ct.slice_(c, a, b, st.facts)
            fresh_content(st, r)
    else:
        if not numeric(i):
            return mk("item", c, M.freeze(i, st), ty="any")
        n = ct.clen(c, st.facts)
        if isinstance(i, T):
            i = simp(i, st.facts)
        neg_ = cmp_("<", i, 0)
        neg_ = st.facts.val(neg_) if isinstance(neg_, T) else neg_
        if neg_ is True:
            i = add(n, i)
        ok = cmp_("<", i, n)
        if isinstance(ok, T):
            ok = st.facts.val(ok)
        if ok is False:
            I.event("indexerror", node, st, obj=o, index=i)
            I.do_raise(st, I.new_exc("IndexError", (), st), node)
        if ok is not True:
            I.event("indexerror", node, st, obj=o, index=i)
            I.may_raise(st, "IndexError", node, not_(ok))
        return ct.unp("B", "<", ct.slice_(c, i, add(i, 1), st.facts))
    if kind(o, st) == "bytearray":
        return new_ba(content(I, r, st) if isinstance(r, Obj) else r, st, node)
    return r


GETITEM["bytes"] = bget
GETITEM["bytearray"] = bget
GETITEM["memoryview"] = bget


def bset(I, o, i, v, st, node):
    c = st.heap[o]["c"]
    if isinstance(i, slice):
        new = coerce(I, [v], {}, st, node)
        a = i.start if i.start is not None else 0
        b = i.stop if i.stop is not None else ct.clen(c, st.facts)
        a = simp(a, st.facts) if isinstance(a, T) else a
        b = simp(b, st.facts) if isinstance(b, T) else b
        if isinstance(a, int) and a < 0:
            a = add(ct.clen(c, st.facts), a)
        if isinstance(b, int) and b < 0:
            b = add(ct.clen(c, st.facts), b)
        st.heap[o]["c"] = ct.overwrite(c, a, b, new, st.facts)
    else:
        if isinstance(i, int) and i < 0:
            i = add(ct.clen(c, st.facts), i)
        st.heap[o]["c"] = ct.overwrite(c, i, add(i, 1), ct.fld("B", "<", v), st.facts)


SETITEM["bytearray"] = bset


@meth(("bytes", "bytearray"), "decode")
def _decode(I, o, a, kw, st, node):
    from .m_str import decode, norm_enc
    c = content(I, o, st)
    enc = norm_enc(a[0] if a else kw.get("encoding", "utf-8"))
    err = a[1] if len(a) > 1 else kw.get("errors", "strict")
    if err != "strict":
        return mk("opaque", "decode", c, enc, err, ty="str")
    if not isinstance(c, bytes) and not (isinstance(c, T) and c.op in ("utf8", "enc")):
        I.may_raise(st, "UnicodeDecodeError", node)
    if isinstance(c, bytes) and enc in ("utf-8", "ascii"):
        try:
            c.decode(enc)
        except UnicodeDecodeError:
            I.do_raise(st, I.new_exc("UnicodeDecodeError", (), st), node)
    return decode(c, enc)


@meth(("bytes", "bytearray"), "startswith", "endswith")
def _bsw(I, o, a, kw, st, node):
    return NotImplemented


def _bsw2(name):
    def f(I, o, a, kw, st, node):
        c = content(I, o, st)
        p = a[0]
        ps = p if isinstance(p, tuple) else (p,)
        out = []
        for q in ps:
            q = content(I, q, st)
            if not isinstance(q, bytes):
                return mk("opaque", name, c, q, ty="bool")
            n = ct.clen(c, st.facts)
            lo = 0 if name == "startswith" else sub(n, len(q))
            s = ct.slice_(c, lo, add(lo, len(q)), st.facts)
            fresh_content(st, s)
            out.append(M.eq_bytes(s, q, st))
        return or_(*out)
    return f


METH[("bytes", "startswith")] = METH[("bytearray", "startswith")] = _bsw2("startswith")
METH[("bytes", "endswith")] = METH[("bytearray", "endswith")] = _bsw2("endswith")


@meth(("bytes", "bytearray"), "ljust")
def _bljust(I, o, a, kw, st, node):
    c = content(I, o, st)
    fill = a[1] if len(a) > 1 else b" "
    n = ct.clen(c, st.facts)
    padn = sub(a[0], n)
    padn = ite(cmp_(">", padn, 0), padn, 0)
    padn = simp(padn, st.facts) if isinstance(padn, T) else padn
    if isinstance(padn, int):
        return ct.cat(c, fill * padn)
    if fill == b"\0":
        return ct.cat(c, ct.zeros(padn))
    return ct.cat(c, mk("brep", fill, padn, ty="bytes"))


@meth(("bytes", "bytearray"), "rstrip", "strip", "lstrip")
def _bstrip(I, o, a, kw, st, node):
    c = content(I, o, st)
    if isinstance(c, bytes):
        return c.strip(*a)
    return mk("opaque", "bstrip", c, *a, ty="bytes")


@meth(("bytes", "bytearray"), "hex")
def _bhex(I, o, a, kw, st, node):
    return mk("opaque", "bhex", content(I, o, st), ty="str")


@meth(("bytes", "bytearray"), "find", "index")
def _bfind(I, o, a, kw, st, node):
    return mk("opaque", "bfind", content(I, o, st), M.freeze(a[0], st), ty="int")


# ------------------------------------------------------------------ struct
def star_fmt(fmt):
    """'<' + len + 'i' style symbolic formats -> (endian, code, n) or None"""
    from .m_str import scat
    if isinstance(fmt, T) and fmt.op == "scat" and len(fmt.args) == 3:
        e, n, c = fmt.args
        if isinstance(e, str) and e in ("<", ">", "=", "!", "@") and isinstance(c, str) and c in ct.SIZE:
            if isinstance(n, T) and n.op in ("str", "fmt", "istr", "strof"):
                if e == "@":
                    c = {"l": "q", "L": "Q"}.get(c, c)
                return e, {"l": "i", "L": "I"}.get(c, c), n.args[0]
    if isinstance(fmt, T) and fmt.op == "scat" and len(fmt.args) == 2:
        n, c = fmt.args
        if isinstance(n, T) and n.op in ("str", "fmt", "istr", "strof") and isinstance(c, str) and len(c) == 1 and c in ct.SIZE:
            return "@", {"l": "q", "L": "Q"}.get(c, c), n.args[0]
    return None


def split_fmt(I, fmt, st, f):
    """distribute over a conditional format"""
    if isinstance(fmt, T) and fmt.op == "ite":
        return I.branch(fmt.args[0], st, lambda s: split_fmt(I, fmt.args[1], s, f), lambda s: split_fmt(I, fmt.args[2], s, f))
    if isinstance(fmt, T) and fmt.op == "scat":
        for i, p in enumerate(fmt.args):
            if isinstance(p, T) and p.op == "ite":
                from .m_str import scat
                a = scat(*fmt.args[:i], p.args[1], *fmt.args[i + 1:])
                b = scat(*fmt.args[:i], p.args[2], *fmt.args[i + 1:])
                return I.branch(p.args[0], st, lambda s: split_fmt(I, a, s, f), lambda s: split_fmt(I, b, s, f))
    return f(fmt, st)


def struct_error(I, st, node, why):
    I.event("structerror", node, st, what=why)
    I.do_raise(st, I.new_exc("struct.error", (why,), st), node)


INTCODES = {c: tm.UNP_RANGE[c] for c in "bBhHiIlLqQ"}


def pack_value(I, code, e, v, st, node):
    if isinstance(v, T) and v.op == "ite" and v.ty not in ("int", "real", "bool"):
        return I.branch(v.args[0], st, lambda s: pack_value(I, code, e, v.args[1], s, node), lambda s: pack_value(I, code, e, v.args[2], s, node))
    if code in INTCODES:
        if v is None or kind(v, st) in ("str", "bytes", "none", "tuple", "list") or is_real(v) and isinstance(v, (float, T)) and numeric(v):
            struct_error(I, st, node, f"required argument is not an integer for '{code}'")
        lo, hi = INTCODES[code]
        bad = or_(cmp_("<", v, lo), cmp_(">", v, hi))
        bad = st.facts.val(bad) if isinstance(bad, T) else bad
        I.event("pack", node, st, code=code, value=v, bad=bad)
        if bad is True:
            struct_error(I, st, node, f"'{code}' format out of range")
        if bad is not False:
            I.may_raise(st, "struct.error", node, bad)
    elif code in "fde":
        if v is None or kind(v, st) in ("str", "bytes"):
            struct_error(I, st, node, "required argument is not a float")
        I.event("pack", node, st, code=code, value=v, bad=False)
        if code == "f" and not (isinstance(v, T) and v.op == "unp" and v.args[0] == "f"):
            v = f32(v)
    return ct.fld(code, e, v)


def f32(v):
    """value rounded to float32 when it cannot be shown exact"""
    if isnum(v):
        return struct.unpack("<f", struct.pack("<f", v))[0] if abs(v) < 3e38 else v
    return v


def native(e):
    return "<" if e in "@=" else e


def do_pack(I, fmt, args, st, node):
    """content of struct.pack(fmt, *args)"""
    sf = star_fmt(fmt)
    if sf is not None:
        e, c, n = sf
        e = native(e)
        if len(args) == 1 and isinstance(args[0], Star):
            v = args[0].v
            data = M.freeze(v, st)
            ln = M.length(I, v, st, node)
            I.event("packarr", node, st, code=c, endian=e, data=data, n=n)
            if not ct.same_num(n, ln):
                if st.facts.val(cmp_("==", n, ln)) is not True:
                    I.may_raise(st, "struct.error", node, not_(cmp_("==", n, ln)))
            return mk("packarr", e, c, n, data, ty="bytes")
        return mk("opaque", "pack", fmt, *[M.freeze(a.v if isinstance(a, Star) else a, st) for a in args], ty="bytes")
    if not isinstance(fmt, str):
        return mk("opaque", "pack", M.freeze(fmt, st), *[M.freeze(a.v if isinstance(a, Star) else a, st) for a in args], ty="bytes")
    flat = []
    for a in args:
        if isinstance(a, Star):
            items = I.seq_items(a.v, st)
            if items is None:
                return mk("opaque", "pack", fmt, *[M.freeze(a.v if isinstance(a, Star) else a, st) for a in args], ty="bytes")
            flat.extend(items)
        else:
            flat.append(a)
    try:
        e, fs = ct.fields_struct(fmt)
    except KeyError:
        struct_error(I, st, node, "bad char in struct format")
    al = e == "@"
    e = native(e)
    need = sum(1 for c, n in fs if c != "x")
    if need != len(flat):
        struct_error(I, st, node, f"pack expected {need} items, got {len(flat)}")
    parts = []
    it = iter(flat)
    off = 0
    for c, n in fs:
        if al and c not in "xsc?bB":
            padn = -off % n
            if padn:
                parts.append(bytes(padn))
                off += padn
        off += n
        if c == "x":
            parts.append(bytes(n))
        elif c == "s":
            v = next(it)
            parts.append(pack_s(I, v, n, st, node))
        else:
            parts.append(pack_value(I, c, e, next(it), st, node))
    return ct.cat(*parts)


def pack_s(I, v, n, st, node):
    if isinstance(v, T) and v.op == "ite":
        return I.branch(v.args[0], st, lambda s: pack_s(I, v.args[1], n, s, node), lambda s: pack_s(I, v.args[2], n, s, node))
    c = content(I, v, st)
    if c is None:
        struct_error(I, st, node, "argument for 's' must be a bytes object")
    I.event("packs", node, st, n=n, value=c)
    if isinstance(c, bytes):
        return c[:n] + bytes(max(0, n - len(c)))
    L = ct.clen(c, st.facts)
    L = simp(L, st.facts) if isinstance(L, T) else L
    if isinstance(L, int):
        if L == n:
            return c
        if L < n:
            return ct.cat(c, bytes(n - L))
        return ct.slice_(c, 0, n, st.facts)
    if isinstance(c, T) and c.op == "sfld" and c.args[0] == n:
        return c
    return mk("sfld", n, c, ty="bytes")


def do_unpack(I, fmt, c, st, node):
    sf = star_fmt(fmt)
    if sf is not None:
        e, code, n = sf
        return mk("unparr", native(e), code, n, c, ty="seq")
    if not isinstance(fmt, str):
        return mk("opaque", "unpack", M.freeze(fmt, st), c, ty="seq")
    e, fs = ct.fields_struct(fmt)
    al = e == "@"
    e = native(e)
    if al:
        size = struct.calcsize(fmt)
    else:
        size = sum(n for _, n in fs)
    L = ct.clen(c, st.facts)
    ok = cmp_("==", L, size)
    ok = st.facts.val(ok) if isinstance(ok, T) else ok
    I.event("unpack", node, st, fmt=fmt, size=size, content=c, ok=ok)
    if ok is False:
        struct_error(I, st, node, f"unpack requires a buffer of {size} bytes")
    if ok is not True:
        I.may_raise(st, "struct.error", node, not_(ok))
    return tuple(unpack_fields(fmt, e, fs, al, c, 0, st))


def unpack_fields(fmt, e, fs, al, c, base, st):
    out = []
    off = 0
    for code, n in fs:
        if al and code not in "xsc?bB":
            off += -off % n
        if code == "x":
            pass
        elif code == "s":
            out.append(ct.slice_(c, add(base, off), add(base, off + n), st.facts))
        else:
            out.append(ct.unp(code, e, ct.slice_(c, add(base, off), add(base, off + n), st.facts)))
        off += n
    return out


def do_unpack_from(I, fmt, c, off, st, node):
    if not isinstance(fmt, str):
        return mk("opaque", "unpack_from", M.freeze(fmt, st), c, off, ty="seq")
    e, fs = ct.fields_struct(fmt)
    size = struct.calcsize(fmt)
    al = e == "@"
    e = native(e)
    L = ct.clen(c, st.facts)
    ok = cmp_(">=", sub(L, off), size)
    ok = st.facts.val(ok) if isinstance(ok, T) else ok
    I.event("unpack", node, st, fmt=fmt, size=size, content=c, ok=ok)
    if ok is False:
        struct_error(I, st, node, "unpack_from requires a larger buffer")
    if ok is not True:
        I.may_raise(st, "struct.error", node, not_(ok))
    return tuple(unpack_fields(fmt, e, fs, al, c, off, st))


def do_pack_into(I, fmt, buf, off, args, st, node):
    c = do_pack(I, fmt, args, st, node)
    if kind(buf, st) != "bytearray":
        I.event("setitem_opaque", node, st, obj=buf, index=off, value=c)
        return None
    cur = st.heap[buf]["c"]
    n = ct.clen(c, st.facts)
    ok = cmp_(">=", sub(ct.clen(cur, st.facts), off), n)
    ok = st.facts.val(ok) if isinstance(ok, T) else ok
    if ok is False:
        struct_error(I, st, node, "pack_into requires a larger buffer")
    if ok is not True:
        I.may_raise(st, "struct.error", node, not_(ok))
    st.heap[buf]["c"] = ct.overwrite(cur, off, add(off, n), c, st.facts)
    return None


@ext("struct.pack")
def _pack(I, a, kw, st, node):
    return split_fmt(I, a[0], st, lambda f, s: do_pack(I, f, a[1:], s, node))


@ext("struct.unpack")
def _unpack(I, a, kw, st, node):
    c = content(I, a[1] if len(a) > 1 else kw.get("buffer"), st)
    if c is None:
        c = mk("bytesof", M.freeze(a[1], st), ty="bytes")
    return split_fmt(I, a[0], st, lambda f, s: do_unpack(I, f, c, s, node))


@ext("struct.unpack_from")
def _unpack_from(I, a, kw, st, node):
    c = content(I, a[1], st)
    off = a[2] if len(a) > 2 else kw.get("offset", 0)
    return split_fmt(I, a[0], st, lambda f, s: do_unpack_from(I, f, c, off, s, node))


@ext("struct.iter_unpack")
def _iter_unpack(I, a, kw, st, node):
    fmt, c = a[0], content(I, a[1], st)
    n = simp(ct.clen(c, st.facts), st.facts) if isinstance(ct.clen(c, st.facts), T) else ct.clen(c, st.facts)
    size = struct.calcsize(fmt)
    if isinstance(n, int) and n % size == 0:
        out = tuple(do_unpack_from(I, fmt, c, k, st, node) for k in range(0, n, size))
        return I.new_list(out, st, node)
    return NotImplemented


@ext("struct.pack_into")
def _pack_into(I, a, kw, st, node):
    return split_fmt(I, a[0], st, lambda f, s: do_pack_into(I, f, a[1], a[2], a[3:], s, node))


@ext("struct.calcsize")
def _calcsize(I, a, kw, st, node):
    def f(fmt, s):
        if isinstance(fmt, str):
            return struct.calcsize(fmt)
        sf = star_fmt(fmt)
        if sf:
            return mul(sf[2], ct.SIZE[sf[1]])
        return mk("opaque", "calcsize", M.freeze(fmt, s), ty="int")
    return split_fmt(I, a[0], st, f)


@ext("struct.Struct")
def _Struct(I, a, kw, st, node):
    o = Obj("Struct", site=node)
    size = struct.calcsize(a[0]) if isinstance(a[0], str) else mk("opaque", "calcsize", M.freeze(a[0], st), ty="int")
    st.heap[o] = {"format": a[0], "size": size}
    return o


def _sm(name):
    def f(I, o, a, kw, st, node):
        return EXT["struct." + name](I, [st.heap[o]["format"]] + a, kw, st, node)
    return f


for _n in ("pack", "unpack", "unpack_from", "pack_into", "iter_unpack"):
    METH[("Struct", _n)] = _sm(_n)


# ------------------------------------------------------------------ CRC
def crc(c):
    if isinstance(c, T) and c.op == "ite":
        return ite(c.args[0], crc(c.args[1]), crc(c.args[2]))
    return mk("crc", c, ty="int")


REBUILD["crc"] = lambda x, c: crc(c)
_ar0 = tm.atom_range


def _ar(a):
    if a.op in ("crc", "zcrc"):
        return iv(0, (1 << 32) - 1)
    if a.op == "blen":
        return iv(0, None)
    return _ar0(a)


tm.atom_range = _ar


@ext("crc32c.crc32c", "crc32c.crc32")
def _crc(I, a, kw, st, node):
    c = content(I, a[0], st)
    if c is None:
        c = mk("bytesof", M.freeze(a[0], st), ty="bytes")
    prev = a[1] if len(a) > 1 else kw.get("value", 0)
    I.event("crc", node, st, content=c)
    if isnum(prev) and prev == 0:
        return crc(c)
    if isinstance(prev, T) and prev.op == "crc":
        return crc(ct.cat(prev.args[0], c))
    return mk("opaque", "crc", c, prev, ty="int")


@ext("zlib.crc32", "binascii.crc32")
def _zcrc(I, a, kw, st, node):
    c = content(I, a[0], st)
    return mk("zcrc", c if c is not None else M.freeze(a[0], st), ty="int")


@meth(("bytes", "bytearray"), "join")
def _bjoin(I, o, a, kw, st, node):
    items = I.seq_items(a[0], st)
    if items is None or any(isinstance(x, T) and x.op in ("seqcat", "star") for x in items):
        return mk("opaque", "bjoin", content(I, o, st), M.freeze(a[0], st), ty="bytes")
    sep = content(I, o, st)
    out = []
    for i, x in enumerate(items):
        if i:
            out.append(sep)
        out.append(content(I, x, st))
    return ct.cat(*out)
