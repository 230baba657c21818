"""Byte content domain: concatenations of struct fields, slices, zero runs, reads."""
import struct
from .terms import *
from . import terms as t_

SIZE = {"b": 1, "B": 1, "?": 1, "c": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4,
        "L": 4, "q": 8, "Q": 8, "f": 4, "d": 8, "e": 2}


def prove(c, facts):
    if isinstance(c, bool):
        return c
    if facts is None:
        return None
    v = facts.val(c)
    if v is True:
        return True
    if v is False:
        return False
    return None


def ge0(x, facts):
    return prove(cmp_(">=", x, 0), facts)


def eq0(x, facts):
    return prove(cmp_("==", x, 0), facts)


def clen(c, facts=None):
    """length of a content as numeric term"""
    if isinstance(c, (bytes, bytearray)):
        return len(c)
    op = c.op
    if op == "sym":
        for k, v in c.args[3]:
            if k == "n":
                return v
    if op == "cat":
        n = 0
        for p in c.args:
            n = add(n, clen(p, facts))
        return n
    if op == "zeros":
        return c.args[0]
    if op == "fld":
        return SIZE[c.args[0]]
    if op == "sfld":
        return c.args[0]
    if op == "utf8" and isinstance(c.args[0], T) and c.args[0].op == "sym":
        ex = dict(c.args[0].args[3])
        if isinstance(ex.get("n"), int) and isinstance(ex.get("alpha"), str) and ex["alpha"].isascii():
            return ex["n"]
    if op == "ite":
        return ite(c.args[0], clen(c.args[1], facts), clen(c.args[2], facts))
    if op == "packarr":
        return mul(c.args[2], SIZE[c.args[1]])
    if op == "sub":
        src, off, n = c.args
        if n is not None:
            L = clen(src, facts)
            if ge0(sub(sub(L, off), n), facts):
                return n
            if facts is not None and isinstance(facts.val(cmp_(">=", mk("blen", c, ty="int"), n)), bool) and facts.val(cmp_(">=", mk("blen", c, ty="int"), n)):
                return n
    if op == "read" and facts is not None:
        n = c.args[2]
        if n is not None and facts.val(cmp_(">=", mk("blen", c, ty="int"), n)) is True:
            return n
    if op == "tobytes":
        a = c.args[0]
        k = mk("alen", a, ty="int")
        return mk("blen", c, ty="int")
    return mk("blen", c, ty="int")


def axioms(c):
    """facts true of a freshly built content"""
    out = []
    if isinstance(c, T) and c.op in ("sub", "read") and c.args[2] is not None:
        b = mk("blen", c, ty="int")
        # only if the request is not negative; otherwise says nothing
        neg_ = cmp_("<", c.args[2], 0)
        out.append(or_(neg_, cmp_("<=", b, c.args[2])))
    return out


def cat(*parts):
    flat = []
    for p in parts:
        if isinstance(p, bytearray):
            p = bytes(p)
        if isinstance(p, T) and p.op == "cat":
            flat.extend(p.args)
        else:
            flat.append(p)
    out = []
    for p in flat:
        if isinstance(p, bytes):
            if not p:
                continue
            if out and isinstance(out[-1], bytes):
                out[-1] = out[-1] + p
                continue
            if out and isinstance(out[-1], T) and out[-1].op == "zeros" and not any(p) :
                out[-1] = zeros(add(out[-1].args[0], len(p)))
                continue
            if not any(p):
                out.append(mk("zeros", len(p), ty="bytes"))
                continue
        elif p.op == "zeros":
            if isnum(p.args[0]) and p.args[0] == 0:
                continue
            if out and isinstance(out[-1], T) and out[-1].op == "zeros":
                z = zeros(add(out[-1].args[0], p.args[0]))
                out.pop()
                out.append(z)
                continue
        elif p.op in ("sub", "read") and isnum(p.args[2]) and p.args[2] == 0:
            continue
        elif p.op == "packarr" and isnum(p.args[2]) and p.args[2] == 0:
            continue
        elif out and isinstance(out[-1], T) and p.op == out[-1].op and p.op in ("sub", "read") and p.args[0] is out[-1].args[0]:
            q = out[-1]
            if q.args[2] is not None and same_num(add(q.args[1], q.args[2]), p.args[1]):
                n = None if p.args[2] is None else add(q.args[2], p.args[2])
                out[-1] = mk(p.op, p.args[0], q.args[1], n, ty="bytes")
                continue
        out.append(p)
    if not out:
        return b""
    if len(out) == 1:
        o = out[0]
        if isinstance(o, T) and o.op == "zeros" and isinstance(o.args[0], int) and o.args[0] <= 64:
            return bytes(o.args[0])
        return o
    return mk("cat", *out, ty="bytes")


def same_num(a, b):
    d = P(sub(a, b))
    return not d


def zeros(n):
    if isinstance(n, int) and not isinstance(n, bool):
        if n <= 0:
            return b""
    return mk("zeros", n, ty="bytes")


def fld(code, endian, v):
    """one struct field"""
    size = SIZE[code]
    if size == 1:
        endian = "<"
    if code in "L":
        code = "I"
    if code == "l":
        code = "i"
    if isinstance(v, T) and v.op == "wrap":
        lo, hi = dt_range(v.args[0])
        if lo is not None:
            v = unP(P(v))
    if code == "c":
        if isinstance(v, bytes):
            return v
        return v  # one byte content
    if isconst(v) and endian in "<>":
        try:
            if code in "fd":
                return struct.pack(endian + code, v)
            return struct.pack(endian + code, int(v))
        except (struct.error, TypeError, OverflowError):
            pass
    # re-packing an unpacked field gives the bytes back
    if isinstance(v, T) and v.op == "unp" and v.args[0] == code and v.args[1] == endian:
        return v.args[2]
    if isinstance(v, T) and v.op == "unp" and SIZE[v.args[0]] == size and size == 1 and v.args[0] == code:
        return v.args[2]
    return mk("fld", code, endian, v, ty="bytes")


def unp(code, endian, c):
    """interpret bytes of content c (exact size) as a struct code"""
    if code == "L":
        code = "I"
    if code == "l":
        code = "i"
    if SIZE.get(code) == 1:
        endian = "<"
    if code == "c":
        return c
    if isinstance(c, T) and c.op == "zeros" and isinstance(c.args[0], int):
        c = bytes(c.args[0])
    if isinstance(c, bytes) and len(c) == SIZE[code]:
        return struct.unpack(endian + code, c)[0]
    if isinstance(c, T) and c.op == "fld" and c.args[0] == code and c.args[1] == endian:
        return c.args[2]
    if isinstance(c, T) and c.op == "ite":
        return ite(c.args[0], unp(code, endian, c.args[1]), unp(code, endian, c.args[2]))
    ty = "real" if code in "fde" else ("bool" if code == "?" else "int")
    return mk("unp", code, endian, c, ty=ty)


def parts_of(c):
    if isinstance(c, T) and c.op == "cat":
        return list(c.args)
    if isinstance(c, bytes) and not c:
        return []
    return [c]


def split_at(c, pos, facts, hint=None):
    """(left, right) of content at byte offset pos, or None if unknown"""
    acc = 0
    parts = parts_of(c)
    for i, p in enumerate(parts):
        rel = sub(pos, acc)
        z = eq0(rel, facts)
        if z:
            return cat(*parts[:i]), cat(*parts[i:])
        n = clen(p, facts)
        d = sub(rel, n)
        if eq0(d, facts):
            return cat(*parts[: i + 1]), cat(*parts[i + 1 :])
        if ge0(d, facts):
            acc = add(acc, n)
            continue
        # strictly inside p?
        ins = prove(cmp_("<", d, 0), facts)
        if ins is None and i == len(parts) - 1 and ge0(rel, facts):
            ins = True  # last part: python truncates (pos beyond end impossible or harmless)
            if not (isinstance(p, T) and p.op in ("zeros",)):
                ins = None
        if ins and ge0(rel, facts):
            if isinstance(p, T) and p.op == "zeros" and prove(cmp_("<=", rel, n), facts) is not True:
                # python clips a position past the end
                fits = cmp_("<=", rel, n)
                s = zeros(ite(fits, rel, n)), zeros(ite(fits, sub(n, rel), 0))
            else:
                s = split_part(p, rel, n)
            if s is None:
                return None
            return cat(*parts[:i], s[0]), cat(s[1], *parts[i + 1 :])
        return None
    rel = sub(pos, acc)
    if eq0(rel, facts):
        return c, b""
    return None


def split_part(p, rel, n):
    if isinstance(p, bytes):
        if isinstance(rel, int):
            return p[:rel], p[rel:]
        return None
    if p.op == "zeros":
        return zeros(rel), zeros(sub(n, rel))
    if p.op in ("sub", "read"):
        src, off, m = p.args
        return (
            mk(p.op, src, off, rel, ty="bytes"),
            mk(p.op, src, add(off, rel), None if m is None else sub(m, rel), ty="bytes"),
        )
    if p.op == "sfld":
        return (mk("sub", p, 0, rel, ty="bytes"), mk("sub", p, rel, sub(n, rel), ty="bytes"))
    if p.op == "packarr" or p.op == "fld" or p.op == "sym" or p.op == "tobytes" or p.op == "utf8":
        return (mk("sub", p, 0, rel, ty="bytes"), mk("sub", p, rel, sub(n, rel), ty="bytes"))
    return None


def slice_(c, a, b, facts):
    """python slice c[a:b]; a,b numeric terms or None"""
    if isinstance(c, bytes) and (a is None or isinstance(a, int)) and (b is None or isinstance(b, int)):
        return c[a:b]
    if a is None:
        a = 0
    if isinstance(c, T) and c.op == "ite":
        return ite(c.args[0], slice_(c.args[1], a, b, facts), slice_(c.args[2], a, b, facts))
    # negative constants: from the end
    if isinstance(a, int) and a < 0:
        a = add(clen(c, facts), a)
    if isinstance(b, int) and b < 0:
        b = add(clen(c, facts), b)
    if isinstance(c, T) and c.op in ("sym", "sfld", "fld", "sub") and isinstance(a, int):
        L = clen(c, facts)
        if isinstance(L, int) and not (c.op == "sub" and c.args[2] is None):
            if isinstance(b, int) and b >= L:
                b = L
            if a >= L or isinstance(b, int) and a >= b:
                return b""
    if isinstance(c, T) and c.op in ("sym", "opaque", "packarr", "tobytes", "utf8", "sfld", "fld") or (
        isinstance(c, T) and c.op in ("sub", "read")
    ):
        if eq0(a, facts) and (b is None or eq0(sub(b, clen(c, facts)), facts)):
            return c
        n = None if b is None else sub(b, a)
        if c.op in ("sub", "read"):
            src, off, m = c.args
            # c[a:b] of src[off:off+m]: requested [off+a, off+min(b,m))
            if n is None:
                nn = None if m is None else sub(m, a)
                return mk(c.op, src, add(off, a), nn, ty="bytes")
            if m is None or ge0(sub(sub(m, a), n), facts):
                return mk(c.op, src, add(off, a), n, ty="bytes")
            return mk("sub", c, a, n, ty="bytes")
        return mk("sub", c, a, n, ty="bytes")
    if isinstance(c, bytes) or (isinstance(c, T) and c.op in ("cat", "zeros")):
        L = clen(c, facts)
        if b is not None and ge0(sub(b, L), facts):
            b = None
        r = split_at(c, a, facts)
        if r is None:
            if ge0(sub(a, L), facts):
                return b""
            return mk("sub", c, a, None if b is None else sub(b, a), ty="bytes")
        right = r[1]
        if b is None:
            return right
        n = sub(b, a)
        if prove(cmp_("<=", n, 0), facts):
            return b""
        r2 = split_at(right, n, facts)
        if r2 is None:
            return mk("sub", c, a, n, ty="bytes")
        return r2[0]
    return mk("sub", c, a, None if b is None else sub(b, a), ty="bytes")


def overwrite(c, a, b, new, facts):
    """c with c[a:b] = new (python slice assignment)"""
    r = split_at(c, a, facts)
    if r is None:
        if ge0(sub(a, clen(c, facts)), facts):
            # starts past the end: appended
            return cat(c, new)
        return mk("splice", c, a, b, new, ty="bytes")
    left, right = r
    n = sub(b, a)
    # slice end clipped to the length of the target
    Lr = clen(right, facts)
    if ge0(sub(n, Lr), facts):
        return cat(left, new)
    r2 = split_at(right, n, facts)
    if r2 is None:
        if ge0(sub(Lr, n), facts) is None:
            # may run over the end: both behaviours
            over = cmp_(">", n, Lr)
            mid = mk("dropfirst", right, n, ty="bytes")
            return cat(left, new, mid)
        mid = mk("dropfirst", right, n, ty="bytes")
        return cat(left, new, mid)
    return cat(left, new, r2[1])


def _rb_cat(x, *a):
    return cat(*a)


t_.REBUILD["cat"] = lambda x, *a: cat(*a)
t_.REBUILD["zeros"] = lambda x, a: cat(zeros(a))
t_.REBUILD["fld"] = lambda x, c, e, v: fld(c, e, v)
t_.REBUILD["unp"] = lambda x, c, e, v: unp(c, e, v)
t_.REBUILD["blen"] = lambda x, c: clen(c)


def fields_struct(fmt):
    """parse struct format -> (endian, [(code, size, count)]) pads as 'x'"""
    e = "@"
    if fmt and fmt[0] in "<>=!@":
        e = fmt[0]
        fmt = fmt[1:]
    if e == "@":
        fmt = fmt.replace("l", "q").replace("L", "Q")
    if e == "!":
        e = ">"
    out = []
    num = ""
    for ch in fmt:
        if ch.isspace():
            continue
        if ch.isdigit():
            num += ch
            continue
        n = int(num) if num else 1
        had = bool(num)
        num = ""
        if ch == "x":
            out.append(("x", n))
        elif ch in "sp":
            out.append(("s", n if had else 1))
        else:
            for _ in range(n):
                out.append((ch, SIZE[ch]))
    return e, out
