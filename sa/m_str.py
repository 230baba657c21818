"""string models"""
from .terms import *
from . import terms as tm
from . import content as ct
from . import models as M
from .models import ext, meth, kind, numeric, freeze
from .interp import Obj, ClassV, FuncV, Ext, BMeth, GenV, RangeV


def scat(*parts):
    out = []
    for p in parts:
        if isinstance(p, T) and p.op == "scat":
            qs = p.args
        else:
            qs = (p,)
        for q in qs:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            out.append(q)
    # adjacent slices of the same string
    i = 0
    while i + 1 < len(out):
        a, b = out[i], out[i + 1]
        if isinstance(a, T) and isinstance(b, T) and a.op == b.op == "ssub" and a.args[0] is b.args[0] and a.args[2] is not None:
            d = sub(b.args[1], a.args[2])
            if isinstance(d, int) and d == 0:
                out[i:i + 2] = [ssub(a.args[0], a.args[1], b.args[2])]
                continue
        i += 1
    if not out:
        return ""
    if len(out) == 1 and (isinstance(out[0], str) or isinstance(out[0], T) and out[0].ty == "str"):
        return out[0]
    # distribute over conditionals (few)
    for i, p in enumerate(out):
        if isinstance(p, T) and p.op == "ite":
            n = sum(1 for q in out if isinstance(q, T) and q.op == "ite")
            if n <= 6:
                return ite(p.args[0], scat(*out[:i], p.args[1], *out[i + 1:]), scat(*out[:i], p.args[2], *out[i + 1:]))
            break
    return mk("scat", *out, ty="str")


REBUILD["scat"] = lambda x, *a: scat(*a)


def extra(s, name):
    if isinstance(s, T) and s.op == "sym":
        for k, v in s.args[3]:
            if k == name:
                return v
    return None


def slen(s):
    if isinstance(s, str):
        return len(s)
    if not isinstance(s, T):
        return mk("slen", s, ty="int")
    if s.op == "scat":
        n = 0
        for p in s.args:
            n = add(n, slen(p))
        return n
    if s.op == "ite":
        return ite(s.args[0], slen(s.args[1]), slen(s.args[2]))
    n = extra(s, "n")
    if n is not None:
        return n
    if s.op == "fmt" and s.args[1].startswith("0") and s.args[1][1:].isdigit():
        wd = int(s.args[1])
        if rng(s.args[0]).subset(iv(0, 10 ** wd - 1)):
            return wd
    if s.op in ("upper", "lower", "dechex"):
        return slen(s.args[0]) if s.op != "upper" else mk("slen", s, ty="int")
    if s.op == "dec" and s.args[0] == "latin-1":
        return ct.clen(s.args[1])
    if s.op == "ssub" and isinstance(s.args[2], int) and isinstance(s.args[1], int):
        L = slen(s.args[0])
        if isnum(L) or rng(L).subset(iv(s.args[2], None)):
            return s.args[2] - s.args[1]
    return mk("slen", s, ty="int")


REBUILD["slen"] = lambda x, a: slen(a)
_ar0 = tm.atom_range


def _ar(a):
    if a.op == "slen":
        lo, hi = 0, None
        s = a.args[0]
        v = extra(s, "minlen")
        if v is not None:
            lo = v
        v = extra(s, "maxlen")
        if v is not None:
            hi = v
        return iv(lo, hi)
    if a.op in ("sord",):
        return iv(0, 1114111)
    if a.op == "strint":
        v = extra(a.args[0], "digits")
        if v:
            return iv(0, None)
    return _ar0(a)


tm.atom_range = _ar


def ssub(s, a, b):
    """s[a:b] for non-negative a, b (b None: to the end)"""
    if isinstance(s, str) and isinstance(a, int) and (b is None or isinstance(b, int)):
        return s[a:b]
    if isinstance(s, T) and s.op == "ite":
        return ite(s.args[0], ssub(s.args[1], a, b), ssub(s.args[2], a, b))
    if isinstance(a, int) and a == 0 and b is None:
        return s
    if isinstance(s, T) and s.op == "scat" and isinstance(a, int) and (b is None or isinstance(b, int)):
        out = []
        pos = 0
        ok = True
        for p in s.args:
            n = slen(p)
            if not isinstance(n, int):
                # only acceptable when the rest is taken whole
                if b is None and pos >= a:
                    out.append(p)
                    pos = 10 ** 9 if False else pos
                    # everything after is included too
                    idx = s.args.index(p)
                    out.extend(s.args[idx + 1:])
                    return scat(*out)
                ok = False
                break
            lo, hi = max(a - pos, 0), n if b is None else min(b - pos, n)
            if lo < hi:
                out.append(p if lo == 0 and hi == n else ssub1(p, lo, hi))
            pos += n
            if b is not None and pos >= b:
                break
        if ok:
            return scat(*out)
    return ssub1(s, a, b)


def ssub1(s, a, b):
    if isinstance(s, str):
        return s[a:b]
    n = slen(s)
    if isinstance(n, int) and isinstance(a, int):
        if b is None or isinstance(b, int) and b > n:
            b = n
        if a == 0 and b == n:
            return s
        if isinstance(b, int) and a >= b:
            return ""
    return mk("ssub", s, a, b, ty="str")


REBUILD["ssub"] = lambda x, s, a, b: ssub(s, a, b)


def str_getitem(I, s, i, st, node):
    if isinstance(i, slice):
        if i.step is not None and i.step != 1:
            return mk("opaque", "sstep", s, freeze(i.start, st), freeze(i.stop, st), freeze(i.step, st), ty="str")
        a = 0 if i.start is None else i.start
        b = i.stop
        n = slen(s)
        if isinstance(a, int) and a < 0:
            if rng(n, st.facts).subset(iv(-a, None)) or not isinstance(n, T):
                a = add(n, a) if isinstance(n, T) else max(0, n + a)
            else:
                return mk("ssub", s, a, b, ty="str")
        if isinstance(b, int) and b < 0:
            if rng(n, st.facts).subset(iv(-b, None)) or not isinstance(n, T):
                b = add(n, b)
            else:
                return mk("ssub", s, a, b, ty="str")
        if b is not None and isinstance(n, T) and isinstance(simp(sub(n, b), st.facts), int) and simp(sub(n, b), st.facts) == 0:
            b = None
        return ssub(s, a, b)
    if isinstance(i, bool):
        i = int(i)
    n = slen(s)
    if isinstance(i, int):
        if i < 0 and not isinstance(n, T):
            i = n + i
        c = cmp_(">", n, i) if i >= 0 else cmp_(">=", n, -i)
        if isinstance(c, T):
            c = st.facts.val(c)
        if c is False:
            I.event("indexerror", node, st, obj=s, index=i)
            I.do_raise(st, I.new_exc("IndexError", (), st), node)
        if c is not True:
            I.may_raise(st, "IndexError", node, not_(c))
        if i < 0:
            return mk("ssub", s, i, add(i, 1) if i != -1 else None, ty="str")
        return ssub(s, i, i + 1)
    return mk("ssub", s, i, add(i, 1), ty="str")


M.GETITEM["str"] = str_getitem


def free_of(s, ch):
    """string value certainly does not contain ch"""
    if isinstance(s, str):
        return ch not in s
    if isinstance(s, T):
        if s.op == "scat":
            return len(ch) == 1 and all(free_of(p, ch) for p in s.args)
        f = extra(s, "free")
        if f and any(c in f for c in ch):
            return True
        al = extra(s, "alpha")
        if al is not None and any(c not in al for c in ch):
            return True
        if s.op == "fmt" and is_int(s.args[0]) and ch not in "0123456789-+ abcdefxob_,":
            return True
        if s.op == "fmt" and is_int(s.args[0]) and s.args[1] in ("", "d") and ch not in "0123456789-":
            return True
        if s.op == "ite":
            return free_of(s.args[1], ch) and free_of(s.args[2], ch)
        if s.op == "ssub":
            return free_of(s.args[0], ch)
    return False


def str_contains(x, c):
    if isinstance(x, str) and len(x) == 1:
        parts = c.args if isinstance(c, T) and c.op == "scat" else (c,)
        if any(isinstance(p, str) and x in p for p in parts):
            return True
        if all(free_of(p, x) for p in parts):
            return False
    if isinstance(x, str) and x == "":
        return True
    if isinstance(c, str) and isinstance(x, T) and slen(x) == 1:
        return or_(*[eq_str(x, ch) for ch in dict.fromkeys(c)])
    return mk("scontains", c, x, ty="bool")


REBUILD["scontains"] = lambda t, c, x: str_contains(x, c) if not (isinstance(c, str) and isinstance(x, str)) else x in c


def eq_str(a, b, facts=None):
    if isinstance(a, T) and a.op == "ite":
        return ite_b(a.args[0], eq_str(a.args[1], b, facts), eq_str(a.args[2], b, facts))
    if isinstance(b, T) and b.op == "ite":
        return ite_b(b.args[0], eq_str(a, b.args[1], facts), eq_str(a, b.args[2], facts))
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if a is b:
        return True
    if isinstance(a, str):
        a, b = b, a
    if isinstance(b, str) and b == "":
        return cmp_("==", slen(a), 0)
    pa = list(a.args) if isinstance(a, T) and a.op == "scat" else [a]
    pb = list(b.args) if isinstance(b, T) and b.op == "scat" else [b]
    # common prefix / suffix
    for end in (0, -1):
        while pa and pb:
            x, y = pa[end], pb[end]
            if x is y or (isinstance(x, str) and isinstance(y, str) and x == y):
                pa.pop(end)
                pb.pop(end)
                continue
            if isinstance(x, str) and isinstance(y, str):
                k = min(len(x), len(y))
                xa, ya = (x[:k], y[:k]) if end == 0 else (x[-k:], y[-k:])
                if xa != ya:
                    return False
                pa[end] = x[k:] if end == 0 else x[:-k]
                pb[end] = y[k:] if end == 0 else y[:-k]
                if not pa[end]:
                    pa.pop(end)
                if not pb[end]:
                    pb.pop(end)
                continue
            break
    if not pa and not pb:
        return True
    if not pa or not pb:
        rest = pa or pb
        return cmp_("==", slen(scat(*rest)), 0)
    a, b = scat(*pa), scat(*pb)
    d = cmp_("==", slen(a), slen(b))
    if isinstance(d, T) and facts is not None:
        d = facts.val(d)
    if d is False:
        return False
    # separators: split both at a character their symbolic parts cannot contain
    for ch in ("_", "."):
        fa = all(isinstance(p, str) or free_of(p, ch) for p in pa)
        fb = all(isinstance(p, str) or free_of(p, ch) for p in pb)
        if fa and fb:
            sa, sb = split_known(pa, ch), split_known(pb, ch)
            if len(sa) != len(sb):
                return False
            if len(sa) > 1:
                return and_(*[eq_str(x, y, facts) for x, y in zip(sa, sb)])
    al = extra(a, "alpha")
    if isinstance(b, str) and al is not None and any(c not in al for c in b):
        return False
    return mk("eqv", *sorted2(a, b), ty="bool")


_eqv0 = tm.eqv


def _eqv_rb(x, a, b):
    if M.kind(a) == "str" and M.kind(b) == "str":
        return eq_str(a, b)
    return _eqv0(a, b)


REBUILD["eqv"] = _eqv_rb


def split_known(parts, sep, maxsplit=-1):
    out = [[]]
    for p in parts:
        if isinstance(p, str):
            segs = p.split(sep, maxsplit) if maxsplit >= 0 else p.split(sep)
            if maxsplit >= 0:
                maxsplit -= len(segs) - 1
            out[-1].append(segs[0])
            for s in segs[1:]:
                out.append([s])
        else:
            out[-1].append(p)
    return [scat(*o) for o in out]


@meth("str", "split", "rsplit")
def _split(I, s, a, kw, st, node):
    sep = a[0] if a else kw.get("sep")
    mx = a[1] if len(a) > 1 else kw.get("maxsplit", -1)
    if isinstance(s, str) and isinstance(sep, str) and isinstance(mx, int):
        return I.new_list(tuple(s.split(sep, mx)), st, node)
    if isinstance(sep, str) and len(sep) == 1:
        parts = list(s.args) if isinstance(s, T) and s.op == "scat" else [s]
        if all(free_of(p, sep) or isinstance(p, str) for p in parts):
            if isinstance(mx, int) and mx < 0:
                return I.new_list(tuple(split_known(parts, sep)), st, node)
            if isinstance(mx, int):
                return I.new_list(tuple(split_known(parts, sep, mx)), st, node)
    t = mk("split", s, freeze(sep, st), freeze(mx, st), ty="seq")
    if sep is not None:
        st.axiom(cmp_(">=", M.alen(t), 1))
    return I.new_list(t, st, node)


@meth("str", "partition", "rpartition")
def _partition(I, s, a, kw, st, node):
    sep = a[0]
    if isinstance(s, str) and isinstance(sep, str):
        return s.partition(sep)
    parts = list(s.args) if isinstance(s, T) and s.op == "scat" else [s]
    if isinstance(sep, str) and len(sep) == 1 and all(free_of(p, sep) or isinstance(p, str) for p in parts):
        r = split_known(parts, sep, 1)
        return (r[0], sep, r[1]) if len(r) == 2 else (s, "", "")
    return NotImplemented


@meth("str", "startswith", "removeprefix")
def _startswith(I, s, a, kw, st, node):
    p = a[0]
    if isinstance(p, tuple):
        return or_(*[_startswith(I, s, [x], kw, st, node) for x in p])
    r = startswith(s, p)
    return r


def startswith(s, p):
    if isinstance(s, str) and isinstance(p, str):
        return s.startswith(p)
    if isinstance(s, T) and s.op == "ite":
        return ite_b(s.args[0], startswith(s.args[1], p), startswith(s.args[2], p))
    if isinstance(p, str) and isinstance(s, T) and s.op == "scat" and isinstance(s.args[0], str):
        h = s.args[0]
        if len(h) >= len(p):
            return h.startswith(p)
        if not p.startswith(h):
            return False
    if isinstance(p, str) and p and not isinstance(s, str) and any(free_of(s, ch) for ch in p):
        return False
    return mk("startswith", s, p, ty="bool")


REBUILD["startswith"] = lambda x, s, p: startswith(s, p)


@meth("str", "endswith")
def _endswith(I, s, a, kw, st, node):
    p = a[0]
    if isinstance(s, str) and isinstance(p, str):
        return s.endswith(p)
    if isinstance(p, str) and isinstance(s, T) and s.op == "scat" and isinstance(s.args[-1], str) and len(s.args[-1]) >= len(p):
        return s.args[-1].endswith(p)
    if isinstance(p, tuple):
        return or_(*[_endswith(I, s, [x], kw, st, node) for x in p])
    return mk("endswith", s, p, ty="bool")


@meth("str", "strip", "lstrip", "rstrip")
def _strip(I, s, a, kw, st, node):
    nm = node.func.attr if hasattr(node, "func") and hasattr(node.func, "attr") else "strip"
    ch = a[0] if a else None
    if isinstance(s, str) and (ch is None or isinstance(ch, str)):
        return getattr_(s, nm)(ch)
    if ch is None and extra(s, "alpha") is not None and " " not in extra(s, "alpha"):
        return s
    if isinstance(s, T) and s.op in ("strip", "rstrip", "lstrip") and s.args[1] == ch and (s.op == nm or s.op == "strip"):
        return s
    return mk(nm, s, freeze(ch, st), ty="str")


def getattr_(o, n):
    import builtins
    return builtins.getattr(o, n)


@meth("str", "upper", "lower", "title", "capitalize", "casefold", "swapcase")
def _case(I, s, a, kw, st, node):
    nm = node.func.attr
    if isinstance(s, str):
        return getattr_(s, nm)()
    return mk(nm, s, ty="str")


@meth("str", "isdigit", "isalpha", "isalnum", "isupper", "isspace", "isnumeric", "isdecimal", "islower", "isascii")
def _is(I, s, a, kw, st, node):
    nm = node.func.attr
    if isinstance(s, str):
        return getattr_(s, nm)()
    return mk(nm, s, ty="bool")


@meth("str", "replace")
def _replace(I, s, a, kw, st, node):
    old, new = a[0], a[1]
    if isinstance(s, str) and isinstance(old, str) and isinstance(new, str) and len(a) == 2:
        return s.replace(old, new)
    if isinstance(old, str) and len(old) == 1 and len(a) == 2:
        parts = list(s.args) if isinstance(s, T) and s.op == "scat" else [s]
        if all(isinstance(p, str) or free_of(p, old) for p in parts):
            if isinstance(new, str):
                return scat(*[p.replace(old, new) if isinstance(p, str) else p for p in parts])
    return mk("sreplace", s, *[freeze(x, st) for x in a], ty="str")


@meth("str", "zfill")
def _zfill(I, s, a, kw, st, node):
    n = a[0]
    if isinstance(s, str) and isinstance(n, int):
        return s.zfill(n)
    if isinstance(s, T) and s.op == "fmt" and s.args[1] == "" and is_int(s.args[0]) and isinstance(n, int):
        return mk("fmt", s.args[0], f"0{n}", ty="str")
    return mk("zfill", s, freeze(n, st), ty="str")


@meth("str", "ljust", "rjust", "center")
def _just(I, s, a, kw, st, node):
    nm = node.func.attr
    fill = a[1] if len(a) > 1 else " "
    if isinstance(s, str) and isinstance(a[0], int) and isinstance(fill, str):
        return getattr_(s, nm)(a[0], fill)
    if nm == "rjust" and fill == "0" and isinstance(s, T) and s.op == "fmt" and s.args[1] == "" and is_int(s.args[0]) and rng(s.args[0]).subset(iv(0, None)):
        return mk("fmt", s.args[0], f"0{a[0]}", ty="str")
    n = slen(s)
    if isinstance(n, int) and isinstance(a[0], int) and isinstance(fill, str) and len(fill) == 1:
        if n >= a[0]:
            return s
        if nm in ("ljust", "rjust"):
            return scat(s, fill * (a[0] - n)) if nm == "ljust" else scat(fill * (a[0] - n), s)
    return mk("just", nm, s, freeze(a[0], st), freeze(fill, st), ty="str")


@meth("str", "join")
def _join(I, s, a, kw, st, node):
    items = I.seq_items(a[0], st)
    if items is None:
        return mk("sjoin", s, freeze(a[0], st), ty="str")
    out = []
    for i, x in enumerate(items):
        if i:
            out.append(s)
        out.append(x)
    return scat(*out)


@meth("str", "encode")
def _encode(I, s, a, kw, st, node):
    enc = a[0] if a else kw.get("encoding", "utf-8")
    enc = norm_enc(enc)
    how = a[1] if len(a) > 1 else kw.get("errors", "strict")
    if isinstance(s, str) and how in ("replace", "ignore", "backslashreplace", "xmlcharrefreplace", "surrogateescape", "surrogatepass"):
        try:
            return s.encode(enc, how)
        except (UnicodeError, LookupError):
            pass
    if isinstance(s, T) and s.op == "ite":
        return ite(s.args[0], encode(s.args[1], enc), encode(s.args[2], enc))
    if enc not in ("utf-8",):
        I.event("encode", node, st, enc=enc, value=s)
    return encode(s, enc)


def norm_enc(e):
    if isinstance(e, str):
        x = e.lower().replace("_", "-")
        return {"utf8": "utf-8", "us-ascii": "ascii", "latin1": "latin-1", "iso-8859-1": "latin-1"}.get(x, x)
    return "?"


def encode(s, enc):
    if isinstance(s, str):
        try:
            return s.encode(enc)
        except (UnicodeError, LookupError):
            return mk("undef", ty="bytes")
    if isinstance(s, T) and s.op == "dec" and s.args[0] == enc:
        return s.args[1]
    if isinstance(s, T) and s.op == "scat":
        return ct.cat(*[encode(p, enc) for p in s.args])
    if isinstance(s, T) and s.op == "ite":
        return ite(s.args[0], encode(s.args[1], enc), encode(s.args[2], enc))
    return mk("utf8", s, ty="bytes") if enc == "utf-8" else mk("enc", enc, s, ty="bytes")


REBUILD["utf8"] = lambda x, s: encode(s, "utf-8")
REBUILD["enc"] = lambda x, e, s: encode(s, e)


def decode(c, enc):
    if isinstance(c, bytes):
        try:
            return c.decode(enc)
        except (UnicodeError, LookupError):
            return mk("undef", ty="str")
    if isinstance(c, T) and (c.op == "utf8" and enc == "utf-8" or c.op == "enc" and c.args[0] == enc):
        return c.args[-1]
    if isinstance(c, T) and c.op == "ite":
        return ite(c.args[0], decode(c.args[1], enc), decode(c.args[2], enc))
    return mk("dec", enc, c, ty="str")


REBUILD["dec"] = lambda x, e, c: decode(c, e)


@meth("str", "find", "index", "rfind", "count")
def _find(I, s, a, kw, st, node):
    nm = node.func.attr
    if isinstance(s, str) and all(isconst(x) for x in a):
        return getattr_(s, nm)(*a)
    return mk("s" + nm, s, *[freeze(x, st) for x in a], ty="int")


@meth("str", "format")
def _format(I, s, a, kw, st, node):
    if isinstance(s, str):
        import string
        out = []
        auto = 0
        try:
            for lit, fieldn, spec, conv in string.Formatter().parse(s):
                out.append(lit)
                if fieldn is None:
                    continue
                if fieldn == "":
                    v = a[auto]
                    auto += 1
                elif fieldn.isdigit():
                    v = a[int(fieldn)]
                elif fieldn in kw:
                    v = kw[fieldn]
                else:
                    return NotImplemented
                if conv == "r":
                    v = repr_(I, v, st, node)
                out.append(format_(I, v, spec or "", st, node))
        except IndexError:
            I.event("indexerror", node, st, obj=s, index=auto)
            I.do_raise(st, I.new_exc("IndexError", ("Replacement index out of range",), st), node)
        except ValueError:
            return NotImplemented
        return scat(*out)
    return NotImplemented


@meth("str", "splitlines")
def _splitlines(I, s, a, kw, st, node):
    if isinstance(s, str):
        return I.new_list(tuple(s.splitlines()), st, node)
    return I.new_list(mk("splitlines", s, ty="seq"), st, node)


@ext("str")
def _str(I, a, kw, st, node):
    if not a:
        return ""
    v = a[0]
    if len(a) > 1 or kw:
        if kind(v, st) in ("bytes", "bytearray"):
            c = st.heap[v]["c"] if isinstance(v, Obj) else v
            return decode(c, norm_enc(a[1] if len(a) > 1 else kw.get("encoding", "utf-8")))
        return NotImplemented
    return str_(I, v, st, node)


def str_(I, v, st, node):
    if isinstance(v, T) and v.op == "ite" and v.ty not in ("int", "real"):
        return I.branch(v.args[0], st, lambda s: str_(I, v.args[1], s, node), lambda s: str_(I, v.args[2], s, node))
    k = kind(v, st)
    if k == "str":
        return v
    if isconst(v) and not isinstance(v, Fraction):
        return str(v)
    if isinstance(v, Obj) and isinstance(v.cls, ClassV):
        for nm in ("__str__", "__repr__"):
            f = v.cls.lookup(nm)
            if isinstance(f, FuncV):
                return I.call_func(f, [v], {}, st, node)
        cell = st.heap.get(v)
        if isinstance(cell, dict) and isinstance(cell.get("args"), tuple):
            a = cell["args"]
            return str_(I, a[0], st, node) if len(a) == 1 else "" if not a else mk("fmt", freeze(a, st), "", ty="str")
        return nt_text(I, v, st, node)
    if k in ("int", "real", "bool"):
        return fmt(v, "")
    return mk("fmt", freeze(v, st), "", ty="str")


def repr_(I, v, st, node):
    if isconst(v) and not isinstance(v, Fraction):
        return repr(v)
    if isinstance(v, Obj) and isinstance(v.cls, ClassV):
        f = v.cls.lookup("__repr__")
        if isinstance(f, FuncV):
            return I.call_func(f, [v], {}, st, node)
        return nt_text(I, v, st, node)
    return mk("fmt", freeze(v, st), "!r", ty="str")


def nt_text(I, v, st, node):
    """text of an object without its own: a named tuple lists its fields"""
    fields = v.cls.fields
    if fields is None:
        return mk("fmt", M.v_id(v), "", ty="str")
    parts = []
    for k, f in enumerate(fields):
        x = st.heap[v].get(f)
        parts += [(", " if k else "") + f + "=", repr_(I, x, st, node)]
    return scat(v.cls.name + "(", *parts, ")")


@ext("repr")
def _repr(I, a, kw, st, node):
    return repr_(I, a[0], st, node)


@ext("format")
def _formatb(I, a, kw, st, node):
    return format_(I, a[0], a[1] if len(a) > 1 else "", st, node)


def fmt(v, spec):
    if isinstance(v, (int, float, str, bool)):
        try:
            return format(v, spec)
        except (ValueError, TypeError):
            pass
    if isinstance(v, T) and v.op == "ite":
        return ite(v.args[0], fmt(v.args[1], spec), fmt(v.args[2], spec))
    if isinstance(v, T) and v.op == "strint" and spec == "" and v.args[1] == 10 and extra(v.args[0], "digits"):
        return v.args[0]
    return mk("fmt", v, spec, ty="str")


REBUILD["fmt"] = lambda x, v, s: fmt(v, s)


def format_(I, v, spec, st, node):
    if isinstance(spec, T):
        return mk("fmtd", freeze(v, st), spec, ty="str")
    if spec == "":
        return str_(I, v, st, node)
    k = kind(v, st)
    if k == "int":
        from .m_num import toint
        v = toint(v)
        try:
            format(0, spec)
        except ValueError:
            I.event("valueerror", node, st, what=f"format int {spec}")
            I.do_raise(st, I.new_exc("ValueError", ("Unknown format code",), st), node)
        if spec.endswith("d"):
            spec = spec[:-1]
        if spec == "":
            return fmt(v, "")
        return fmt(v, spec)
    if isinstance(v, T) and v.op == "ite":
        return I.branch(v.args[0], st, lambda s: format_(I, v.args[1], spec, s, node), lambda s: format_(I, v.args[2], spec, s, node))
    if v is None or k in ("list", "dict", "tuple", "bytes", "obj"):
        if isinstance(v, Obj) and isinstance(v.cls, ClassV) and isinstance(v.cls.lookup("__format__"), FuncV):
            return I.call_func(v.cls.lookup("__format__"), [v, spec], {}, st, node)
        I.event("typeerror", node, st, what=f"format {k} {spec}")
        I.do_raise(st, I.new_exc("TypeError", ("unsupported format string",), st), node)
    if k == "str" and any(c in spec for c in "dxobXfeEgG%"):
        if spec[-1:] in "dxobXfeEgG%":
            I.event("valueerror", node, st, what=f"format str {spec}")
            I.do_raise(st, I.new_exc("ValueError", ("Unknown format code",), st), node)
    if k == "str":
        try:
            format("", spec)
        except ValueError:
            I.event("valueerror", node, st, what=f"format str {spec}")
            I.do_raise(st, I.new_exc("ValueError", ("Unknown format code",), st), node)
    if k == "real":
        try:
            format(0.5, spec)
        except ValueError:
            I.event("valueerror", node, st, what=f"format float {spec}")
            I.do_raise(st, I.new_exc("ValueError", ("Unknown format code",), st), node)
    if k == "str" and isinstance(v, str):
        return format(v, spec)
    return fmt(v, spec) if k in ("real", "bool", "str") else mk("fmt", freeze(v, st), spec, ty="str")


def str_to_int(v, base, facts):
    if isinstance(v, T) and v.op == "fmt" and is_int(v.args[0]) and base == 10:
        sp = v.args[1]
        if sp == "" or (sp.startswith("0") and sp[1:].isdigit()):
            return v.args[0]
    if isinstance(v, T) and extra(v, "digits") and base == 10:
        return mk("strint", v, 10, ty="int")
    if isinstance(v, T) and v.op == "ite":
        a = str_to_int(v.args[1], base, facts)
        b = str_to_int(v.args[2], base, facts)
        if a is not None and b is not None:
            return ite(v.args[0], a, b)
    return None


def b_str(I, op, a, b, st, node, inplace):
    ka, kb = kind(a, st), kind(b, st)
    if op == "Add" and ka == "str" and kb == "str":
        return scat(a, b)
    if op == "Mod" and ka == "str":
        if isinstance(a, str):
            import re
            args = list(b) if isinstance(b, tuple) else [b]
            out = []
            pos = 0
            for m in re.finditer(r"%([-#0 +]*\d*(?:\.\d+)?)([sdifgxXrc%])", a):
                out.append(a[pos:m.start()])
                pos = m.end()
                if m.group(2) == "%":
                    out.append("%")
                    continue
                if not args:
                    I.event("typeerror", node, st, what="too few arguments for format")
                    I.do_raise(st, I.new_exc("TypeError", ("not enough arguments for format string",), st), node)
                v = args.pop(0)
                if m.group(2) in "dixXfgc" and kind(v, st) in ("str", "none", "bytes", "list", "dict", "tuple") and not (m.group(2) == "c" and kind(v, st) == "str"):
                    I.event("typeerror", node, st, what="format %" + m.group(2))
                    I.do_raise(st, I.new_exc("TypeError", ("a number is required",), st), node)
                if m.group(2) == "r":
                    out.append(repr_(I, v, st, node))
                elif m.group(2) == "s" and not m.group(1):
                    out.append(str_(I, v, st, node))
                else:
                    out.append(format_(I, v, m.group(1) + (m.group(2) if m.group(2) != "i" else "d"), st, node))
            if args and kind(b, st) not in ("dict", "any", "obj") and (isinstance(b, tuple) or pos == 0) and "%(" not in a:
                I.event("typeerror", node, st, what="too many arguments for format")
                I.do_raise(st, I.new_exc("TypeError", ("not all arguments converted",), st), node)
            out.append(a[pos:])
            return scat(*out)
        return mk("opaque", "smod", a, freeze(b, st), ty="str")
    if op == "Mult" and {ka, kb} == {"str", "int"}:
        if isconst(a) and isconst(b):
            return a * b
        return mk("smul", freeze(a, st), freeze(b, st), ty="str")
    return NotImplemented


M.BINOP.append(b_str)


@ext("ord")
def _ord(I, a, kw, st, node):
    v = a[0]
    if isinstance(v, (str, bytes)) and len(v) == 1:
        return ord(v)
    if kind(v, st) == "bytes":
        return ct.unp("B", "<", v)
    return mk("sord", freeze(v, st), ty="int")


@ext("chr")
def _chr(I, a, kw, st, node):
    if isinstance(a[0], int):
        return chr(a[0])
    if isinstance(a[0], T) and a[0].op == "unp" and a[0].args[0] == "B":
        return decode(a[0].args[2], "latin-1")
    return mk("chr", freeze(a[0], st), ty="str")


@ext("hex", "bin", "oct")
def _hex(I, a, kw, st, node):
    return mk("fmt", freeze(a[0], st), "#x", ty="str")
