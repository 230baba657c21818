"""Interpretation of the remaining value-graph operators on constant arguments.

Only used when the value graph of an obligation that could not be proved is evaluated
on a sample valuation (decide.refute); every case is the textbook meaning of the operator.
"""
import json
import re as pyre
import struct
import zlib

from .terms import *
from . import terms as tm
from . import content as ct
from . import bits as bt
from . import m_time

CONST = (int, float, str, bytes, bool, type(None))


def rb(op):
    def deco(f):
        old = tm.REBUILD.get(op)

        def g(x, *a):
            try:
                r = f(*a)
            except (ValueError, TypeError, OverflowError, IndexError, KeyError, struct.error, pyre.error):
                r = mk("undef", x, ty=x.ty)
            if r is NotImplemented:
                return old(x, *a) if old else mk(op, *a, ty=x.ty)
            return r
        tm.REBUILD[op] = g
        return f
    return deco


EVAL = tm.EVAL


@rb("zeros")
def _zeros(n):
    if EVAL[0] and isinstance(n, int) and n < 1 << 22:
        return bytes(max(n, 0))
    return NotImplemented


_cat0 = tm.REBUILD["cat"]


def _cat(x, *a):
    r = _cat0(x, *a)
    if EVAL[0] and isinstance(r, T) and r.op == "cat":
        out = []
        for p in r.args:
            if isinstance(p, T) and p.op == "zeros" and isinstance(p.args[0], int):
                p = bytes(max(p.args[0], 0))
            if not isinstance(p, bytes):
                return r
            out.append(p)
        return b"".join(out)
    return r


tm.REBUILD["cat"] = _cat


def isb(c):
    return isinstance(c, bytes)


def _sub(src, off, n):
    if isinstance(off, int) and (n is None or isinstance(n, int)):
        if isb(src):
            if n is not None and n < 0 or off < 0:
                return NotImplemented
            return src[off:] if n is None else src[off:off + n]
    if isinstance(src, T) and src.op in ("cat", "zeros"):
        return ct.slice_(src, off, None if n is None else add(off, n), None)
    return NotImplemented


rb("sub")(_sub)


@rb("read")
def _read(src, off, n):
    if isb(src) and isinstance(off, int) and (n is None or isinstance(n, int)):
        if n is None or n < 0:
            return src[off:]
        return src[off:off + n]
    return NotImplemented


@rb("dropfirst")
def _drop(c, n):
    return c[n:] if isb(c) and isinstance(n, int) else NotImplemented


@rb("splice")
def _splice(c, a, b, new):
    if isb(c) and isb(new) and isinstance(a, int) and isinstance(b, int):
        x = bytearray(c)
        x[a:b] = new
        return bytes(x)
    return NotImplemented


@rb("brep")
def _brep(c, n):
    return c * n if isb(c) and isinstance(n, int) else NotImplemented


@rb("sfld")
def _sfld(n, c):
    return struct.pack(f"{n}s", c) if isb(c) and isinstance(n, int) else NotImplemented


@rb("endswith")
def _ends(s, p):
    return s.endswith(p) if isinstance(s, str) and isinstance(p, (str, tuple)) else NotImplemented


@rb("sreplace")
def _repl(s, *a):
    return s.replace(*a) if isinstance(s, str) and all(isinstance(x, (str, int)) for x in a) else NotImplemented


@rb("split")
def _split(s, sep, mx):
    if isinstance(s, str) and (sep is None or isinstance(sep, str)) and isinstance(mx, int):
        return mk("seqv", tuple(s.split(sep, mx)), ty="seq")
    return NotImplemented


@rb("sjoin")
def _join(s, xs):
    if isinstance(xs, T) and xs.op == "seqv":
        xs = xs.args[0]
    if isinstance(s, str) and isinstance(xs, tuple) and all(isinstance(x, str) for x in xs):
        return s.join(xs)
    return NotImplemented


@rb("zfill")
def _zfill(s, n):
    return s.zfill(n) if isinstance(s, str) and isinstance(n, int) else NotImplemented


@rb("just")
def _just(nm, s, n, fill):
    if isinstance(s, str) and isinstance(n, int) and isinstance(fill, str):
        return getattr(s, nm)(n, fill)
    return NotImplemented


@rb("smul")
def _smul(a, b):
    return a * b if isinstance(a, (str, int)) and isinstance(b, (str, int)) else NotImplemented


@rb("strint")
def _strint(v, base):
    return int(v, base) if isinstance(v, str) and isinstance(base, int) else NotImplemented


@rb("strfloat")
def _strfloat(v):
    return float(v) if isinstance(v, str) else NotImplemented


@rb("sord")
def _sord(v):
    return ord(v) if isinstance(v, str) and len(v) == 1 else NotImplemented


@rb("chr")
def _chr(v):
    return chr(v) if isinstance(v, int) else NotImplemented


@rb("fmtd")
def _fmtd(v, spec):
    return format(v, spec) if isinstance(v, CONST) and isinstance(spec, str) else NotImplemented


@rb("bv")
def _bv(b):
    if all(x in (0, 1) for x in b):
        return bt.value(b)
    out = []
    for x in b:
        if x in (0, 1):
            out.append(x)
            continue
        negd = x[0] == "~"
        a, k = x[1] if negd else x
        if a == "B" or isinstance(k, T):
            v = k
            if not isinstance(v, bool):
                return NotImplemented
            v = int(v)
        elif isinstance(a, int):
            v = (a >> k) & 1
        else:
            return NotImplemented
        out.append(1 - v if negd else v)
    return bt.value(tuple(out))


@rb("jsonok")
def _jsonok(s):
    if isinstance(s, (str, bytes)):
        try:
            json.loads(s)
            return True
        except ValueError:
            return False
    return NotImplemented


@rb("isonaive")
def _isonaive(s):
    if isinstance(s, str):
        return m_time.pydt.datetime.fromisoformat(s).tzinfo is None
    return NotImplemented


@rb("isowall")
def _isowall(s):
    if isinstance(s, str):
        n = m_time.pydt.datetime.fromisoformat(s).replace(tzinfo=None)
        return (n - m_time.pydt.datetime(1970, 1, 1)) // m_time.pydt.timedelta(microseconds=1)
    return NotImplemented


@rb("isooff")
def _isooff(s):
    if isinstance(s, str):
        o = m_time.pydt.datetime.fromisoformat(s).utcoffset()
        return NotImplemented if o is None else int(o.total_seconds() * 10**6)
    return NotImplemented


@rb("iso")
def _iso(w, off):
    if isinstance(w, int) and (off is None or isinstance(off, int)):
        return m_time.topy(w, off).isoformat()
    return NotImplemented


@rb("isoz")
def _isoz(w, off):
    if isinstance(w, int) and isinstance(off, int):
        return m_time.topy(w, off).isoformat().replace("+00:00", "Z")
    return NotImplemented


def _rm(mode, p, fl, s):
    r = pyre.compile(p, fl)
    return {"match": r.match, "search": r.search, "fullmatch": r.fullmatch}[mode](s)


@rb("rematch")
def _rematch(mode, p, fl, s):
    if isinstance(p, str) and isinstance(s, str) and isinstance(fl, int):
        return _rm(mode, p, fl, s) is not None
    return NotImplemented


@rb("regroup")
def _regroup(mode, p, fl, s, i):
    if isinstance(p, str) and isinstance(s, str) and isinstance(fl, int):
        m = _rm(mode, p, fl, s)
        return m.group(i) if m else NotImplemented
    return NotImplemented


@rb("roundn")
def _roundn(v, n):
    return round(v, n) if isinstance(v, (int, float)) and isinstance(n, int) else NotImplemented


CRCTAB = []


def crc32c(data, crc=0):
    """CRC-32C (Castagnoli), reflected polynomial 0x82F63B78"""
    if not CRCTAB:
        for i in range(256):
            c = i
            for _ in range(8):
                c = (c >> 1) ^ 0x82F63B78 if c & 1 else c >> 1
            CRCTAB.append(c)
    c = crc ^ 0xFFFFFFFF
    for b in data:
        c = CRCTAB[(c ^ b) & 255] ^ (c >> 8)
    return c ^ 0xFFFFFFFF


@rb("crc")
def _crc(c, *a):
    if isb(c) and not a:
        return crc32c(c)
    return NotImplemented
