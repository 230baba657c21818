"""Bit-vector normal form of integer terms.

An integer term is described as a finite list of bits (least significant first)
followed by an infinitely repeated sign bit; every bit is 0, 1 or a pair
(atom, k): bit k of the two's complement form of an integer atom of known range.
Two terms with the same description are equal for every value of their atoms.
"""
from .terms import *
from . import terms as tm
from . import content as ct

MAXW = 200


class NoBits(Exception):
    pass


def trim(b):
    b = list(b)
    while len(b) > 1 and b[-1] == b[-2]:
        b.pop()
    return tuple(b)


def ext(b, n):
    """first n bits, sign extended"""
    return tuple(b[i] if i < len(b) else b[-1] for i in range(n))


def cbits(v):
    out = []
    while v not in (0, -1):
        out.append(v & 1)
        v >>= 1
    out.append(0 if v == 0 else 1)
    return trim(out)


def atom_bits(a, facts=None):
    r = hull(rng(a, facts))
    if not r.parts or r.parts[0][0] is None or r.parts[0][2] is None:
        raise NoBits()
    lo, _, hi, _ = r.parts[0]
    lo, hi = math.ceil(lo), math.floor(hi)
    w = max(lo.bit_length() if lo >= 0 else (-lo - 1).bit_length(), hi.bit_length() if hi >= 0 else (-hi - 1).bit_length())
    if w > MAXW:
        raise NoBits()
    bits_ = [(a, k) for k in range(w)]
    if lo < 0 and hi < 0:
        bits_.append(1)
    elif lo < 0:
        bits_.append((a, w))
    else:
        bits_.append(0)
    return trim(bits_)


def op2(f, x, y):
    n = max(len(x), len(y))
    return trim([f(p, q) for p, q in zip(ext(x, n), ext(y, n))])


def b_not(p):
    if p in (0, 1):
        return 1 - p
    return p[1] if p[0] == "~" else ("~", p)


def b_and(p, q):
    if p == 0 or q == 0:
        return 0
    if p == 1:
        return q
    if q == 1 or p == q:
        return p
    if p == b_not(q):
        return 0
    raise NoBits()


def b_or(p, q):
    return b_not(b_and(b_not(p), b_not(q)))


def b_xor(p, q):
    if p in (0, 1):
        return b_not(q) if p else q
    if q in (0, 1):
        return b_not(p) if q else p
    if p == q:
        return 0
    if p == b_not(q):
        return 1
    raise NoBits()


def add_bits(x, y):
    """sum; only without real carries between unknown bits"""
    n = max(len(x), len(y)) + 1
    a, b = ext(x, n), ext(y, n)
    out = []
    c = 0
    for p, q in zip(a, b):
        s = [z for z in (p, q, c) if z != 0]
        ones = sum(z == 1 for z in s)
        u = [z for z in s if z != 1]
        # pairs x + ~x = 1, x + x = 2x
        if len(u) >= 2:
            if u[0] == b_not(u[1]):
                u = u[2:]
                ones += 1
            elif len(u) == 3 and (u[0] == b_not(u[2]) or u[1] == b_not(u[2])):
                u = [u[1] if u[0] == b_not(u[2]) else u[0]]
                ones += 1
        if len(u) == 0:
            out.append(ones & 1)
            c = ones >> 1
        elif len(u) == 1:
            # u + ones
            if ones == 0:
                out.append(u[0])
                c = 0
            elif ones == 1:
                out.append(b_not(u[0]))
                c = u[0]
            else:
                out.append(u[0])
                c = 1
        elif len(u) == 2 and u[0] == u[1]:
            out.append(ones & 1)
            c = u[0]
        elif len(u) == 3 and u[0] == u[1] == u[2]:
            out.append(u[0])
            c = u[0]
        else:
            raise NoBits()
    return trim(out)


def neg_bits(x):
    return add_bits(tuple(b_not(b) for b in x), cbits(1))


def set_bit(x, p, v):
    """bits x with bit p known to be v"""
    return trim([v if b == p else (1 - v if b == b_not(p) else b) for b in x])


def brange(b):
    n = len(b) - 1
    lo = sum(1 << i for i in range(n) if b[i] == 1)
    hi = sum(1 << i for i in range(n) if b[i] != 0)
    if b[-1] == 1:
        return iv(lo - (1 << n), hi - (1 << n))
    if b[-1] == 0:
        return iv(lo, hi)
    return iv(lo - (1 << n), hi)


def cond_bit(c, facts=None):
    """bit literal equivalent to the condition, or None"""
    if not isinstance(c, T):
        return None
    if c.op == "not":
        r = cond_bit(c.args[0], facts)
        return None if r is None else b_not(r)
    if c.op != "in" or vty(c.args[0]) != "int":
        return None
    q, s = c.args
    b = bits_or_none(q, facts)
    sh = 0
    if b is None:
        p = P(q)
        k = p.pop((), 0)
        if k == 0 or k.denominator != 1:
            return None
        b = bits_or_none(unP(p), facts)
        if b is None:
            return None
        sh = int(k)
    us = []
    for x in b:
        if x not in (0, 1):
            y = x[1] if x[0] == "~" else x
            if y not in us:
                us.append(y)
    if sh:
        s = scale(s, 1, -sh)
    for p in us[::-1]:
        r1 = brange(set_bit(b, p, 1))
        r0 = brange(set_bit(b, p, 0))
        if r1.subset(s) and not r0.inter(s).parts:
            return p
        if r0.subset(s) and not r1.inter(s).parts:
            return b_not(p)
    return None


def value(x):
    v = 0
    for i, b in enumerate(x[:-1]):
        v |= b << i
    if x[-1]:
        v -= 1 << (len(x) - 1)
    return v


def shift(x, n):
    if n >= 0:
        if n > MAXW:
            raise NoBits()
        return trim((0,) * n + tuple(x))
    n = -n
    return trim(tuple(x[n:]) if n < len(x) else (x[-1],))


def wrap_bits(dt, x):
    k, s = DT[dt]
    if k not in "iu":
        raise NoBits()
    w = 8 * s
    low = ext(x, w)
    return trim(low + ((low[-1],) if k == "i" else (0,)))


def byte_bits(c, facts=None):
    """bits of a content of known size, as list of byte bit lists (memory order)"""
    if isinstance(c, (bytes, bytearray)):
        return [[(b >> i) & 1 for i in range(8)] for b in c]
    if c.op == "cat":
        out = []
        for p in c.args:
            out.extend(byte_bits(p, facts))
        return out
    if c.op == "zeros" and isinstance(c.args[0], int):
        return [[0] * 8 for _ in range(c.args[0])]
    if c.op == "fld":
        code, e, v = c.args
        if code in "fde?":
            raise NoBits()
        n = ct.SIZE[code]
        b = ext(bits(v, facts), 8 * n)
        bs = [list(b[8 * i:8 * i + 8]) for i in range(n)]
        return bs[::-1] if e == ">" else bs
    if c.op == "sub":
        src, off, n = c.args
        if isinstance(off, int) and isinstance(n, int):
            if isinstance(src, T) and src.op == "sym":
                return [[(mk("unp", "B", "<", mk("sub", src, off + i, 1, ty="bytes"), ty="int"), k) for k in range(8)] for i in range(n)]
            bb = byte_bits(src, facts)
            if len(bb) >= off + n:
                return bb[off:off + n]
    if c.op == "read" and isinstance(c.args[2], int):
        src, off, n = c.args
        return [[(mk("unp", "B", "<", mk("read", src, add(off, i), 1, ty="bytes"), ty="int"), k) for k in range(8)] for i in range(n)]
    raise NoBits()


def bits(t, facts=None):
    if isinstance(t, bool):
        t = int(t)
    if isinstance(t, int):
        return cbits(t)
    if not isinstance(t, T):
        raise NoBits()
    op = t.op
    if op == "poly":
        return poly_bits(t, facts)
    if op == "wrap":
        return wrap_bits(t.args[0], bits(t.args[1], facts))
    return bits2(t, op, facts)


def poly_bits(t, facts):
    acc = cbits(0)
    terms_ = []
    for mono, c in t.args[0]:
        if c.denominator != 1:
            raise NoBits()
        c = int(c)
        if mono == ():
            terms_.append(cbits(c))
            continue
        if len(mono) != 1 or mono[0][1] != 1:
            raise NoBits()
        b = bits(mono[0][0], facts)
        if c < 0:
            b, c = neg_bits(b), -c
        k = 0
        while c:
            if c & 1:
                terms_.append(shift(b, k))
            c >>= 1
            k += 1
    terms_.sort(key=lambda b: sum(isinstance(x, tuple) for x in b))
    for b in terms_:
        acc = add_bits(acc, b)
    return acc


def opbits(t, facts):
    """operand of a bit operation; a sum whose bits are not known separately is one unknown"""
    try:
        return bits(t, facts)
    except NoBits:
        if isinstance(t, T) and t.op in ("poly", "wrap") and tm.is_int(t):
            return atom_bits(unP(P(t)), facts)
        raise


def bits2(t, op, facts):
    if op in ("band", "bor", "bxor"):
        f = {"band": b_and, "bor": b_or, "bxor": b_xor}[op]
        r = opbits(t.args[0], facts)
        for y in t.args[1:]:
            r = op2(f, r, opbits(y, facts))
        return r
    if op == "shr" and isinstance(t.args[1], int):
        return shift(bits(t.args[0], facts), -t.args[1])
    if op == "toint":
        return bits(t.args[0], facts)
    if op == "mod" and isinstance(t.args[1], int) and t.args[1] > 0 and t.args[1] & (t.args[1] - 1) == 0:
        w = t.args[1].bit_length() - 1
        return trim(ext(bits(t.args[0], facts), w) + (0,))
    if op == "floor":
        p = P(t.args[0])
        den = 1
        for c in p.values():
            den = den * c.denominator // math.gcd(den, c.denominator)
        if den & (den - 1) == 0 and den > 1:
            num = unP({m: c * den for m, c in p.items()})
            return shift(bits(num, facts), -(den.bit_length() - 1))
    if op == "unp" and t.args[0] not in ("f", "d", "e", "?"):
        code, e, c = t.args
        n = ct.SIZE[code]
        if isinstance(c, T) and c.op in ("sub", "read") and isinstance(c.args[0], T) and c.args[0].op == "sym" and n == 1 and code == "B":
            return atom_bits(t, facts)
        bb = byte_bits(c, facts)
        if len(bb) != n:
            raise NoBits()
        if e == ">":
            bb = bb[::-1]
        flat = [x for y in bb for x in y]
        return trim(flat + [flat[-1] if code.islower() else 0])
    if op == "ite":
        return op2ite(cond_bit(t.args[0], facts), bits(t.args[1], facts), bits(t.args[2], facts))
    if t.ty == "bool":
        p = cond_bit(t, facts)
        return (("B", t), 0) if p is None else (p, 0)
    return atom_bits(t, facts)


def op2ite(c, x, y):
    n = max(len(x), len(y))
    out = []
    if c is not None:
        x, y = set_bit(x, c, 1) if c[0] != "~" else set_bit(x, c[1], 0), set_bit(y, c, 0) if c[0] != "~" else set_bit(y, c[1], 1)
    for p, q in zip(ext(x, n), ext(y, n)):
        if p == q:
            out.append(p)
        elif c is not None and (p, q) == (1, 0):
            out.append(c)
        elif c is not None and (p, q) == (0, 1):
            out.append(b_not(c))
        else:
            raise NoBits()
    return trim(out)


def bits_or_none(t, facts=None):
    try:
        return bits(t, facts)
    except (NoBits, RecursionError):
        return None


def from_bits(b, facts=None):
    """canonical term of a bit list"""
    if all(x in (0, 1) for x in b):
        return value(b)
    atoms = {x[0] for x in b if isinstance(x, tuple)}
    if len(atoms) == 1:
        a = next(iter(atoms))
        if isinstance(a, T) and a.ty == "int":
            try:
                if atom_bits(a, facts) == b:
                    return a
            except NoBits:
                pass
    return mk("bv", b, ty="int")


_ar0 = tm.atom_range


def _ar(a):
    if a.op == "bv":
        return brange(a.args[0])
    return _ar0(a)


tm.atom_range = _ar


def unwrap_mod(x, size):
    """x with inner wraps of at least `size` bits removed where only the value mod 2^size matters"""
    p = P(x)
    out = 0
    ch = False
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "wrap" and c.denominator == 1 and DT[m[0][0].args[0]][0] in "iu" and DT[m[0][0].args[0]][1] >= size:
            out = add(out, mul(int(c), unwrap_mod(m[0][0].args[1], size)))
            ch = True
        else:
            out = add(out, unP({m: c}))
    return out if ch else x


def canon(t, facts=None, memo=None):
    """canonical form: wraps collapsed modulo their size, bit expressions resolved"""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(canon(x, facts, memo) for x in t)
        return t
    r = memo.get(t)
    if r is None:
        r = _canon(t, facts, memo)
        memo[t] = r
    return r


BITOPS = ("band", "bor", "bxor", "shr", "unp", "wrap", "mod", "floor", "poly", "toint")


def _canon(t, facts, memo):
    if t.ty == "int" and t.op in BITOPS and t.op != "poly" or t.op == "ite" and vty(t) == "int":
        b = bits_or_none(t, facts)
        if b is not None:
            return from_bits(b, facts)
    if t.op == "wrap" and DT[t.args[0]][0] in "iu":
        size = DT[t.args[0]][1]
        x = unwrap_mod(t.args[1], size)
        x = canon(x, facts, memo)
        x = unwrap_mod(x, size)
        lo, hi = dt_range(t.args[0])
        if rng(x, facts).subset(iv(lo, hi)):
            return x
        return mk("wrap", t.args[0], modred(x, size), ty="int")
    r = rebuild(t, lambda y: canon(y, facts, memo))
    if isinstance(r, T) and r is not t and r.op == "wrap":
        return canon(r, facts, memo) if r not in memo else memo[r]
    return r


def modred(x, size):
    m = 1 << (8 * size)
    p = {}
    for k, c in P(x).items():
        if c.denominator == 1:
            c = c % m
            if c >= m // 2:
                c -= m
            if c == 0:
                continue
        p[k] = c
    return unP(p)


def eq(a, b, facts=None):
    """equality of integer terms by canonical form"""
    x, y = canon(a, facts), canon(b, facts)
    if same(x, y):
        return True
    for x, y in ((x, y), (a, b)):
        p, q = bits_or_none(x, facts), bits_or_none(y, facts)
        if p is not None and p == q:
            return True
    return False
