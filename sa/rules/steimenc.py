"""Steim encoder rules shared by C09 (Steim1), C10 (Steim2), C11 (frames) and C12.

The encoders are interpreted over sample lists of fixed length whose differences are symbolic
within the size classes of the format (so every class boundary is a class end) or straddle
them.  The bytes they return are read back, as terms, with the layout of the format: nibbles,
sub-codes, fields, first and last sample; the differences found are compared with those of
the samples."""
from .common import *
from .steim import *
from ..decide import leafpc, Sampler, concrete
from ..terms import cases

# size classes: differences needing that many bits (positive and negative ends)
CL1 = {"a": (-128, 127), "b": (128, 32767), "B": (-32768, -129), "c": (32768, 2**26), "C": (-2**26, -32769)}
CL2 = {"4": (-8, 7), "5": (8, 15), "e": (-16, -9), "6": (16, 31), "f": (-32, -17), "8": (32, 127), "g": (-128, -33),
       "t": (128, 511), "T": (-512, -129), "q": (512, 16383), "Q": (-16384, -513), "w": (16384, 2**29 - 1), "W": (-2**29, -16385)}
CL = {10: CL1, 11: CL2}

DRV = """
from simplemseed.steim{v} import encodeSteim{v}, encodeSteim{v}FrameBlock, decodeSteim{v}

def enc(x, frames, bias):
    return bytes(encodeSteim{v}(x, frames, bias))

def encd(x):
    return bytes(encodeSteim{v}(x))

def blk(x, frames, bias):
    b = encodeSteim{v}FrameBlock(x, frames, bias)
    return (bytes(b.pack()), b.numSamples, b.getNumSamples(), b.getNumFrames(), len(b.getSteimFrames()), bytes(b.getEncodedData()))

def loop(x, n):
    out = decodeSteim{v}(encodeSteim{v}(x), n)
    return tuple([out[i] for i in range(n)])
"""


def names(e, pat, p=""):
    """symbolic differences; the widest class is narrowed when many of them would leave 32 bits"""
    out = []
    for i, c in enumerate(pat):
        a, b = CL[e][c] if isinstance(c, str) else c
        if isinstance(c, str) and c in "wW" and len(pat) > 2:
            a, b = max(a, -2**26), min(b, 2**26)
        out.append(sym(f"{p}d{i}", "int", a, b))
    return out


def running(ds, start=0):
    out, x = [], start
    for d in ds:
        x = add(x, d)
        out.append(x)
    return out


class Undet(Exception):
    pass


class Bad(Exception):
    pass


def const(x, F):
    if isinstance(x, T):
        x = simp(x, F)
    if isinstance(x, T):
        from .. import bits as bt
        try:
            v = bt.canon(x, F)
            x = v if isinstance(v, int) else x
        except bt.NoBits:
            pass
    if isinstance(x, T):
        raise Undet(show(x)[:200])
    return int(x)


def parse(e, c, F):
    """content -> (differences, first sample, last sample, nibble of every word) by the format"""
    n = const(ct.clen(c, F), F)
    if n % 64:
        raise Bad(f"{n} bytes, not whole frames")
    if n == 0:
        raise Bad("no frame")
    diffs, codes = [], []
    for fr in range(n // 64):
        nib = const(u("I", ">", c, 64 * fr, F), F)
        for i in range(16):
            k = (nib >> (30 - 2 * i)) & 3
            codes.append(k)
            if i == 0 or fr == 0 and i < 3:
                if k:
                    raise Bad(f"nibble {k} for word {i} of frame {fr}")
                continue
            if k == 0:
                continue
            w = u("I", ">", c, 64 * fr + 4 * i, F)
            code = k
            if e == 11 and k > 1:
                code = (k, const(shr(w, 30), F))
                if code not in FORM2:
                    raise Bad(f"unused sub-code {code} in word {i} of frame {fr}")
            xs = [u("i", ">", c, 64 * fr + 4 * i, F)] if e == 10 and code == 3 else fields(e, code, w)
            diffs += [(x, code, 16 * fr + i, j) for j, x in enumerate(xs)]
    return diffs, u("i", ">", c, 4, F), u("i", ">", c, 8, F), codes


def pyfield(w, pos, b):
    v = (w >> pos) & ((1 << b) - 1)
    return v - (1 << b) if v >> (b - 1) else v


def concrete_bad(e, data, xs, bias, stored):
    """what is wrong with encoded bytes data for samples xs, or None (all concrete)"""
    import struct as S
    try:
        df, x0, xn, codes = parse(e, data, NOF)
    except (Bad, Undet) as ex:
        return str(ex)
    n = len(xs) if stored is None else stored
    if len(df) < n or len(df) > n and (e == 11 or df[n - 1][2] != df[-1][2] or df[-1][1] != 1):
        return f"{len(df)} differences for {n} samples"
    prev = bias
    m = 0xFFFFFFFF
    for i in range(n):
        if (df[i][0] - (xs[i] - prev)) & m:
            return f"difference {i} stored as {df[i][0]}, is {xs[i] - prev}"
        prev = xs[i]
    if (x0 - xs[0]) & m:
        return f"first sample stored as {x0}, is {xs[0]}"
    if (xn - xs[n - 1]) & m:
        return f"last sample stored as {xn}, is {xs[n - 1]}"
    return None


def sampled(ctx, rule, lab, w, e, c, xs, bias, stored, st):
    """random interpretation of the encoder's result"""
    sm = Sampler([c, tuple(xs), bias], st.facts, 3, list(st.pc))
    for _ in range(200):
        env = sm.env()
        memo = {}
        try:
            if not all(concrete(q, env, memo) is True for q in st.pc if isinstance(q, T)):
                continue
            data = concrete(c, env, memo)
            vals = [int(concrete(x, env, memo)) for x in xs]
            b = int(concrete(bias, env, memo))
            ns = None if stored is None else int(concrete(stored, env, memo))
        except (ArithmeticError, ValueError, TypeError, IndexError, KeyError, RecursionError, Budget):
            continue
        if not isinstance(data, bytes):
            continue
        why = concrete_bad(e, data, vals, b, ns)
        if why:
            return ctx.ok(rule, lab, w, False, f"{why} for samples {vals[:12]}")
    return ctx.ok(rule, lab, w, None, "not decided, no counterexample found")


def check_bytes(ctx, rule, lab, w, e, c, xs, bias, st, stored=None):
    """encoded content c holds samples xs (the first `stored` of them)"""
    try:
        leaves = cases((c, stored), st.facts, 64)
    except (Budget, RecursionError):
        return sampled(ctx, rule, lab + ": layout", w, e, c, xs, bias, stored, st)
    for f, (cc, ns) in leaves:
        if f.dead:
            continue
        try:
            n = len(xs) if ns is None else const(ns, f)
            df, x0, xn, codes = parse(e, cc, f)
            if len(df) < n:
                raise Bad(f"{len(df)} differences for {n} samples")
            if len(df) > n and (e == 11 or df[n - 1][2] != df[-1][2] or df[-1][1] != 1):
                raise Bad(f"{len(df)} differences for {n} samples")
            if n < 1:
                raise Bad("no sample stored")
        except (Bad, Undet) as ex:
            return sampled(ctx, rule, lab + ": layout", w, e, c, xs, bias, stored, st)
        pc = list(st.pc) + list(leafpc(f, st.facts))
        prev = bias
        want = []
        for i in range(n):
            want.append(sub(xs[i], prev))
            prev = xs[i]
        for i in range(n):
            ctx.eq(rule, f"{lab}: difference {i}", w, wrap("int32", df[i][0]), wrap("int32", want[i]), facts=f, pc=pc)
        ctx.eq(rule, f"{lab}: first sample", w, wrap("int32", x0), wrap("int32", xs[0]), facts=f, pc=pc)
        ctx.eq(rule, f"{lab}: last sample", w, wrap("int32", xn), wrap("int32", xs[n - 1]), facts=f, pc=pc)


def patterns1():
    """orders of difference sizes in and across words"""
    import itertools
    flip = {"b": "B", "c": "C"}
    out = []
    for n in (1, 2, 3, 4):
        for p in itertools.product("abc", repeat=n):
            out.append("".join(flip.get(x, x) if i % 2 else x for i, x in enumerate(p)))
    out += ["B", "C", "BB", "CC", "aBb", "BaC", "aaaB", "aaaC", "aabB", "aaaaa", "aaaab", "aaaaaaaaa", "abababab", "cbabc", "aaabaaa", "bbbbb", "ccccc", "BBBB", "CCCC"]
    return out


def patterns2():
    pos = "45468tqw"
    sizes = ["4", "5", "6", "8", "t", "q", "w"]
    neg = {"5": "e", "6": "f", "8": "g", "t": "T", "q": "Q", "w": "W"}
    out = []
    for s in sizes:
        for n in range(1, 9):
            out.append(s * n)
            if s in neg:
                out.append(neg[s] * n)
    for a, lo in enumerate(sizes):
        for hi in sizes[a + 1:]:
            for p in range(7):
                z = list(lo * 7)
                z[p] = hi if p % 2 else neg[hi]
                out.append("".join(z))
    for a, hi in enumerate(sizes):
        out.append(hi + "4" * 6)
        out.append("4" * 6 + hi + "44")
    seen = []
    for p in out:
        if p not in seen:
            seen.append(p)
    return seen


STRADDLE = {10: [(126, 129), (-130, -127), (32766, 32769), (-32770, -32767), (-2**31, 2**31 - 1)],
            11: [(6, 9), (-10, -7), (14, 17), (-18, -15), (30, 33), (-34, -31), (126, 129), (-130, -127), (510, 513), (-514, -511),
                 (16382, 16385), (-16386, -16383), (2**29 - 2, 2**29 - 1), (-2**29, -2**29 + 1), (-2**29, 2**29 - 1)]}


def encoders(ctx, P, e):
    v = e - 9
    d = ctx.driver(DRV.format(v=v))
    w = ctx.where(ctx.get(f"steim{v}:encodeSteim{v}FrameBlock"))
    R = f"{P}.encode"
    pats = patterns1() if e == 10 else patterns2()
    for pat in pats:
        attempt(ctx, R, f"sizes {pat}", w, lambda: pattern(ctx, d, R, w, e, pat))
    for rg in STRADDLE[e]:
        for n in (1, 2, 3):
            if n > 1 and rg[1] - rg[0] > 2**29 or n == 3 and (e == 11 or abs(rg[0]) > 1000) and ctx.tier == "quick":
                continue
            attempt(ctx, R, f"{n} differences in {rg}", w, lambda: straddle(ctx, d, R, w, e, rg, n))
    for pat in (["aabBc", "aaaa"] if e == 10 else ["4444444", "8tqw", "55555"]):
        attempt(ctx, R, f"bias {pat}", w, lambda: bias_(ctx, d, R, w, e, pat))
        attempt(ctx, R, f"loop {pat}", w, lambda: loop(ctx, d, R, w, e, pat))
    for k in range(3):
        attempt(ctx, R, f"many frames {k}", w, lambda: many(ctx, d, R, w, e, k))
    attempt(ctx, R, "wrap", w, lambda: wrapped(ctx, d, R, w, e))
    if e == 11:
        attempt(ctx, R, "beyond 30 bits", w, lambda: toobig(ctx, d, R, w))


def pattern(ctx, d, R, w, e, pat):
    ds = names(e, pat)
    xs = running(ds)
    for kn in ("numpy", "list"):
        st = ctx.state()
        data = m_np.new_items(xs, m_np.dtype("int32", "<"), st, None) if kn == "numpy" else ctx.I.new_list(list(xs), st)
        r = ctx.run(d["encd"], [data], st=st)
        lab = f"sizes {pat} {kn}"
        if ctx.returns(R, f"{lab}: encodes", w, r):
            check_bytes(ctx, R, lab, w, e, r.value, xs, 0, r.state)
        if len(pat) > 3:
            break


def straddle(ctx, d, R, w, e, rg, n):
    ds = names(e, [rg] + [(-3, 3)] * (n - 2) + [rg] * (n > 1))
    xs = running(ds)
    if rg[1] - rg[0] > 2**29:
        xs = [sym(f"x{i}", "int", *rg) for i in range(n)]
    st = ctx.state()
    data = m_np.new_items(xs, m_np.dtype("int32", "<"), st, None)
    r = ctx.run(d["encd"], [data], st=st)
    lab = f"{n} differences in {rg}"
    if ctx.returns(R, f"{lab}: encodes", w, r):
        check_bytes(ctx, R, lab, w, e, r.value, xs, 0, r.state)


def bias_(ctx, d, R, w, e, pat):
    for b in (7, -100000, sym("bias", "int", -1000, 1000)):
        ds = names(e, pat)
        xs = running(ds, b)
        st = ctx.state()
        data = m_np.new_items(xs, m_np.dtype("int32", "<"), st, None)
        r = ctx.run(d["enc"], [data, 0, b], st=st)
        lab = f"sizes {pat} bias {show(b)}"
        if ctx.returns(R, f"{lab}: encodes", w, r):
            check_bytes(ctx, R, lab, w, e, r.value, xs, b, r.state)


def loop(ctx, d, R, w, e, pat):
    ds = names(e, pat)
    xs = running(ds)
    st = ctx.state()
    data = m_np.new_items(xs, m_np.dtype("int32", "<"), st, None)
    r = ctx.run(d["loop"], [data, len(xs)], st=st)
    lab = f"sizes {pat} decoded again"
    if ctx.returns(R, f"{lab}: works", w, r):
        for i, x in enumerate(xs):
            ctx.eq(R, f"{lab}: sample {i}", w, wrap("int32", r.value[i]), wrap("int32", x), r.state)


def wrapped(ctx, d, R, w, e):
    """neighbouring samples at opposite ends of the 32-bit range"""
    for lab, a, b in (("top to bottom", (2**31 - 4, 2**31 - 1), (-2**31, -2**31 + 3)), ("bottom to top", (-2**31, -2**31 + 3), (2**31 - 4, 2**31 - 1))):
        first = sym("x0", "int", *a)
        second = sym("x1", "int", *b)
        st = ctx.state()
        data = m_np.new_items([first, second], m_np.dtype("int32", "<"), st, None)
        bias = first if e == 11 else 0
        r = ctx.run(d["enc"], [data, 0, bias], st=st)
        if e == 11 and not r.alive:
            ctx.never_returns(R, f"{lab}: refused", w, r, STEIMERR)
        elif ctx.returns(R, f"{lab}: encodes", w, r):
            check_bytes(ctx, R, lab, w, e, r.value, [first, second], bias, r.state)


def toobig(ctx, d, R, w):
    big = [(2**29, 2**30), (-2**30, -2**29 - 1)]
    for rg in big:
        for pat, n in (([rg], 1), (["4", rg], 2), (["4", "4", "4", rg, "4"], 5), (["4"] * 7 + [rg], 8), (["w", rg], 2)):
            if pat[0] == "w" and rg[0] > 0:
                pat = ["W", rg]
            xs = running(names(11, pat))
            for kn in ("numpy", "list"):
                st = ctx.state()
                data = m_np.new_items(xs, m_np.dtype("int32", "<"), st, None) if kn == "numpy" else ctx.I.new_list(list(xs), st)
                r = ctx.run(d["encd"], [data], st=st)
                ctx.never_returns(R, f"{n} samples ({kn}) with a difference in {rg}", w, r, STEIMERR)


def many(ctx, d, R, w, e, k):
    """a long constant series: quiet, growing, and with the extremes of every size"""
    from .steimdec import lcg
    g = lcg(k + 3)
    ds = []
    for i in range(280):
        if k == 0:
            b = 4
        elif k == 1:
            b = (4, 5, 6, 8, 10, 15, 16, 30)[i // 30 % 8]
        else:
            b = (4, 5, 6, 8, 10, 15, 16, 24)[next(g) % 8]
        v = (-2**(b - 1), 2**(b - 1) - 1, -1, 0)[next(g) % 4] if next(g) % 3 == 0 else next(g) % 2**b - 2**(b - 1)
        ds.append(v)
    xs, prev = [], 0
    for v in ds:
        v = v if -2**31 <= prev + v < 2**31 else -v
        prev = max(-2**31, min(2**31 - 1, prev + v))
        xs.append(prev)
    un = ctx.I.unroll
    ctx.I.unroll = 3000
    try:
        for kn in ("numpy", "list"):
            st = ctx.state()
            data = m_np.new_items(xs, m_np.dtype("int32", "<"), st, None) if kn == "numpy" else ctx.I.new_list(list(xs), st)
            lab = f"many frames {k} {kn}"
            r = ctx.run(d["encd"], [data], st=st)
            if ctx.returns(R, f"{lab}: encodes", w, r):
                c = content_of(r.value, r.state)
                if not isinstance(c, bytes):
                    ctx.ok(R, f"{lab}: layout", w, None, "not constant")
                    continue
                why = concrete_bad(e, c, xs, 0, None)
                ctx.ok(R, f"{lab}: holds the samples", w, not why, str(why))
            st = ctx.state()
            data = m_np.new_items(xs, m_np.dtype("int32", "<"), st, None) if kn == "numpy" else ctx.I.new_list(list(xs), st)
            r = ctx.run(d["loop"], [data, len(xs)], st=st)
            if ctx.returns(R, f"{lab}: reads back", w, r):
                ctx.ok(R, f"{lab}: same samples", w, [int(concrete(x, {}, {})) for x in r.value] == xs, "other samples")
    finally:
        ctx.I.unroll = un
