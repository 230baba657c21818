"""C11: the encoders are interpreted over sample lists whose differences are symbolic within
one size class (and mixtures of classes), with word counts at, just under and just over whole
frames, without a frame limit and with limits of 1 to 3; the frames, their nibbles, first and
last sample constants and the reported sample count are compared with the format's.  The frame
container is also interpreted on its own, over symbolic words and sample counts and every
nibble at every position."""
from .common import *
from .steim import *
from .steimenc import DRV, CL, Bad, Undet, parse, const, names, running, check_bytes

BLK = """
from simplemseed.steimframeblock import SteimFrameBlock

def build(limit, version, ws, ns, nibs):
    b = SteimFrameBlock(limit, version)
    full = []
    for i in range(len(ws)):
        full.append(b.addEncodedWord(ws[i], ns[i], nibs[i]))
    return (bytes(b.pack()), b.numSamples, b.getNumSamples(), len(b.getSteimFrames()), bytes(b.getEncodedData()), tuple(full), b.getSteimVersion())

def unlimited(version, ws, ns, nibs):
    b = SteimFrameBlock(steimVersion=version)
    for i in range(len(ws)):
        b.addEncodedWord(ws[i], ns[i], nibs[i])
    return (bytes(b.pack()), b.getNumSamples(), b.getNumFrames(), bytes(b.getEncodedData()))

def setn(ws, x):
    b = SteimFrameBlock(0, 1)
    for w in ws:
        b.addEncodedWord(w, 1, 3)
    b.setXsubN(x)
    return bytes(b.pack())
"""

# samples per word of a run of one class; the narrow parts of the widest classes
PER = {10: {"a": 4, "b": 2, "c": 1, "B": 2, "C": 1}, 11: {"4": 7, "5": 6, "6": 5, "8": 4, "t": 3, "q": 2, "w": 1, "W": 1}}


def words(n):
    """number of frames needed for n words"""
    return 1 + max(0, -(-(n - 13) // 15))


def cap(limit):
    return 13 + 15 * (limit - 1)


def check(ctx):
    ctx.I.unroll = 400
    for e in (10, 11):
        v = e - 9
        d = ctx.driver(DRV.format(v=v))
        w = ctx.where(ctx.get(f"steim{v}:encodeSteim{v}FrameBlock"))
        for c, per in PER[e].items():
            for nw in (1, 12, 13, 14, 27, 28, 29) if per < 3 else (12, 13, 14, 28, 29) if ctx.tier != "quick" else (13, 14):
                attempt(ctx, "C11.encode", f"{e} {nw} words of {c}", w, lambda: run_of(ctx, d, w, e, c, per, nw))
        for k, pat in enumerate(mixed(e)):
            attempt(ctx, "C11.encode", f"{e} mixed {k}", w, lambda: one(ctx, d, w, e, f"mixed {k}", pat, (0, 1, 2)))
        attempt(ctx, "C11.encode", f"{e} refusals", w, lambda: refuse(ctx, d, w))
    b = ctx.driver(BLK)
    w = ctx.where(ctx.get("steimframeblock:SteimFrameBlock.addEncodedWord"))
    for limit in (0, 1, 2, 3):
        for n in (1, 2, 3, 14, 15, 16, 17, 29, 30, 31, 44, 45, 46):
            for k in range(4):
                attempt(ctx, "C11.block", f"limit {limit} {n} words nibbles {k}", w, lambda: block(ctx, b, w, limit, n, k))
    for n in (1, 3, 15, 16, 31):
        attempt(ctx, "C11.block", f"unlimited {n} words", w, lambda: unlimited(ctx, b, w, n))
        attempt(ctx, "C11.block", f"setXsubN {n} words", w, lambda: setn(ctx, b, w, n))
    ctx.floor("C11.encode", 1000)
    ctx.floor("C11.block", 300)


def mixed(e):
    """orders of sizes whose frame limit falls inside, before and after a wide word"""
    if e == 10:
        return ["c" * 12 + "bB" + "c" * 3, "c" * 12 + "aaaa" + "C" * 3, "c" * 13 + "aaaa", "bB" * 6 + "C" + "bB" * 15, "aaaa" * 6 + "C" * 7 + "bB" * 3, "c" * 11 + "abc" * 2, "C" * 27 + "bB" + "bB"]
    return ["w" * 12 + "qQ" + "w" * 3, "w" * 12 + "4444444" + "w" * 3, "w" * 13 + "5" * 6, "qQ" * 6 + "W" + "tTt" * 15, "6" * 5 + "w" * 11 + "8888" + "w" * 2, "W" * 11 + "t8Tw4" * 2, "w" * 27 + "555555" + "66666"]


def samples_of(e, pat):
    ds = []
    for i, c in enumerate(pat):
        a, b = CL[e][c]
        if c in "cCwW":   # keep sums within 32 bits
            a, b = (max(a, -2**19), min(b, 2**19))
        ds.append(sym(f"d{i}", "int", a, b))
    return running(ds)


def run_of(ctx, d, w, e, c, per, nw):
    for extra in (0,) if per == 1 else (0, 1):
        n = per * nw + extra
        flip = {"b": "B", "c": "C", "t": "T", "q": "Q", "w": "W"}
        pat = "".join(c if i % 2 else flip.get(c, c) for i in range(n))
        one(ctx, d, w, e, f"{nw} words of {c}{' and 1 sample' if extra else ''}", pat, (0, 1, 2, 3) if per < 3 else (0, 1) if per < 5 or ctx.tier != "quick" else (1,))


def one(ctx, d, w, e, lab, pat, limits):
    xs = samples_of(e, pat)
    for limit in limits:
        l2 = f"Steim{e - 9} {lab} limit {limit}"
        st = ctx.state()
        data = m_np.new_items(xs, m_np.dtype("int32", "<"), st, None)
        r = ctx.run(d["blk"], [data, limit, 0], st=st)
        if not ctx.returns("C11.encode", f"{l2}: encodes", w, r):
            continue
        data, ns, gns, nf, nfl, enc = r.value
        st = r.state
        ctx.eq("C11.encode", f"{l2}: numSamples and getNumSamples agree", w, ns, gns, st)
        ctx.eq("C11.encode", f"{l2}: bytes are the frames", w, ct.clen(data), mul(64, nfl), st)
        ctx.eq("C11.encode", f"{l2}: getEncodedData starts with the frames", w, ct.slice_(enc, 0, ct.clen(data), st.facts), data, st)
        try:
            n, fr = const(ns, st.facts), const(nfl, st.facts)
            df, x0, xn, codes = parse(e, data, st.facts)
        except Bad as ex:
            ctx.ok("C11.encode", f"{l2}: layout", w, False, str(ex))
            continue
        except Undet as ex:
            ctx.ok("C11.encode", f"{l2}: layout", w, None, f"not followed: {ex}")
            continue
        used = max((i for i, k in enumerate(codes) if k), default=0)
        ctx.ok("C11.encode", f"{l2}: within the limit", w, limit == 0 or fr <= limit, f"{fr} frames")
        ctx.ok("C11.encode", f"{l2}: a frame only when the ones before are full", w, fr == used // 16 + 1 and all(k for i, k in enumerate(codes[:used + 1]) if i % 16 and i > 2), f"{fr} frames, words in use {[i for i, k in enumerate(codes) if k][-3:]}")
        full = limit and used >= 16 * limit - 1
        ctx.ok("C11.encode", f"{l2}: stores everything unless full", w, n == len(xs) or full and 0 < n < len(xs), f"{n} of {len(xs)} samples")
        if full and n < len(xs):
            ctx.ok("C11.encode", f"{l2}: count is that of the words", w, len(df) == n, f"{len(df)} differences, {n} samples reported")
        check_bytes(ctx, "C11.encode", l2, w, e, data, xs, 0, st, stored=n)


def refuse(ctx, d, w):
    for lab, x, limit in (("no samples", [], 0), ("a negative limit", [1, 2], -1)):
        for kn in ("numpy", "list"):
            st = ctx.state()
            data = m_np.new_items(x, m_np.dtype("int32", "<"), st, None) if kn == "numpy" else ctx.I.new_list(list(x), st)
            r = ctx.run(d["blk"], [data, limit, 0], st=st)
            ctx.never_returns("C11.encode", f"{lab} ({kn}) refused", w, r, STEIMERR)


def content(n, ws, nibs):
    """n words and their nibbles laid out in frames"""
    out = []
    for fr in range((n + 14) // 15):
        nib, row = 0, []
        for i in range(15):
            k = 15 * fr + i
            if k < n:
                nib = add(nib, mul(nibs[k], 4 ** (14 - i)))
                row.append(ct.fld("i", ">", ws[k]))
            else:
                row.append(b"\0" * 4)
        out += [ct.fld("I", ">", nib)] + row
    return ct.cat(*out)


def inputs(ctx, st, n, k=0):
    ws = [sym(f"w{i}", "int", -2**31, 2**31 - 1) for i in range(n)]
    ns = [sym(f"n{i}", "int", 0, 7) for i in range(n)]
    nibs = [(i * (1, 3, 0, 2)[k] + (i // 4 if k == 3 else 0) + k) % 4 for i in range(n)]
    return ws, ns, nibs, [m_np.new_items(ws, m_np.dtype("int32", "<"), st, None), ctx.I.new_list(ns, st), ctx.I.new_list(nibs, st)]


def same_content(ctx, rule, lab, w, got, want, st):
    n = ct.clen(want)
    ctx.eq(rule, f"{lab}: length", w, ct.clen(got), n, st)
    if ct.clen(got) != n:
        return
    for off in range(0, n, 4):
        ctx.eq(rule, f"{lab}: word {off // 4}", w, u("I", ">", got, off, st.facts), u("I", ">", want, off, st.facts), st)


def block(ctx, b, w, limit, n, k):
    room = 15 * limit
    if limit and n > room:
        return
    st = ctx.state()
    ws, ns, nibs, args = inputs(ctx, st, n, k)
    r = ctx.run(b["build"], [limit, 2] + args, st=st)
    lab = f"limit {limit} {n} words nibbles {k}"
    if not ctx.returns("C11.block", f"{lab}: works", w, r):
        return
    st = r.state
    data, num, gnum, nf, enc, full, ver = r.value
    want = content(n, ws, nibs)
    same_content(ctx, "C11.block", lab, w, data, want, st)
    same_content(ctx, "C11.block", f"{lab} getEncodedData", w, ct.slice_(enc, 0, ct.clen(want), st.facts), want, st)
    tot = 0
    for x in ns:
        tot = add(tot, x)
    ctx.eq("C11.block", f"{lab}: sample count", w, num, tot, st)
    ctx.eq("C11.block", f"{lab}: getNumSamples", w, gnum, tot, st)
    ctx.eq("C11.block", f"{lab}: frames", w, nf, (n + 14) // 15, st)
    ctx.eq("C11.block", f"{lab}: version", w, ver, 2, st)
    for i, g in enumerate(full):
        ctx.eq("C11.block", f"{lab}: full after word {i}", w, g, bool(limit and i + 1 == room), st)


def unlimited(ctx, b, w, n):
    st = ctx.state()
    ws, ns, nibs, args = inputs(ctx, st, n)
    r = ctx.run(b["unlimited"], [1] + args, st=st)
    lab = f"default limit {n} words"
    if not ctx.returns("C11.block", f"{lab}: works", w, r):
        return
    data, num, nf, enc = r.value
    want = content(n, ws, nibs)
    same_content(ctx, "C11.block", lab, w, data, want, r.state)
    same_content(ctx, "C11.block", f"{lab} getEncodedData", w, enc, want, r.state)
    ctx.eq("C11.block", f"{lab}: frames", w, nf, (n + 14) // 15, r.state)


def setn(ctx, b, w, n):
    if n < 2:
        return
    st = ctx.state()
    ws, ns, nibs, args = inputs(ctx, st, n)
    x = sym("last", "int", -2**31, 2**31 - 1)
    r = ctx.run(b["setn"], [args[0], x], st=st)
    lab = f"setXsubN {n} words"
    if ctx.returns("C11.block", f"{lab}: works", w, r):
        ws = ws[:1] + [x] + ws[2:]
        same_content(ctx, "C11.block", lab, w, r.value, content(n, ws, [3] * n), r.state)
