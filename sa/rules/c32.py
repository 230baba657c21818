"""C32: extra headers.  A record given extra headers in each way there is (constructor, set, read
from bytes; as text, dict, list, empty text or nothing) is driven through every sequence of
operations up to a length (read, set, delete, change in place, test, pack); what each operation
gives is compared with a reference that holds the plain JSON value.  The packed bytes are read
back and their section lengths compared."""
import itertools
import json
from .common import *
from .c16 import M_freeze, jd
from .. import m_misc

DRV = """
from simplemseed.mseed3 import MSeed3Header, MSeed3Record, unpackMSeed3Record

def make(how, v):
    h = MSeed3Header()
    h.starttime = "2024-01-02T03:04:05Z"
    h.sampleRatePeriod = 20
    if how == "ctor":
        return MSeed3Record(h, "FDSN:XX_ABC__B_H_Z", [1, 2, 3], extraHeaders=v)
    if how == "set":
        r = MSeed3Record(h, "FDSN:XX_ABC__B_H_Z", [1, 2, 3])
        r.eh = v
        return r
    r = MSeed3Record(h, "FDSN:XX_ABC__B_H_Z", [1, 2, 3], extraHeaders=v)
    return unpackMSeed3Record(r.pack())

def ops(how, v, word, more):
    r = make(how, v)
    out = []
    i = 0
    for c in word:
        if c == "r":
            out.append(r.eh)
        elif c == "h":
            out.append(r.hasExtraHeaders())
        elif c == "d":
            del r.eh
            out.append(None)
        elif c == "s":
            r.eh = more[i]
            i = i + 1
            out.append(None)
        elif c == "m":
            r.eh["added"] = 7
            out.append(None)
        elif c == "p":
            b = bytes(r.pack())
            q = unpackMSeed3Record(b)
            out.append((q.eh, q.hasExtraHeaders(), len(b), 40 + q.header.identifierLength + q.header.extraHeadersLength + q.header.dataLength, r.getSize(), r.header.extraHeadersLength == q.header.extraHeadersLength, q.header.identifierLength, q.header.dataLength))
        elif c == "c":
            r = r.clone()
            out.append(None)
    return out

def text(how, v):
    r = make(how, v)
    a = r.eh
    b = r.eh
    return (a, b)

def packed(how, v):
    r = make(how, v)
    return bytes(r.pack())

def twice(how, v):
    r = make(how, v)
    a = bytes(r.pack())
    return (a, bytes(r.pack()))
"""
VALS = [{}, {"a": 1}, {"FDSN": {"Time": {"Quality": 100, "Correction": 1.5}}, "x": [1, 2, {"y": None}]}, {"\u00e9": "\u4e2d\"\\\n\t/", "": True, "f": False, "n": None}, {"big": 12345678901234567890, "neg": -0.125, "e": 1e-7, "l": [], "d": {}}, [1, "two"], {"sp ace": {"k": [[], [[1.5]]]}}]


def check(ctx):
    d = ctx.driver(DRV)
    w = ctx.where(ctx.prop_fn("mseed3:MSeed3Record.eh", "fget"))
    deep = ctx.tier == "thorough"
    for how in ("ctor", "set", "read"):
        for k in (0, 1, 3):
            attempt(ctx, "C32.words", f"{how} spaced {k}", w, lambda: words(ctx, d, w, how, "spaced", VALS[k], "rhp", 2))
        for kind_ in ("text", "python"):
            for k, v in enumerate(VALS):
                attempt(ctx, "C32.words", f"{how} {kind_} {k}", w, lambda: words(ctx, d, w, how, kind_, v, "rhdspmc" if deep or k < 3 else "rhdspm", 3 if deep or k < 3 else 2))
        attempt(ctx, "C32.words", f"{how} empty text", w, lambda: words(ctx, d, w, how, "empty", {}, "rhdspmc", 3))
        attempt(ctx, "C32.words", f"{how} nothing", w, lambda: words(ctx, d, w, how, "nothing", None, "rhdspc", 3))
        attempt(ctx, "C32.texts", f"{how}", w, lambda: texts(ctx, d, w, how))
    for n, k in (("words", 10000), ("texts", 12)):
        ctx.floor("C32." + n, k)


def give(ctx, kind_, v, st):
    if kind_ == "empty":
        return ""
    if kind_ == "nothing":
        return None
    if kind_ == "spaced":
        return " " + json.dumps(v, indent=1) + " \n"
    return json.dumps(v, ensure_ascii=False) if kind_ == "text" else m_misc.from_py(ctx.I, v, st, None)


NEXT = [("text", {"n": 1, "\u00fc": "\u20ac"}), ("python", {"m": {"k": [2]}}), ("nothing", None), ("empty", {}), ("text", {})]


def words(ctx, d, w, how, kind_, v, alpha, n):
    R = "C32.words"
    rot = 0
    for ln in range(1, n + 1):
        for word in itertools.product(alpha, repeat=ln):
            cur = json.loads(json.dumps(v)) if v is not None else {} if how == "read" else None
            want, more, ok = [], [], True
            for c in word:
                if c == "r":
                    want.append(("value", cur))
                elif c == "h":
                    want.append(("flag", cur is not None and cur != {}))
                elif c == "d":
                    cur = None
                    want.append(None)
                elif c == "s":
                    x = NEXT[rot % len(NEXT)]
                    rot += 1
                    more.append(x)
                    cur = json.loads(json.dumps(x[1]))
                    want.append(None)
                elif c == "m":
                    if not isinstance(cur, dict):
                        ok = False
                        break
                    cur = dict(cur, added=7)
                    want.append(None)
                elif c == "p":
                    want.append(("packed", {} if cur is None else cur))
                elif c == "c":
                    cur = {} if cur is None else cur
                    want.append(None)
            if not ok:
                continue
            word = "".join(word)
            st = ctx.state()
            r = ctx.run(d["ops"], [how, give(ctx, kind_, v, st), word, tuple(give(ctx, k, x, st) for k, x in more)], st=st)
            con = f"{how} {kind_} {json.dumps(v)[:40]}: {word} {'/'.join(k for k, x in more)}"
            if not ctx.returns(R, f"{con}: returns", w, r):
                continue
            got = r.state.heap[r.value]["items"]
            for i, x in enumerate(want):
                if x is None:
                    continue
                g = got[i]
                if x[0] == "value":
                    if i == max(j for j, y in enumerate(want) if y and y[0] == "value") and "m" not in word[i:]:
                        ctx.eq(R, f"{con}: {i} reads as set", w, M_freeze(g, r.state), jd(x[1]), r.state)
                elif x[0] == "flag":
                    ctx.eq(R, f"{con}: {i} has extra headers", w, g, x[1], r.state)
                else:
                    ctx.eq(R, f"{con}: {i} written when packed", w, M_freeze(g[0], r.state), jd(x[1]), r.state)
                    ctx.eq(R, f"{con}: {i} packed test", w, g[1], x[1] != {}, r.state)
                    ctx.eq(R, f"{con}: {i} packed sizes", w, (g[2], g[3], g[4], g[5], g[6], g[7]), (g[3], g[2], g[2], True, 18, 12), r.state)


def texts(ctx, d, w, how):
    """any text that is JSON"""
    R = "C32.texts"
    for lab, s in (("any JSON object", sym("eh", "str", jobj=True)), ("any text", sym("eh", "str"))):
        for fn in ("text",) if lab == "any JSON object" else ():
            r = ctx.run(d[fn], [how, s])
            con = f"{how} {lab} ({fn})"
            if not ctx.completes(R, f"{con}: returns", w, r):
                continue
            ctx.eq(R, f"{con}: reads the same twice", w, M_freeze(r.value[0], r.state), M_freeze(r.value[1], r.state), r.state)
        r = ctx.run(d["packed"], [how, s])
        con = f"{how} {lab} (packed)"
        if ctx.completes(R, f"{con}: returns", w, r):
            n = ct.clen(utf8(ctx, s), r.state.facts)
            ctx.eq(R, f"{con}: is written as given", w, sl(content_of(r.value, r.state), 58, n, r.state.facts), utf8(ctx, s), r.state)
        r = ctx.run(d["twice"], [how, s])
        if ctx.completes(R, f"{con}: twice", w, r):
            ctx.eq(R, f"{con}: twice the same", w, content_of(r.value[0], r.state), content_of(r.value[1], r.state), r.state)
