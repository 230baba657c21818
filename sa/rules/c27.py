"""C27: do_set_eh is interpreted over a modelled file system (names, inodes, buffered writes
committed on flush or close, rename, remove, copy) holding files of several records with symbolic
payloads.  After it returns each file is read back with the library's reader and compared record by
record with what the option asked for; at every event on the way (open, write, close, rename,
remove, copy) each file must hold either its complete old or its complete new content, and when the
function raises the files must hold their old content."""
import json
import re
from .common import *
from .c16 import M_freeze, jd
from .c17 import build, ID, OT
from .. import m_misc
from ..m_time import dt

DRV = """
from io import BytesIO
from simplemseed.mseed3 import readMSeed3Records
from simplemseed.mseed3details import do_set_eh

def edit(ptr, val, files, matchsid=None, setall=False, verbose=False):
    do_set_eh(ptr, val, files, matchsid=matchsid, setall=setall, verbose=verbose)

def every(c):
    out = []
    for r in readMSeed3Records(BytesIO(c)):
        h = r.header
        out.append((r.identifier, h.encoding, h.publicationVersion, h.numSamples, h.sampleRatePeriod, h.starttime, h.flags, r.eh if r.hasExtraHeaders() else {}, bytes(r.encodedDataBytes())))
    return out
"""
E1 = '{"FDSN":{"Time":{"Quality":90}},"list":[1,{"a":2}]}'
E2 = '{"bag": {"y": {"si": 22.0}}, "text": "\\u00e9~/", "n": null}'
E3 = '{}'
ABSENT = object()


def py_set(eh, ptr, val):
    """RFC 6901 assignment in a fresh copy"""
    if len(ptr) <= 1:
        return val
    doc = json.loads(json.dumps(eh))
    parts = [x.replace("~1", "/").replace("~0", "~") for x in ptr.split("/")]
    if parts[0] != "":
        return ABSENT
    cur = doc
    for x in parts[1:-1]:
        if isinstance(cur, dict):
            if x not in cur:
                return ABSENT
            cur = cur[x]
        elif isinstance(cur, list) and x.isdigit() and int(x) < len(cur):
            cur = cur[int(x)]
        else:
            return ABSENT
    x = parts[-1]
    if isinstance(cur, dict):
        cur[x] = val
    elif isinstance(cur, list) and x == "-":
        cur.append(val)
    elif isinstance(cur, list) and x.isdigit() and int(x) < len(cur):
        cur[int(x)] = val
    else:
        return ABSENT
    return doc


def check(ctx):
    ctx.I.inline_gens = True
    ctx.I.unroll = 20
    d = ctx.driver(DRV)
    w = ctx.where(ctx.get("mseed3details:do_set_eh"))
    sets = [(("cc",), (E1, E2)), (("coc",), (E1, E2, E1)), (("t",), (E1,)), (("c", "oc"), (E1, E2, E1)), (("co", "c", "oo"), (E2, E1, E2, E1, E1)), (("oco",), (None, E1, None)),
            (("", "c"), (E1,)), (("oo", "cz"), (E1, E1, E3, E1)), (("sScf",), (E1, E2, E1, E1)), (("cccc",), (E1, E1, E1, E1)), (("ue",), (E1, E2)), (("vv",), (E1, E2))]
    for words, eh in sets:
        for m in (None, r"_Z$", r"B_H_N", "nomatch", "^FDSN:XX_ABC"):
            attempt(ctx, "C27.edit", f"{words} {m}", w, lambda: edits(ctx, d, w, words, eh, m))
    for words, eh in sets[:5]:
        attempt(ctx, "C27.pointer", f"{words}", w, lambda: pointers(ctx, d, w, words, eh))
    attempt(ctx, "C27.error", "errors", w, lambda: errors(ctx, d, w))
    attempt(ctx, "C27.error", "bad records", w, lambda: badrecs(ctx, d, w))
    for n, k in (("edit", 2000), ("pointer", 300), ("error", 60)):
        ctx.floor("C27." + n, k)


def contents(words, eh):
    """[(name, records, bytes)]"""
    out, k = [], 0
    for i, wd in enumerate(words):
        recs = build(wd, eh[k:k + len(wd)])
        k += len(wd)
        out.append((f"/data/f{i}.ms3", recs, ct.cat(*[r.good for r in recs]) if recs else b""))
    return out


def run(ctx, d, files, *args, **kw):
    st = ctx.state()
    for n, _, c in files:
        m_misc.fs_create(st, n, c)
    I = ctx.I
    names = I.new_list([n for n, _, _ in files], st)
    return ctx.run(d["edit"], [args[0], args[1], names], kw, st)


def data(heap, n):
    fs = heap.get(m_misc.FS)
    i = fs.get(n) if fs else None
    return heap[i]["data"] if i is not None and i in heap else None


def target(files, m, setall):
    """set of (file, record) changed"""
    out = set()
    for i, (_, recs, _) in enumerate(files):
        for k, r in enumerate(recs):
            if m is None or re.search(m, r.id.decode()):
                if not out or setall:
                    out.add((i, k))
    return out


def edits(ctx, d, w, words, eh, m):
    for setall in (False, True):
        for ptr, val in (("/new", '{"x": 1}'), ("", '{"y": [1, 2]}')):
            one(ctx, "C27.edit", d, w, words, eh, m, setall, ptr, val, ptr == "/new")


def pointers(ctx, d, w, words, eh):
    for ptr, val in (("/FDSN/Time/Quality", "37"), ("/list/0", '"text"'), ("/list/-", "null"), ("/list/1/a", "1.5"), ("/bag/y", '{"k": {"deep": [true, false]}}'), ("/a~1b", "3"), ("/c~0d", '"\\u00e9"'),
                     ("/", '{"z": 1}'), ("/x", '""'), ("", "{}"), ("/FDSN", "{}"), ("/missing/x", "1"), ("/list/9", "1"), ("nolead", "1"), ("/text/x", "1")):
        for setall in (False, True):
            one(ctx, "C27.pointer", d, w, words, eh, None, setall, ptr, val, False)


def one(ctx, R, d, w, words, eh, m, setall, ptr, val, verbose):
    files = contents(words, eh)
    con = f"{words} match {m}, {'all' if setall else 'first'}, {ptr!r} = {val}"
    tg = target(files, m, setall)
    want, bad = [], False
    done = False
    for i, (n, recs, c) in enumerate(files):
        l = []
        for k, r in enumerate(recs):
            e = json.loads(r.eh) if r.eh else {}
            if (i, k) in tg:
                e = py_set(e, ptr, json.loads(val))
                bad = bad or e is ABSENT
            l.append(e)
        want.append(l)
    r = run(ctx, d, files, ptr, val, matchsid=m, setall=setall, verbose=verbose)
    crash(ctx, R, w, con, files, r, d, want, bad)
    if bad:
        ctx.never_returns(R, f"{con}: is refused", w, r, None)
        return
    ctx.only_raises(R, f"{con}: no error", w, r, set())
    if not ctx.completes(R, f"{con}: completes", w, r):
        return
    for i, (n, recs, c) in enumerate(files):
        got = data(r.state.heap, n)
        same(ctx, R, w, f"{con}: {n}", d, r.state, got, recs, want[i])
    fs = r.state.heap[m_misc.FS]
    left = [n for n, i in fs.items() if i is not None and n not in [x[0] for x in files]]
    ctx.ok(R, f"{con}: no other file is left", w, not left, f"also {left[:2]}" if left else "")


def same(ctx, R, w, con, d, st, got, recs, want):
    if got is None:
        ctx.ok(R, f"{con}: file exists", w, False, "the file is gone")
        return
    r = ctx.run(d["every"], [got], None, st.copy())
    if not ctx.completes(R, f"{con}: reads back", w, r):
        return
    items = r.state.heap[r.value]["items"]
    ctx.eq(R, f"{con}: number of records", w, len(items), len(recs), r.state)
    for k, (g, e, x) in enumerate(zip(items, recs, want)):
        ctx.eq(R, f"{con}: record {k} header", w, tuple(g[:7]), (e.id.decode(), e.enc, e.pub, e.n, float(e.rate), dt(e.t, 0), 0), r.state)
        ctx.eq(R, f"{con}: record {k} extra headers", w, M_freeze(g[7], r.state), jd(x), r.state)
        ctx.eq(R, f"{con}: record {k} payload", w, content_of(g[8], r.state), e.data, r.state)


def crash(ctx, R, w, con, files, r, d, want, bad):
    """each file holds its old content until it holds the complete new one, at every step"""
    seen, det = 0, ""
    news = {n: [] for n, _, _ in files}
    steps = [(e.heap, f"{e.kind} at line {getattr(e.node, 'lineno', '?')}", e) for e in r.events if e.kind in ("open", "write", "close", "fs", "flush")]
    steps += [(st.heap, f"{ctx.exc_name(ex)} raised at line {getattr(node, 'lineno', '?')}", st) for st, ex, node in r.raises]
    for heap, lab, e in steps:
        seen += 1
        for n, _, c in files:
            x = data(heap, n)
            if not eqs(x, c) and not any(eqs(x, y) for y, _, _ in news[n]):
                news[n].append((x, lab, e))
    for i, (n, recs, c) in enumerate(files):
        for x, lab, e in news[n]:
            st = r.state if r.alive else r.raises[0][0]
            q = st.copy()
            q.heap.update(e.heap)
            same(ctx, R, w, f"{con}: {n} at {lab}", d, q, x, recs, want[i])
    ctx.ok(R, f"{con}: old or complete new content at every step ({seen} steps)", w, all(len(x) <= 1 for x in news.values()), "; ".join(f"{n} takes {len(x)} contents: {[l for _, l, _ in x][:3]}" for n, x in news.items() if len(x) > 1))


def eqs(a, b):
    return type(a) is type(b) and a == b if isinstance(a, bytes) or isinstance(b, bytes) else a is b or a == b


def errors(ctx, d, w):
    R = "C27.error"
    base = contents(("ccc", "c"), (E1, E2, E1, E1))
    whole = base[0][2]
    n = ct.clen(whole)
    n1 = ct.clen(base[0][1][0].good)
    cuts = [("truncated in the last payload", ct.slice_(whole, 0, n - 1, Facts())), ("truncated in the second header", ct.slice_(whole, 0, n1 + 10, Facts())), ("truncated in the second payload", ct.slice_(whole, 0, n1 + 60, Facts())),
            ("garbage after the first record", ct.cat(ct.slice_(whole, 0, n1, Facts()), b"garbage " * 8)), ("garbage at the end", ct.cat(whole, b"x" * 50)),
            ]
    for lab, c in cuts:
        for setall in (False, True):
            files = [(base[0][0], base[0][1], c), base[1]]
            r = run(ctx, d, files, "/new", "1", setall=setall)
            con = f"{lab}, {'all' if setall else 'first'}"
            intact(ctx, R, w, con, files, r)
    for val in ("{", "", "nope", "{'a': 1}"):
        r = run(ctx, d, base, "/new", val)
        intact(ctx, R, w, f"value {val!r} is not JSON", base, r)
    for m in ("(", "[", "*"):
        r = run(ctx, d, base, "/new", "1", matchsid=m)
        intact(ctx, R, w, f"pattern {m!r} is not a regular expression", base, r)
    # the second file cannot be read: the first has been rewritten completely or not at all
    files = [base[0], (base[1][0], base[1][1], b"garbage " * 8)]
    r = run(ctx, d, files, "/new", "1", setall=True)
    ctx.never_returns(R, "second file unreadable: reported", w, r, None)
    for st, ex, node in r.raises:
        ctx.eq(R, "second file unreadable: unchanged", w, data(st.heap, files[1][0]), files[1][2], st)
        same(ctx, R, w, "second file unreadable: first file", d, st, data(st.heap, files[0][0]), files[0][1], [dict(json.loads(x.eh), new=1) for x in files[0][1]])
    # no second file at all
    st = ctx.state()
    m_misc.fs_create(st, base[0][0], base[0][2])
    names = ctx.I.new_list([base[0][0], "/data/none.ms3"], st)
    r = ctx.run(d["edit"], ["/new", "1", names], dict(setall=True), st)
    ctx.never_returns(R, "second file missing: reported", w, r, None)
    for st, ex, node in r.raises:
        same(ctx, R, w, "second file missing: first file", d, st, data(st.heap, base[0][0]), base[0][1], [dict(json.loads(x.eh), new=1) for x in base[0][1]])


def badrecs(ctx, d, w):
    """a record in the middle whose checksum is wrong"""
    R = "C27.error"
    base = contents(("ccc",), (E1, E2, E1))
    n, recs, c = base[0]
    for k in range(3):
        parts = [r.good for r in recs]
        parts[k] = recs[k].bytes            # checksum field zero
        files = [(n, recs, ct.cat(*parts))]
        for setall in (False, True):
            r = run(ctx, d, files, "/new", "1", setall=setall)
            intact(ctx, R, w, f"record {k} has a wrong checksum, {'all' if setall else 'first'}", files, r, maybe=True)


def intact(ctx, R, w, con, files, r, maybe=False):
    if not maybe:
        ctx.never_returns(R, f"{con}: reported", w, r, None)
    bad = ""
    for st, ex, node in r.raises:
        for n, _, c in files:
            if not eqs(data(st.heap, n), c):
                bad = bad or f"{n} changed although {ex} is raised at line {getattr(node, 'lineno', '?')}"
    ctx.ok(R, f"{con}: files untouched", w, not bad, bad)
    for e in r.events:
        if e.kind in ("open", "write", "close", "fs", "flush") and not maybe:
            for n, _, c in files:
                if not eqs(data(e.heap, n), c):
                    bad = bad or f"{n} changed at line {getattr(e.node, 'lineno', '?')} ({e.kind})"
    ctx.ok(R, f"{con}: files never touched on the way", w, not bad, bad)
