"""C28: the command line tools.  Each tool's main is interpreted with a given command line, which
is parsed by a reference argparse from the declarations found in the source, over a modelled file
system; what is printed and written is compared with what the library functions give for the same
options (interpreted on the same bytes), option by option and in combination."""
import itertools
import json
import os
import re
import struct
from .common import *
from .c16 import M_freeze, jd
from .c17 import build
from . import c27
from .c27 import E1, E2, E3, data, same
from .. import m_misc
from ..m_str import scat

DRV = """
from io import BytesIO
from simplemseed.mseed3 import readMSeed3Records
from simplemseed.miniseed import readMiniseed2Records
from simplemseed.mseed2to3 import mseed2to3, main as main2to3
from simplemseed.mseed3merge import main as mainmerge
from simplemseed.mseed2details import main as main2
from simplemseed.mseed3details import main as main3
from simplemseed.fdsnsourceid import main as mainsid, bandCodeForRate, bandCodeDescribe, sourceCodeDescribe, FDSNSourceId

def t3():
    return main3()

def t2():
    return main2()

def tconv():
    return main2to3()

def tmerge():
    return mainmerge()

def tsid():
    return mainsid()

def show3(c, matchsid, summary, eh, dat):
    out = []
    n = 0
    for r in readMSeed3Records(BytesIO(c), matchsid=matchsid):
        out.append(r.summary() if summary else r.details(showExtraHeaders=eh, showData=dat))
        n = n + r.header.numSamples
    return (out, n)

def show2(c, matchsid, summary, dat):
    out = []
    n = 0
    for r in readMiniseed2Records(BytesIO(c), matchsid=matchsid):
        out.append(r.summary() if summary else r.details(showData=dat))
        n = n + r.header.numSamples
    return (out, n)

def ehs(c, matchsid):
    out = []
    for r in readMSeed3Records(BytesIO(c), matchsid=matchsid):
        out.append((r.eh, r.summary()))
    return out

def conv(c):
    out = []
    for m in readMiniseed2Records(BytesIO(c)):
        out.append(bytes(mseed2to3(m).pack()))
    return out

def merged(c):
    out = []
    for r in readMSeed3Records(BytesIO(c), merge=True):
        out.append(bytes(r.pack()))
    return out

def every(c):
    out = []
    for r in readMSeed3Records(BytesIO(c)):
        h = r.header
        out.append((r.identifier, h.encoding, h.publicationVersion, h.numSamples, h.sampleRatePeriod, h.starttime, h.flags, r.eh if r.hasExtraHeaders() else {}, bytes(r.encodedDataBytes())))
    return out

def rate(x):
    a = bandCodeForRate(x, 0.01)
    b = bandCodeForRate(x, 10)
    return (a, b, bandCodeDescribe(a), bandCodeDescribe(b))

def band(c):
    return bandCodeDescribe(c)

def source(c):
    return sourceCodeDescribe(c)

def parts(t):
    s = FDSNSourceId.parse(t)
    return (s.networkCode, s.stationCode, s.locationCode, s.bandCode, s.sourceCode, s.subsourceCode, bandCodeDescribe(s.bandCode), sourceCodeDescribe(s.sourceCode))
"""


def check(ctx):
    ctx.I.inline_gens = True
    ctx.I.unroll = 20
    d = ctx.driver(DRV)
    w3 = ctx.where(ctx.get("mseed3details:main"))
    w2 = ctx.where(ctx.get("mseed2details:main"))
    wc = ctx.where(ctx.get("mseed2to3:main"))
    wm = ctx.where(ctx.get("mseed3merge:main"))
    ws = ctx.where(ctx.get("fdsnsourceid:main"))
    for i, (words, eh) in enumerate(SETS):
        for m in (None, "_Z$", "B_H_N", "nomatch"):
            attempt(ctx, "C28.details3", f"{words} {m}", w3, lambda: details3(ctx, d, w3, words, eh, m))
            attempt(ctx, "C28.get", f"{words} {m}", w3, lambda: get(ctx, d, w3, words, eh, m))
            attempt(ctx, "C28.set", f"{words} {m}", w3, lambda: sets(ctx, d, w3, words, eh, m))
    for order in "><":
        for m in (None, "ABCD", "BHZ", "nomatch"):
            attempt(ctx, "C28.details2", f"{order} {m}", w2, lambda: details2(ctx, d, w2, order, m))
        attempt(ctx, "C28.convert", order, wc, lambda: convert(ctx, d, wc, order))
    for word in ("cc", "cgc", "tcc", "sS", "c", "", "octc", "ff", "hhdd", "ue", "cccccc", "z"):
        attempt(ctx, "C28.merge", word or "empty", wm, lambda: merge(ctx, d, wm, word))
    attempt(ctx, "C28.sid", "rates", ws, lambda: sid_rates(ctx, d, ws))
    attempt(ctx, "C28.sid", "codes", ws, lambda: sid_codes(ctx, d, ws))
    attempt(ctx, "C28.sid", "ids", ws, lambda: sid_ids(ctx, d, ws))
    for t, w, good in (("t3", w3, ["a"]), ("t2", w2, ["a"]), ("tconv", wc, ["-2", "a", "-3", "b"]), ("tmerge", wm, ["-o", "b", "a"]), ("tsid", ws, ["FDSN:CO"])):
        attempt(ctx, "C28.args", t, w, lambda: badargs(ctx, d, w, t, good))
    for n, k in (("details3", 300), ("get", 300), ("set", 800), ("details2", 40), ("convert", 40), ("merge", 60), ("sid", 80), ("args", 10)):
        ctx.floor("C28." + n, k)


SETS = [(("coc",), (E1, E2, E1)), (("c", "oc"), (E1, E2, E1)), (("co", "f", "so"), (E2, None, E1, E1, E1)), (("t",), (None,)), (("", "cz"), (E1, None)), (("ue", "dh"), (E1, E2, E3, None))]


def names(files):
    return [n for n, _, _ in files]


def tool(ctx, d, fn, argv, files):
    st = ctx.state()
    st.heap[m_misc.FS] = {}
    for n, c in files:
        m_misc.fs_create(st, n, c)
    ctx.I.argv = argv
    try:
        return ctx.run(d[fn], [], None, st)
    finally:
        ctx.I.argv = None


def stdout(ctx, r):
    """everything printed, as lines of text terms"""
    out, st = [], r.state
    for e in r.events:
        if e.kind == "print" and (e.file is None or std_(e.file, "stdout")):
            q = st.copy()
            q.heap.update(e.heap)
            a = [x if isinstance(x, (str, T)) else ctx.I.models.str_(ctx.I, x, q, None) for x in e.args]
            sep = e.kwargs.get("sep")
            sep = " " if sep is None else sep
            line = []
            for k, x in enumerate(a):
                line += [sep, x] if k else [x]
            end = e.kwargs.get("end")
            out.append(scat(*line, "\n" if end is None else end))
        elif e.kind == "write" and std_(e.obj, "stdout"):
            out.append(e.content)
    return scat(*out) if out else ""


def std_(o, name):
    return isinstance(o, m_misc.Ext) and o.name == "sys." + name


def success(ctx, R, w, con, r):
    ctx.only_raises(R, f"{con}: no error", w, r, set())
    if not ctx.completes(R, f"{con}: completes", w, r):
        return False
    ctx.ok(R, f"{con}: exit status zero", w, r.value is None or r.value == 0 and r.value is not False)
    return True


def contains(ctx, R, w, con, text, parts, st):
    """text holds the given parts, in order"""
    if isinstance(text, str) and all(isinstance(p, str) for p in parts):
        pos = 0
        for p in parts:
            i = text.find(p, pos)
            if i < 0:
                return ctx.ok(R, con, w, False, f"{p[:80]!r} is missing from {text[:200]!r}")
            pos = i + len(p)
        return ctx.ok(R, con, w, True)
    ctx.eq(R, con, w, text, scat(*[y for p in parts for y in (p, "\n")]), st)


def total(ctx, R, w, con, text, nsamp, nrec):
    """the closing line counts samples and records"""
    last = text.rstrip("\n").rsplit("\n", 1)[-1] if isinstance(text, str) else text.args[-1] if isinstance(text, T) and text.op == "scat" else ""
    last = last.rstrip("\n").rsplit("\n", 1)[-1] if isinstance(last, str) else ""
    nums = [int(x) for x in re.findall(r"[0-9]+", last)]
    ctx.ok(R, con, w, nums == [nsamp, nrec] if nums else None, f"{last!r}, expected {nsamp} samples in {nrec} records")


def details3(ctx, d, w, words, eh, m):
    R = "C28.details3"
    files = c27.contents(words, eh)
    for fl in ([], ["--summary"], ["--eh"], ["--data"], ["--eh", "--data"], ["-v"], ["--summary", "--verbose"], ["--summary", "--eh"]):
        if "--data" in fl and set("".join(words)) & set("tu"):
            continue      # no samples to print
        argv = fl + (["--match", m] if m is not None else []) + names(files)
        con = " ".join(argv)
        r = tool(ctx, d, "t3", argv, [(n, c) for n, _, c in files])
        if not success(ctx, R, w, con, r):
            continue
        exp, ns = [], 0
        for n, recs, c in files:
            x = ctx.run(d["show3"], [c, m, "--summary" in fl, "--eh" in fl, "--data" in fl])
            exp += x.state.heap[x.value[0]]["items"]
            ns += x.value[1]
        text = stdout(ctx, r)
        tot = f"Total {ns} samples in {len(exp)} records"
        total(ctx, R, w, f"{con}: totals", text, ns, len(exp))
        if isinstance(text, T):
            exp = list(exp) + [tot]
        contains(ctx, R, w, f"{con}: prints each matching record", text, exp, r.state)
        if isinstance(text, str) and not exp:
            ctx.ok(R, f"{con}: prints nothing else", w, text.count("\n") <= 1, text[:200])


def pointer(v, ptr):
    """value at a pointer, or ABSENT"""
    for p in [x.replace("~1", "/").replace("~0", "~") for x in ptr.split("/")[1:]]:
        if isinstance(v, dict) and p in v:
            v = v[p]
        elif isinstance(v, list) and p.isdigit() and int(p) < len(v):
            v = v[int(p)]
        else:
            return c27.ABSENT
    return v


def get(ctx, d, w, words, eh, m):
    R = "C28.get"
    files = c27.contents(words, eh)
    for opt, ptr, out, v in itertools.product(("--get", "--getall"), ("", "/FDSN/Time/Quality", "/text", "/list/1", "/none"), (None, "-o", "--outfile"), (False, True)):
        if out == "-o" and (v or ptr == "/text"):
            continue
        argv = [opt, ptr] + (["-v"] if v else []) + (["--match", m] if m is not None else []) + ([out, "/out.json"] if out else []) + ["--"] + names(files)
        con = " ".join(argv)
        r = tool(ctx, d, "t3", argv, [(n, c) for n, _, c in files])
        if not success(ctx, R, w, con, r):
            continue
        want = []
        for n, recs, c in files:
            for x in recs:
                if m is None or re.search(m, x.id.decode()):
                    want.append((pointer(json.loads(x.eh) if x.eh else {}, ptr), x))
        if opt == "--get":
            want = want[:1]
        text = stdout(ctx, r)
        if v:
            for n, recs, c in files[:1] if opt == "--get" else files:
                if want:
                    contains(ctx, R, w, f"{con}: verbose names the records", text, [want[0][1].id.decode()], r.state)
        if out:
            got = written(r, "/out.json")
        else:
            got = text
        if not isinstance(got, str):
            ctx.ok(R, f"{con}: output", w, None, f"output {str(got)[:200]}")
            continue
        vals = []
        for line in got.split("\n")[:-1] if out else got.splitlines():
            if out and line == "":
                vals.append(c27.ABSENT)
                continue
            try:
                vals.append(json.loads(line))
            except ValueError:
                if "not found" in line:
                    vals.append(c27.ABSENT)
                elif out:
                    ctx.ok(R, f"{con}: output is JSON", w, False, f"line {line!r}")
        exp = [x for x, _ in want]
        ctx.ok(R, f"{con}: values", w, same_json(vals, exp), f"printed {str(vals)[:200]}, expected {str(exp)[:200]}")


def same_json(a, b):
    return len(a) == len(b) and all((x is c27.ABSENT) == (y is c27.ABSENT) and (x is c27.ABSENT or json.dumps(x, sort_keys=True) == json.dumps(y, sort_keys=True)) for x, y in zip(a, b))


def written(r, name):
    """content of a file the tool wrote (written when the process ends, at the latest)"""
    got = data(r.state.heap, name)
    fs = r.state.heap[m_misc.FS].get(name)
    for o, cell in r.state.heap.items():
        if isinstance(cell, dict) and cell.get("inode") is fs and fs is not None and not cell.get("closed") and "r" not in str(cell.get("mode")):
            got = cell["out"]
    return got


def sets(ctx, d, w, words, eh, m):
    R = "C28.set"
    for opt, v in itertools.product(("--set", "--setall", "--fset", "--fsetall"), (False, True)):
        for ptr, val in (("/new", '{"x": 1}'), ("", '{"y": [1, 2]}')):
            files = c27.contents(words, eh)
            fopt = opt.startswith("--f")
            argv = [opt, ptr, "/in.json" if fopt else val] + (["-v"] if v else []) + (["--match", m] if m is not None else []) + ["--"] + names(files)
            con = " ".join(argv)
            r = tool(ctx, d, "t3", argv, [(n, c) for n, _, c in files] + ([("/in.json", val)] if fopt else []))
            if not success(ctx, R, w, con, r):
                continue
            tg = c27.target(files, m, opt.endswith("all"))
            if v:
                contains(ctx, R, w, f"{con}: verbose names the changed records", stdout(ctx, r), sorted({files[i][1][k].id.decode() for i, k in tg}), r.state)
            for i, (n, recs, c) in enumerate(files):
                want = [json.loads(x.eh) if x.eh else {} for x in recs]
                want = [c27.py_set(e, ptr, json.loads(val)) if (i, k) in tg else e for k, e in enumerate(want)]
                same(ctx, R, w, f"{con}: {n}", d, r.state, data(r.state.heap, n), recs, want)


def ms2files(order):
    """[(name, bytes, number of records)]"""
    def rec(k, sta, n, enc=3, q=b"D"):
        c = {1: "h", 3: "i", 4: "f", 5: "d"}[enc]
        raw = struct.pack(f"{order}{n}{c}", *[100 * k + j for j in range(n)])
        fx = dict(year=2024, yday=60, hour=1, minute=k, second=5, tenthMilli=10, numSamples=n, sampRateFactor=20, sampRateMult=1, actFlag=0, ioFlag=0, qualFlag=0, timeCorr=0)
        return ms2_rec(f"r{k}", order, 7, 64, enc=enc, text=b"00000%d" % k + q + b" " + sta + b"00BHZXX", data=raw + bytes(64 - len(raw)), **fx)[2]
    a = [rec(1, b"ABCD ", 3), rec(2, b"EFGH ", 5, 1), rec(3, b"ABCD ", 2, 5, b"R")]
    b = [rec(4, b"EFGH ", 4, 4)]
    return [("/a.ms2", ct.cat(*a), a), ("/b.ms2", ct.cat(*b), b), ("/e.ms2", b"", [])]


def details2(ctx, d, w, order, m):
    R = "C28.details2"
    files = ms2files(order)
    for fl in ([], ["--summary"], ["--data"], ["-v", "--summary"], ["--verbose"]):
        argv = fl + (["--match", m] if m is not None else []) + [n for n, _, _ in files]
        con = f"{order} " + " ".join(argv)
        r = tool(ctx, d, "t2", argv, [(n, c) for n, c, _ in files])
        if not success(ctx, R, w, con, r):
            continue
        exp, ns = [], 0
        for n, c, recs in files:
            x = ctx.run(d["show2"], [c, m, "--summary" in fl, "--data" in fl])
            exp += x.state.heap[x.value[0]]["items"]
            ns += x.value[1]
        text = stdout(ctx, r)
        total(ctx, R, w, f"{con}: totals", text, ns, len(exp))
        if isinstance(text, T):
            exp = list(exp) + [f"Total {ns} samples in {len(exp)} records"]
        contains(ctx, R, w, f"{con}: prints each matching record", text, exp, r.state)


def convert(ctx, d, w, order):
    R = "C28.convert"
    for n, c, recs in ms2files(order):
        for argv in (["-2", n, "-3", "/out.ms3"], ["--ms2", n, "--ms3", "/out.ms3"], ["-v", "-3", "/out.ms3", "-2", n], ["--verbose", "--ms3", "/out.ms3", "-2", n]):
            con = f"{order} {len(recs)} records: " + " ".join(argv)
            r = tool(ctx, d, "tconv", argv, [(n, c), ("/out.ms3", b"old content")])
            if not success(ctx, R, w, con, r):
                continue
            x = ctx.run(d["conv"], [c])
            items = x.state.heap[x.value]["items"]
            ctx.eq(R, f"{con}: records converted", w, len(items), len(recs), x.state)
            ctx.eq(R, f"{con}: output holds every record", w, written(r, "/out.ms3"), ct.cat(*[content_of(i, x.state) for i in items]) if items else b"", r.state)
            ctx.eq(R, f"{con}: input unchanged", w, data(r.state.heap, n), c, r.state)


def merge(ctx, d, w, word):
    R = "C28.merge"
    recs = build(word, (E1,) * len(word))
    c = ct.cat(*[x.good for x in recs]) if recs else b""
    for argv in (["-o", "/out.ms3", "/in.ms3"], ["/in.ms3", "--outfile", "/out.ms3"], ["-v", "-o", "/out.ms3", "/in.ms3"], ["--verbose", "--outfile", "/out.ms3", "/in.ms3"], ["--decomp", "-o", "/out.ms3", "/in.ms3"]):
        con = f"{word}: " + " ".join(argv)
        r = tool(ctx, d, "tmerge", argv, [("/in.ms3", c), ("/out.ms3", b"old content")])
        if not success(ctx, R, w, con, r):
            continue
        x = ctx.run(d["merged"], [c])
        items = x.state.heap[x.value]["items"]
        ctx.eq(R, f"{con}: output holds every record", w, written(r, "/out.ms3"), ct.cat(*[content_of(i, x.state) for i in items]) if items else b"", r.state)
        ctx.eq(R, f"{con}: input unchanged", w, data(r.state.heap, "/in.ms3"), c, r.state)


def sid_rates(ctx, d, w):
    R = "C28.sid"
    for x in ("100", "1", "20.5", "0.5", "-10", "-0.01", "0", "1000", "0.01", "1e-7", "5000"):
        for v in ([], ["-v"]):
            argv = v + [f"--sps={x}"]
            r = tool(ctx, d, "tsid", argv, [])
            con = " ".join(argv)
            if not success(ctx, R, w, con, r):
                continue
            q = ctx.run(d["rate"], [float(x)])
            a, b, da, db = q.value
            contains(ctx, R, w, f"{con}: band code", stdout(ctx, r), [a, da] + ([b, db] if a != b else []), r.state)


def sid_codes(ctx, d, w):
    R = "C28.sid"
    cases = [(["-b", "H"], "H", ""), (["--band", "H", "B"], "HB", ""), (["-b", "HBV"], "HBV", ""), (["-s", "H"], "", "H"), (["--source", "H", "N"], "", "HN"), (["-b", "L", "-s", "L"], "L", "L")]
    for argv, bs, ss in cases:
        r = tool(ctx, d, "tsid", argv, [])
        con = " ".join(argv)
        if success(ctx, R, w, con, r):
            exp = []
            for c in bs:
                exp += [c, ctx.run(d["band"], [c]).value]
            for c in ss:
                exp += [c, ctx.run(d["source"], [c]).value]
            contains(ctx, R, w, f"{con}: described", stdout(ctx, r), exp, r.state)
    with open(os.path.join(ctx.I.root, "simplemseed", "bandcode.json"), encoding="utf-8") as f:
        bands = [x["code"] for x in json.load(f)]
    with open(os.path.join(ctx.I.root, "simplemseed", "sourcecode.json"), encoding="utf-8") as f:
        sources = [x["code"] for x in json.load(f)]
    for argv, codes, fn in ((["--allbands"], bands, "band"), (["--allsources"], sources, "source")):
        r = tool(ctx, d, "tsid", argv, [])
        con = " ".join(argv)
        if success(ctx, R, w, con, r):
            text = stdout(ctx, r)
            for c in codes:
                contains(ctx, R, w, f"{con}: {c}", text, [f" {c} ", ctx.run(d[fn], [c]).value], r.state)


def sid_ids(ctx, d, w):
    R = "C28.sid"
    full = ["FDSN:CO_JSC_00_H_H_Z", "FDSN:XD1994_ABCD__B_N_1", "FDSN:IU_ANMO_10_L__" if False else "FDSN:IU_ANMO_10_L_D_O"]
    for ids in ([full[0]], full, ["FDSN:CO"], ["FDSN:CO_JSC"], ["FDSN:CO_JSC_00"], ["FDSN:CO_JSC_"], ["FDSN:CO", full[1], "FDSN:CO_JSC", full[2], "FDSN:CO_JSC_00", full[0]]):
        r = tool(ctx, d, "tsid", ids, [])
        con = " ".join(ids)
        if not success(ctx, R, w, con, r):
            continue
        exp = []
        for i in ids:
            exp.append(i)
            if i in full:
                n, s, l, b, o, u, bd, sd = ctx.run(d["parts"], [i]).value
                exp += [n, s, l, b, bd, o, sd, u]
            else:
                exp += [x for x in i[5:].split("_")]
        contains(ctx, R, w, f"{con}: printed", stdout(ctx, r), exp, r.state)


def badargs(ctx, d, w, t, good):
    """help, version and wrong command lines end the program through argparse, before any file is touched"""
    R = "C28.args"
    files = [("a", b""), ("b", b"old")]
    for k, j in itertools.product(range(len(good)), (1, 2)):
        # an incomplete command line is either refused by argparse or enough
        argv = good[:k] + good[k + j:]
        r = tool(ctx, d, t, argv, files)
        ctx.only_raises(R, f"{t} {' '.join(argv)}: refused or enough", w, r, {"SystemExit", "OSError"})
    for argv, code in ((["--version"], 0), (["--help"], 0), (["-h"], 0), ([], 2), (good + ["--no-such-option"], 2)):
        r = tool(ctx, d, t, argv, files)
        con = f"{t} " + " ".join(argv)
        ctx.never_returns(R, f"{con}: stops", w, r, {"SystemExit"})
        codes = {e.code for e in r.events if e.kind == "exit"}
        ctx.ok(R, f"{con}: exit status {code}", w, codes == {code} if codes else None, f"exit status {codes}")
        for st, ex, node in r.raises:
            ctx.ok(R, f"{con}: files untouched", w, data(st.heap, "b") == b"old")
