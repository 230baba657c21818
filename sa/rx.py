"""Boolean conditions over text symbols as regular languages.

Conditions built from regular expression matches, lengths, comparisons with constant text,
prefixes, suffixes, substrings and character classes denote regular languages of each symbol.
`valuations` explores the product automaton of all conditions on a symbol and returns every
combination of truth values they can take together, each with a shortest text reaching it.
Equivalence and satisfiability are then decided over those combinations: no text is sampled."""
import itertools
import re as pyre
from functools import lru_cache

from .terms import *
from . import terms as tm

try:
    from re import _parser as sp, _constants as sc
except ImportError:  # pragma: no cover
    import sre_parse as sp
    import sre_constants as sc

MAXCP = 0x110000


class No(Exception):
    """not a condition this module understands"""


# ------------------------------------------------------------------ character sets (sorted disjoint half-open intervals)
def cs_norm(iv):
    out = []
    for a, b in sorted(iv):
        if a >= b:
            continue
        if out and a <= out[-1][1]:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def cs_not(s):
    out, p = [], 0
    for a, b in s:
        if p < a:
            out.append((p, a))
        p = b
    if p < MAXCP:
        out.append((p, MAXCP))
    return tuple(out)


def cs_in(s, c):
    return any(a <= c < b for a, b in s)


def pred(f):
    out, start = [], None
    for c in range(MAXCP):
        if f(chr(c)):
            if start is None:
                start = c
        elif start is not None:
            out.append((start, c))
            start = None
    if start is not None:
        out.append((start, MAXCP))
    return tuple(out)


@lru_cache(None)
def named(n):
    return pred({"digit": str.isdecimal, "word": lambda c: c.isalnum() or c == "_", "space": str.isspace, "isdigit": str.isdigit, "isalpha": str.isalpha, "isalnum": str.isalnum,
                 "isnumeric": str.isnumeric, "isdecimal": str.isdecimal, "isspace": str.isspace, "isascii": str.isascii, "cased_l": str.islower, "cased_u": str.isupper,
                 "cased_t": str.istitle, "upper=": lambda c: c.upper() == c, "lower=": lambda c: c.lower() == c}[n])


ASC = ((0, 128),)


def cs_and(a, b):
    out = []
    for x, y in a:
        for p, q in b:
            lo, hi = max(x, p), min(y, q)
            if lo < hi:
                out.append((lo, hi))
    return cs_norm(out)


def category(c, ascii_):
    n = str(c)
    base = {"DIGIT": "digit", "SPACE": "space", "WORD": "word"}[n.rsplit("_", 1)[1]]
    s = named(base)
    if ascii_:
        s = cs_and(s, ASC)
    return cs_not(s) if "NOT" in n else s


FOLD = {"k": "\u212a", "s": "\u017f", "i": "\u0130\u0131"}


def casefold(s, ascii_):
    out = list(s)
    for a, b in s:
        for c in range(a, min(b, 0x250)):
            ch = chr(c)
            if c < 128 or not ascii_:
                for o in (ch.lower(), ch.upper()):
                    if len(o) == 1:
                        out.append((ord(o), ord(o) + 1))
                if not ascii_:
                    for o in FOLD.get(ch.lower(), ""):
                        out.append((ord(o), ord(o) + 1))
        if b > 0x250:
            if not (a <= 0x250 and b == MAXCP):
                raise No("case folding")
    return cs_norm(out)


# ------------------------------------------------------------------ regular expressions
def parse(p, fl):
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return sp.parse(p, fl)
    except pyre.error as e:
        raise No(str(e))


class NFA:
    """edges: state -> [(charset | None | 'bol' | 'eos' | 'eol', target)]"""

    def __init__(self, p, fl, mode):
        if not isinstance(p, str) or not isinstance(fl, int) or fl & (pyre.M | pyre.X | pyre.L):
            raise No("flags")
        self.e = []
        self.fl = fl
        tree = parse(p, fl)
        if tree.state.flags & (pyre.M | pyre.L):
            raise No("flags")
        self.fl = tree.state.flags
        s, f = self.new(), self.new()
        self.start, self.final = s, f
        self.build(tree, s, f)
        self.any = ((0, MAXCP),)
        if mode == "search":
            a = self.new()
            self.e[a].append((self.any, a))
            self.e[a].append((None, s))
            self.start = a
        if mode != "fullmatch":
            b = self.new()
            self.e[f].append((None, b))
            self.e[b].append((self.any, b))
            self.final = b

    def new(self):
        self.e.append([])
        return len(self.e) - 1

    def charset(self, items):
        out, neg = [], False
        asc = bool(self.fl & pyre.A)
        for op, av in items:
            op = str(op)
            if op == "NEGATE":
                neg = True
            elif op == "LITERAL":
                out.append((av, av + 1))
            elif op == "RANGE":
                out.append((av[0], av[1] + 1))
            elif op == "CATEGORY":
                out += category(av, asc)
            else:
                raise No(op)
        s = cs_norm(out)
        if self.fl & pyre.I:
            s = casefold(s, asc)
        return cs_not(s) if neg else s

    def build(self, items, a, b):
        cur = a
        for op, av in items:
            nxt = self.new()
            self.one(str(op), av, cur, nxt)
            cur = nxt
        self.e[cur].append((None, b))

    def one(self, op, av, a, b):
        if op == "LITERAL":
            self.e[a].append((self.charset([(sc.LITERAL, av)]), b))
        elif op == "NOT_LITERAL":
            self.e[a].append((cs_not(self.charset([(sc.LITERAL, av)])), b))
        elif op == "ANY":
            self.e[a].append((((0, MAXCP),) if self.fl & pyre.S else cs_not(((10, 11),)), b))
        elif op == "IN":
            self.e[a].append((self.charset(av), b))
        elif op == "SUBPATTERN":
            g, add_, del_, p = av
            if add_ or del_:
                raise No("inline flags")
            self.build(p, a, b)
        elif op in ("BRANCH",):
            for p in av[1]:
                self.build(p, a, b)
        elif op in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, p = av
            if lo > 300 or (hi is not sc.MAXREPEAT and hi > 300):
                raise No("repeat")
            cur = a
            for _ in range(lo):
                n = self.new()
                self.build(p, cur, n)
                cur = n
            if hi is sc.MAXREPEAT:
                n = self.new()
                self.e[cur].append((None, n))
                self.build(p, n, n)
                self.e[n].append((None, b))
            else:
                for _ in range(hi - lo):
                    n = self.new()
                    self.build(p, cur, n)
                    self.e[cur].append((None, b))
                    cur = n
                self.e[cur].append((None, b))
        elif op == "AT":
            k = str(av)
            if k in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                self.e[a].append(("bol", b))
            elif k == "AT_END":
                self.e[a].append(("eol", b))
            elif k == "AT_END_STRING":
                self.e[a].append(("eos", b))
            else:
                raise No(k)
        else:
            raise No(op)


class Lang:
    """deterministic acceptor: init(), step(state, code point), accepts(state)"""

    def charsets(self):
        return []


class Regex(Lang):
    """states of the simulation: (nfa state, rest) with rest 0 anything, 1 nothing may follow, 2 exactly a newline follows"""

    def __init__(self, mode, p, fl):
        self.n = NFA(p, fl, mode)
        self.cache = {}

    def charsets(self):
        return [x[0] for e in self.n.e for x in e if isinstance(x[0], tuple)] + [((10, 11),)]

    def close(self, S, first):
        todo, out = list(S), set(S)
        while todo:
            q, r = todo.pop()
            for c, t in self.n.e[q]:
                if isinstance(c, tuple):
                    continue
                new = []
                if c is None:
                    new = [(t, r)]
                elif c == "bol":
                    new = [(t, r)] if first else []
                elif c == "eos":
                    new = [(t, 1)] if r in (0, 1) else []
                elif c == "eol":
                    new = [(t, 1), (t, 2)] if r == 0 else [(t, r)]
                for x in new:
                    if x not in out:
                        out.add(x)
                        todo.append(x)
        return frozenset(out)

    def init(self):
        return self.close({(self.n.start, 0)}, True)

    def step(self, S, c):
        k = (S, c)
        v = self.cache.get(k)
        if v is None:
            out = set()
            for q, r in S:
                if r == 1 or (r == 2 and c != 10):
                    continue
                for cs, t in self.n.e[q]:
                    if isinstance(cs, tuple) and cs_in(cs, c):
                        out.add((t, 1 if r == 2 else r))
            v = self.cache[k] = self.close(out, False)
        return v

    def accepts(self, S):
        return any(q == self.n.final and r in (0, 1) for q, r in S)


class Length(Lang):
    """a condition on the length, the same for all lengths from cap on"""

    def __init__(self, f, cap):
        self.v = [f(k) for k in range(cap + 1)]
        self.cap = cap

    def init(self):
        return 0

    def step(self, s, c):
        return min(s + 1, self.cap)

    def accepts(self, s):
        return self.v[s]


class AllIn(Lang):
    """every character in the set (and at least one, if nonempty; and one in some, if given)"""

    def __init__(self, cs, nonempty, some=None):
        self.cs, self.nonempty, self.some = cs, nonempty, some

    def charsets(self):
        return [self.cs] + ([self.some] if self.some else [])

    def init(self):
        return (True, False)

    def step(self, s, c):
        return (s[0] and cs_in(self.cs, c), s[1] or self.some is None or cs_in(self.some, c))

    def accepts(self, s):
        return s[0] and (s[1] or not self.nonempty)


class Slice(Lang):
    """the language of s[a:b]"""

    def __init__(self, inner, a, b):
        self.i, self.a, self.b = inner, a, b

    def charsets(self):
        return self.i.charsets()

    def init(self):
        return (0, self.i.init())

    def step(self, s, c):
        k, q = s
        if k >= self.a and (self.b is None or k < self.b):
            q = self.i.step(q, c)
        return (min(k + 1, self.a if self.b is None else self.b), q)

    def accepts(self, s):
        return self.i.accepts(s[1])


class Affix(Lang):
    """texts that are in the language once the constants before and after are added"""

    def __init__(self, inner, pre, post):
        self.i, self.pre, self.post = inner, [ord(c) for c in pre], [ord(c) for c in post]

    def charsets(self):
        return self.i.charsets()

    def init(self):
        q = self.i.init()
        for c in self.pre:
            q = self.i.step(q, c)
        return q

    def step(self, q, c):
        return self.i.step(q, c)

    def accepts(self, q):
        for c in self.post:
            q = self.i.step(q, c)
        return self.i.accepts(q)


# ------------------------------------------------------------------ atoms
def subject(t, syms):
    """symbol a text term is (a slice of) -> (symbol, wrapper)"""
    if isinstance(t, T) and t.op == "sym" and t.ty == "str":
        return t, lambda l: l
    if isinstance(t, T) and t.op == "ssub" and all(x is None or isinstance(x, int) and x >= 0 for x in t.args[1:3]):
        s, w = subject(t.args[0], syms)
        a, b = t.args[1] or 0, t.args[2]
        if b is not None and b < a:
            raise No("slice")
        return s, lambda l: w(Slice(l, a, b))
    if isinstance(t, T) and t.op == "scat":
        ks = [k for k, p in enumerate(t.args) if not isinstance(p, str)]
        if len(ks) == 1:
            k = ks[0]
            s, w = subject(t.args[k], syms)
            pre, post = "".join(t.args[:k]), "".join(t.args[k + 1:])
            return s, lambda l: w(Affix(l, pre, post))
    raise No(str(getattr(t, "op", t)))


PREDS = {"isdigit": ("isdigit", 1), "isalpha": ("isalpha", 1), "isalnum": ("isalnum", 1), "isnumeric": ("isnumeric", 1), "isdecimal": ("isdecimal", 1), "isspace": ("isspace", 1), "isascii": ("isascii", 0)}


_ATOM = {}


def atom(t):
    """boolean leaf -> (symbol, acceptor)"""
    r = _ATOM.get(t)
    if r is None:
        try:
            r = atom_(t)
        except No as e:
            r = e
        _ATOM[t] = r
    if isinstance(r, No):
        raise r
    return r


def atom_(t):
    if t.op == "rematch":
        mode, p, fl, s = t.args
        s, w = subject(s, None)
        return s, w(Regex(mode, p, fl))
    if t.op == "eqv":
        a, b = t.args
        if isinstance(a, str):
            a, b = b, a
        if isinstance(b, str):
            s, w = subject(a, None)
            return s, w(Regex("fullmatch", pyre.escape(b), 0))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, T) and x.op in ("upper", "lower") and x.args[0] is y:
                s, w = subject(y, None)
                return s, w(AllIn(named(x.op + "="), 0))
        raise No("eqv")
    if t.op == "scontains":
        c, x = t.args
        if isinstance(x, str):
            s, w = subject(c, None)
            return s, w(Regex("search", pyre.escape(x), 0))
        if isinstance(c, str):
            # the text is a substring of a constant
            s, w = subject(x, None)
            subs = {c[i:j] for i in range(len(c)) for j in range(i, len(c) + 1)} | {""}
            if len(subs) > 2000:
                raise No("scontains")
            return s, w(Regex("fullmatch", "|".join(pyre.escape(q) for q in sorted(subs)), 0))
        raise No("scontains")
    if t.op in ("startswith", "endswith") and isinstance(t.args[1], str):
        s, w = subject(t.args[0], None)
        e = pyre.escape(t.args[1])
        return s, w(Regex("match", e, 0) if t.op == "startswith" else Regex("search", e + r"\Z", 0))
    if t.op in PREDS:
        s, w = subject(t.args[0], None)
        return s, w(AllIn(named(PREDS[t.op][0]), PREDS[t.op][1]))
    if t.op == "isupper" or t.op == "islower":
        s, w = subject(t.args[0], None)
        bad = named("cased_l") if t.op == "isupper" else named("cased_u")
        return s, w(AllIn(cs_not(cs_norm(bad + named("cased_t"))), 1, named("cased_u") if t.op == "isupper" else named("cased_l")))
    # a condition on the length only
    lens = {x for x in subterms((t,)) if x.op == "slen"}
    leaves = {x for x in subterms((t,)) if x.op == "sym"}
    if len(lens) == 1 and len(leaves) == 1:
        L = next(iter(lens))
        s, w = subject(L.args[0], None)
        if t.op in ("in", "eq", "ne", "lt", "le"):
            big = 0
            for x in subterms((t,)):
                if x.op == "in":
                    for lo, _, hi, _ in x.args[1].parts:
                        for v in (lo, hi):
                            if v is not None:
                                big = max(big, abs(int(v)))
                for v in x.args:
                    if isinstance(v, int) and not isinstance(v, bool):
                        big = max(big, abs(v))
            if big > 5000:
                raise No("length")

            def f(k):
                r = subst(t, {L: k})
                if not isinstance(r, bool):
                    raise No("length")
                return r
            if any(x.op in ("mod", "floordiv", "band") for x in subterms((t,))):
                raise No("length")
            return s, w(Length(f, 2 * big + 5))
    raise No(t.op)


def assume(s):
    """acceptors of what a text symbol is known to satisfy"""
    out = []
    ex = dict(s.args[3])
    if ex.get("free"):
        out.append(AllIn(cs_not(cs_norm([(ord(c), ord(c) + 1) for c in ex["free"]])), 0))
    if ex.get("alpha") is not None:
        out.append(AllIn(cs_norm([(ord(c), ord(c) + 1) for c in ex["alpha"]]), 0))
    if ex.get("digits"):
        out.append(AllIn(((48, 58),), 1))
    if isinstance(ex.get("n"), int):
        n = ex["n"]
        out.append(Length(lambda k: k == n, n + 1))
    elif ex.get("n") is not None:
        raise No("length")
    lo, hi = ex.get("minlen"), ex.get("maxlen")
    if lo is not None:
        out.append(Length(lambda k: k >= lo, lo + 1))
    if hi is not None:
        out.append(Length(lambda k: k <= hi, hi + 1))
    if ex.get("jobj"):
        raise No("json text")
    return out


LIMIT = 200000


def valuations(langs, given):
    """every tuple of truth values of langs on texts accepted by all of given -> {tuple: text}"""
    allc = langs + given
    cuts = {0}
    for l in allc:
        for cs in l.charsets():
            for a, b in cs:
                cuts.add(a)
                cuts.add(b)
    cuts = sorted(c for c in cuts if c < MAXCP)
    sets = list({cs for l in allc for cs in l.charsets()})
    rep = {}
    pref = [ord(c) for c in "AZ09azB-_ .\n"]
    import bisect
    seg = {}
    for c in pref:
        seg.setdefault(cuts[bisect.bisect_right(cuts, c) - 1], c)
    for c in cuts:
        sig = tuple(cs_in(s, c) for s in sets)
        x = seg.get(c, c)
        if sig not in rep or c in seg and rep[sig] not in pref:
            rep[sig] = x
    alphabet = [c for c in sorted(rep.values(), key=lambda c: (pref.index(c) if c in pref else 99, c))]
    start = tuple(l.init() for l in allc)
    seen = {start: ""}
    out = {}
    todo = [start]
    n = len(langs)
    while todo:
        nxt = []
        for q in todo:
            txt = seen[q]
            if all(l.accepts(x) for l, x in zip(given, q[n:])):
                v = tuple(l.accepts(x) for l, x in zip(langs, q[:n]))
                out.setdefault(v, txt)
            for c in alphabet:
                if 0xD800 <= c < 0xE000:
                    continue
                p = tuple(l.step(x, c) for l, x in zip(allc, q))
                if p not in seen:
                    seen[p] = txt + chr(c)
                    nxt.append(p)
                    if len(seen) > LIMIT:
                        raise No("too many states")
        todo = nxt
    return out


# ------------------------------------------------------------------ boolean structure
def leaves_of(c, out):
    if isinstance(c, bool):
        return
    if not isinstance(c, T) or c.ty != "bool":
        raise No("not boolean")
    if c.op in ("and", "or", "not"):
        for a in c.args:
            leaves_of(a, out)
    elif c.op == "ite":
        for a in c.args:
            leaves_of(a, out)
    else:
        out.setdefault(c, None)


def ev(c, m):
    if isinstance(c, bool):
        return c
    if c.op == "and":
        return all(ev(a, m) for a in c.args)
    if c.op == "or":
        return any(ev(a, m) for a in c.args)
    if c.op == "not":
        return not ev(c.args[0], m)
    if c.op == "ite":
        return ev(c.args[1], m) if ev(c.args[0], m) else ev(c.args[2], m)
    return m[c]


def worlds(conds):
    """every joint truth assignment of the leaves of conds -> ({leaf: bool}, {symbol: text})"""
    lv = {}
    for c in conds:
        leaves_of(c, lv)
    by = {}
    for t in lv:
        s, l = atom(t)
        by.setdefault(s, []).append((t, l))
    per = []
    for s, tl in by.items():
        v = valuations([l for _, l in tl], assume(s))
        per.append([({t: b for (t, _), b in zip(tl, k)}, {s: txt}) for k, txt in v.items()])
    n = 1
    for p in per:
        n *= max(1, len(p))
        if n > 300000:
            raise No("too many combinations")
    for combo in itertools.product(*per):
        m, env = {}, {}
        for a, b in combo:
            m.update(a)
            env.update(b)
        yield m, env


def usable(conds):
    """conditions of a path that this module understands; the others are dropped"""
    out = []
    for c in conds:
        try:
            lv = {}
            leaves_of(c, lv)
            for t in lv:
                atom(t)
            out.append(c)
        except No:
            return None
    return out


def equivalent(g, w, pc=()):
    """True, a counterexample {symbol: text}, or None (not decided here)"""
    try:
        p = []
        for c in pc:
            q = usable([c])
            if q:
                p += q
        dropped = len(p) < len([c for c in pc if c is not True])
        for m, env in worlds(list(p) + [g, w]):
            if all(ev(c, m) for c in p) and ev(g, m) != ev(w, m):
                return None if dropped else env
        return True
    except (No, RecursionError):
        return None


def satisfiable(pc):
    """False: no texts satisfy all conditions (those understood); an assignment; or None"""
    try:
        p, dropped = [], False
        for c in pc:
            if c is True:
                continue
            q = usable([c])
            if q:
                p += q
            else:
                dropped = True
        if not p:
            return None
        for m, env in worlds(p):
            if all(ev(c, m) for c in p):
                return None if dropped else env
        return False
    except (No, RecursionError):
        return None


def constant(t):
    """truth value of a condition on one text symbol that all its texts share, or None"""
    if not isinstance(t, T):
        return t
    try:
        s, l = atom(t)
        v = valuations([l], assume(s))
    except (No, RecursionError):
        return None
    if len(v) == 1:
        return next(iter(v))[0]
    return None


def split_groups(p, fl):
    """pattern that is groups joined by one-character separators -> ([group source], separator), or None"""
    try:
        tree = parse(p, fl)
    except No:
        return None
    kinds = [str(op) for op, _ in tree]
    if len(kinds) < 3 or len(kinds) % 2 == 0 or any(k != ("SUBPATTERN" if i % 2 == 0 else "LITERAL") for i, k in enumerate(kinds)):
        return None
    seps = {av for op, av in tree if str(op) == "LITERAL"}
    if len(seps) != 1 or fl & (pyre.I | pyre.M | pyre.X):
        return None
    ch = chr(seps.pop())
    src, depth, i, start = [], 0, 0, None
    while i < len(p):
        c = p[i]
        if c == "\\":
            i += 2
            continue
        if c == "[":
            j = i + 1
            if j < len(p) and p[j] == "^":
                j += 1
            if j < len(p) and p[j] == "]":
                j += 1
            while j < len(p) and p[j] != "]":
                j += 2 if p[j] == "\\" else 1
            i = j + 1
            continue
        if c == "(":
            if depth == 0:
                start = i + 1
            depth += 1
        elif c == ")":
            depth -= 1
            if depth == 0:
                src.append(p[start:i])
        i += 1
    if len(src) != (len(kinds) + 1) // 2 or any(x.startswith("?") for x in src):
        return None
    try:
        for x in src:
            n = NFA(x, fl, "fullmatch")
            if any(isinstance(c, tuple) and cs_in(c, ord(ch)) for e in n.e for c, _ in e):
                return None
            if any("(" in x for x in src):
                return None
    except No:
        return None
    return src, ch
