"""Deciding equality of two value-graph nodes.

proved    : equal normal forms, on every leaf of the common decision tree, or equal
            bit-vector normal forms
refuted   : the two graphs evaluate to different constants for one valuation of the
            symbolic inputs that satisfies the path condition (random interpretation of
            the value graph); every operator involved is interpreted
undecided : neither
"""
import random
from fractions import Fraction

from .terms import *
from . import terms as tm
from . import bits as bt
from . import content as ct

EMPTY = Facts()


class Verdict:
    def __init__(self, kind, why="", witness=None):
        self.kind, self.why, self.witness = kind, why, witness

    def __repr__(self):
        return f"<{self.kind} {self.why}>"


def flat(x):
    """value comparable as a term"""
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    return x


def eqnum(a, b):
    """python constants equal in value and (numeric) kind"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(eqnum(x, y) for x, y in zip(a, b))
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and a.op in ("dictv", "seqv"):
        x, y = a.args[0], b.args[0]
        if a.op == "dictv" and len(x) == len(y):
            x, y = (tuple(sorted(z, key=lambda e: repr(e[0]))) for z in (x, y))
        return eqnum(x, y)
    if isinstance(a, T) or isinstance(b, T):
        return a is b
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
        if a != a or b != b:
            return a != a and b != b
        return a == b or (isinstance(a, float) or isinstance(b, float)) and abs(a - b) <= 1e-12 * abs(b)
    return type(a) is type(b) and a == b


def same2(a, b, facts):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same2(x, y, facts) for x, y in zip(a, b))
    if same(a, b):
        return True
    if not isinstance(a, T) and not isinstance(b, T):
        if isnum(a) and isnum(b):
            return eqnum(a, b)
        return False
    na = vty(a) in ("int", "real", "bool")
    nb = vty(b) in ("int", "real", "bool")
    if na and nb:
        if vty(a) != "real" and vty(b) != "real":
            if bt.eq(a, b, facts):
                return True
        r = cmp_("==", a, b)
        if isinstance(r, T):
            r = facts.val(r)
        if r is True:
            return True
    if vty(a) == "bytes" and vty(b) == "bytes":
        return same_bytes(a, b, facts)
    ca, cb = bt.canon(a, facts), bt.canon(b, facts)
    return same(ca, cb)


def same_bytes(a, b, facts):
    try:
        x, y = bt.byte_bits(a, facts), bt.byte_bits(b, facts)
        if x == y:
            return True
    except (bt.NoBits, RecursionError):
        pass
    pa = a.args if isinstance(a, T) and a.op == "cat" else (a,)
    pb = b.args if isinstance(b, T) and b.op == "cat" else (b,)
    if len(pa) == len(pb) and len(pa) > 1:
        return all(same2(p, q, facts) for p, q in zip(pa, pb))
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op == "fld" and a.args[:2] == b.args[:2]:
        return same2(a.args[2], b.args[2], facts)
    return same(bt.canon(a, facts), bt.canon(b, facts))


def consts_in(xs):
    out = {0, 1, -1, 2}
    strs = set()
    for t in subterms(tuple(xs)):
        if t.op == "in":
            q = t.args[0]
            base = 0
            for lo, _, hi, _ in t.args[1].parts:
                for v in (lo, hi):
                    if v is not None:
                        out.update((v, v - 1, v + 1))
        for a in (t.args if t.op != "poly" else ()):
            if isinstance(a, str) and t.op != "sym":
                strs.add(a)
            elif isnum(a):
                out.update((a, a - 1, a + 1))
    return sorted(out), sorted(strs)


STRPOOL = ["", "A", "CO", "XX", "FDSN:CO_HODGE_00_L_H_Z", "a/b", "2024-01-02T03:04:05Z", "é", "0", "-", "__", "BHZ"]


def equalities(pc, skip=()):
    """(symbol, expression without it) pairs the conditions demand equal"""
    used = set()
    for c in pc:
        if not isinstance(c, T):
            continue
        if c.op == "and":
            yield from equalities(c.args)
        if c.op != "in" or len(c.args[1].parts) != 1:
            continue
        lo, lc, hi, hc = c.args[1].parts[0]
        if lo is None or lo != hi:
            continue
        p = P(c.args[0])
        for mono, k in p.items():
            if len(mono) == 1 and mono[0][1] == 1 and abs(k) == 1 and mono[0][0].op == "sym":
                s = mono[0][0]
                rest = {m: v for m, v in p.items() if m != mono}
                if any(s in subterms((a,)) for m in rest for a, e in m) or s in used:
                    continue
                used.add(s)
                e = mul(sub(lo, unP(rest)), int(k))
                yield s, e
                break


class Sampler:
    def __init__(self, xs, facts, seed=1, pc=()):
        self.rnd = random.Random(seed)
        self.syms = sorted((t for t in subterms(tuple(xs)) if t.op == "sym"), key=lambda t: t.id)
        for t in list(self.syms):
            n = dict(t.args[3]).get("n") if t.ty == "bytes" else None
            if isinstance(n, T):
                self.syms += [x for x in subterms((n,)) if x.op == "sym" and x not in self.syms]
        self.lens = {x for t in self.syms if t.ty == "bytes" and isinstance(dict(t.args[3]).get("n"), T) for x in subterms((dict(t.args[3])["n"],))}
        self.consts, self.strs = consts_in(xs)
        self.facts = facts
        self.eqs = list(equalities(pc))
        self.ranges = {s: rng(s) for s, e in self.eqs}

    def pick(self, s):
        r = self.rnd
        ex = dict(s.args[3])
        if s.ty in ("int", "real"):
            isi = s.ty == "int"
            rg = rng(s, self.facts)
            if not rg.parts:
                rg = iv(s.args[1], s.args[2])
            lo, lc, hi, hc = r.choice(rg.parts) if rg.parts else (None, 0, None, 0)
            mode = r.random()
            if mode < 0.35:
                v = r.choice(self.consts)
                v = frac(v) if not isi else math.floor(v)
            elif mode < 0.6:
                c = [x for x in (lo, hi) if x is not None]
                v = r.choice(c) if c else r.randint(-5, 5)
                v += r.choice([-1, 0, 0, 1])
            else:
                a = lo if lo is not None else (hi - 10 ** r.randint(1, 6) if hi is not None else -(10 ** r.randint(1, 6)))
                b = hi if hi is not None else a + 10 ** r.randint(1, 7)
                v = a + (b - a) * Fraction(r.randint(0, 1 << 40), 1 << 40)
            if isi:
                v = int(math.floor(v))
            else:
                v = Fraction(round(v * 1024), 1024)
            if lo is not None and v < lo:
                v = math.ceil(lo) if isi else lo
            if hi is not None and v > hi:
                v = math.floor(hi) if isi else hi
            if not lc and lo is not None and v == lo:
                v = v + (1 if isi else Fraction(1, 1024))
            if not hc and hi is not None and v == hi:
                v = v - (1 if isi else Fraction(1, 1024))
            return int(v) if isi else (float(v) if Fraction(float(v)) == v else float(v))
        if s.ty == "bool":
            return r.random() < 0.5
        if s.ty == "bytes":
            n = ex.get("n")
            if n is None:
                n = r.choice([0, 1, 40, 48, 64, 128, r.randint(0, 200)] + [c for c in self.consts if isinstance(c, int) and 0 <= c <= 1 << 17])
            return r.randbytes(n)
        if s.ty == "str":
            p = r.choice(STRPOOL + self.strs)
            n = ex.get("n")
            if n is not None:
                p = "".join(r.choice("ABCXYZ019") for _ in range(n))
            if ex.get("digits"):
                p = "".join(r.choice("0123456789") for _ in range(max(1, len(p))))
            if ex.get("alpha"):
                p = "".join(r.choice(ex["alpha"]) for _ in p)
            if ex.get("free"):
                p = "".join(c for c in p if c not in ex["free"])
            if ex.get("maxlen") is not None:
                p = p[:ex["maxlen"]]
            if ex.get("minlen") is not None:
                while len(p) < ex["minlen"]:
                    p += "A"
            return p
        return None

    def env(self):
        m = {}
        late = []
        small = self.rnd.random() < 0.7
        for s in self.syms:
            if s in self.lens and small:
                # length of an input section
                m[s] = self.rnd.choice([0, 1, 2, 3, 5, 17, 64, 100])
                r = rng(s, self.facts)
                if r.parts and not in_set(m[s], r):
                    m[s] = self.pick(s)
                continue
            if s.ty == "bytes" and isinstance(dict(s.args[3]).get("n"), T):
                late.append(s)
                continue
            v = self.pick(s)
            if v is not None:
                m[s] = v
        self.settle(m, late)
        for s, e in self.eqs:
            try:
                v = concrete(e, m)
            except (ArithmeticError, ValueError, TypeError, IndexError, KeyError, OverflowError, bt.NoBits):
                continue
            if isnum(v) and in_set(v, self.ranges[s]) is True:
                if s.ty == "int" and isinstance(v, float) and v == int(v):
                    v = int(v)
                m[s] = v
        return m

    def settle(self, m, late):
        for s in late:
            n = concrete(dict(s.args[3])["n"], m)
            if isinstance(n, int) and n <= 1 << 20:
                m[s] = self.rnd.randbytes(n)


def concrete(x, env, memo=None):
    from . import fold
    fold.EVAL[0] = True
    try:
        y = subst(x, env, memo)
        if isinstance(y, T) or isinstance(y, tuple):
            y = simp(y, EMPTY)
            y = bt.canon(y, EMPTY)
    finally:
        fold.EVAL[0] = False
    return y


def isground(x):
    if isinstance(x, tuple):
        return all(isground(y) for y in x)
    if isinstance(x, T) and x.op in ("dt", "td", "tz"):
        return all(y is None or isground(y) for y in x.args)
    if isinstance(x, T) and x.op in ("dictv", "seqv"):
        return isground(x.args[0])
    return not isinstance(x, T) and isconst(x)


def refute(a, b, facts, pc, n=160, seed=1):
    """valuation of the inputs for which a and b evaluate to different constants"""
    xs = [a, b] + list(pc)
    try:
        sm = Sampler([x for x in xs if isinstance(x, (T, tuple))], facts, seed, pc)
    except RecursionError:
        return None
    if any("@L" in str(t.args[0]) for t in sm.syms):
        return None     # a value summarising the rounds of a loop: not every value occurs
    for i in range(n):
        env = sm.env()
        try:
            memo = {}
            ok = True
            for c in pc:
                v = concrete(c, env, memo)
                if v is not True:
                    ok = False
                    break
            if not ok:
                continue
            va = concrete(a, env, memo)
            vb = concrete(b, env, memo)
        except (ArithmeticError, ValueError, TypeError, IndexError, KeyError, RecursionError, OverflowError, bt.NoBits, Budget):
            continue
        d = differs(va, vb)
        if d:
            return env, va, vb
    return None


def differs(va, vb):
    """the two evaluated values are certainly different"""
    if isinstance(va, tuple) and isinstance(vb, tuple):
        if len(va) != len(vb):
            return True
        return any(differs(x, y) for x, y in zip(va, vb))
    if isground(va) and isground(vb):
        return not eqnum(va, vb)
    return False


def wit(env, va, vb):
    def sh(v):
        s = repr(v)
        return s if len(s) < 80 else s[:77] + "..."
    ins = ", ".join(f"{s.args[0]}={sh(v)}" for s, v in list(env.items())[:14])
    return f"[{ins}] gives {sh(va)}, expected {sh(vb)}"


def decide(got, want, facts=None, pc=(), limit=400, seed=1):
    facts = facts or EMPTY
    got, want = flat(got), flat(want)
    if same(got, want):
        return Verdict("ok")
    g, w = simp(got, facts), simp(want, facts)
    if same2(g, w, facts):
        return Verdict("ok")
    if isground(g) and isground(w) and not isinstance(g, tuple):
        if eqnum(g, w):
            return Verdict("ok")
        return Verdict("bad", f"is {g!r}, expected {w!r}")
    fail = None
    try:
        leaves = cases((g, w), facts, limit)
        for f, (x, y) in leaves:
            if f.dead:
                continue
            if not same2(x, y, f):
                fail = (f, x, y)
                break
        if fail is None:
            return Verdict("ok")
    except (Budget, RecursionError):
        leaves = None
    v = bytext(g, w, facts, pc)
    if v is not None:
        return v
    r = refute(g, w, facts, pc, seed=seed)
    if r is not None:
        return Verdict("bad", wit(*r), r[0])
    if fail is not None:
        f, x, y = fail
        r = refute(x, y, f, list(pc) + list(leafpc(f, facts)), seed=seed)
        if r is not None:
            return Verdict("bad", wit(*r), r[0])
        return Verdict("undecided", f"{show(x)[:300]} vs {show(y)[:300]}")
    return Verdict("undecided", f"{show(g)[:300]} vs {show(w)[:300]}")


def bytext(g, w, facts, pc):
    """conditions over text compared as regular languages -> verdict, or None"""
    from . import rx
    if isinstance(g, tuple) and isinstance(w, tuple) and len(g) == len(w):
        out = []
        for a, b in zip(g, w):
            if same2(a, b, facts):
                continue
            v = bytext(a, b, facts, pc)
            if v is None:
                return None
            out.append(v)
        return next((v for v in out if v.kind == "bad"), Verdict("ok"))
    if not (isinstance(g, (T, bool)) and isinstance(w, (T, bool)) and isbool(g) and isbool(w)):
        return None
    r = rx.equivalent(g, w, [c for c in pc if isinstance(c, T)])
    if r is True:
        return Verdict("ok")
    if r is None:
        return None
    try:
        va, vb = concrete(g, r), concrete(w, r)
    except (ArithmeticError, ValueError, TypeError, IndexError, KeyError, RecursionError, bt.NoBits, Budget):
        return None
    if differs(va, vb):
        return Verdict("bad", wit(r, va, vb), r)
    return None


def leafpc(f, base):
    """conditions a decision-tree leaf adds to its base facts"""
    out = []
    for q, s in f.iv.items():
        if base.iv.get(q) != s:
            out.append(in_set(q, s))
    for c, v in f.tv.items():
        if base.tv.get(c) is not v:
            out.append(c if v else not_(c))
    return out


def entails(facts, c, pc=(), seed=1):
    """c holds under facts"""
    if isinstance(c, T):
        c = simp(c, facts)
    if c is True:
        return Verdict("ok")
    f = facts.copy()
    n = not_(c) if isinstance(c, T) else (not c)
    if not f.assume(n):
        return Verdict("ok")
    try:
        for f2, y in cases(c, facts, 200, split_bools=True):
            if y is not True and not f2.dead:
                break
        else:
            return Verdict("ok")
    except (Budget, RecursionError):
        pass
    v = bytext(c, True, facts, pc)
    if v is not None:
        return v
    r = refute(c, True, facts, pc, seed=seed)
    if r is not None:
        return Verdict("bad", wit(*r), r[0])
    if c is False:
        return Verdict("bad", "never holds")
    return Verdict("undecided", show(c)[:300])
