"""Rule context: obligations, anchors, evidence, known findings."""
import ast
import os
import signal
import time

from .interp import *
from .interp import Unsupported, Dead
from .terms import *
from . import terms as tm
from . import content as ct
from . import bits as bt
from . import rx
from . import m_bytes, m_np, m_misc, m_time, fold  # noqa: F401
from .decide import concrete, decide, entails, Verdict, refute, EMPTY

REPO = os.environ.get("SIMPLEMSEED_REPO", "/repo")
SRC = os.path.join(REPO, "src")


class AnchorMissing(Exception):
    """a public name the property is stated about is not in the source"""


class Ob:
    def __init__(self, rule, construct, where, status, detail=""):
        self.rule, self.construct, self.where, self.status, self.detail = rule, construct, where, status, detail

    @property
    def key(self):
        return f"{self.rule} | {self.construct}"


class Ctx:
    """one property's analysis run over the current source"""

    def __init__(self, prop, tier="quick", src=None):
        self.prop = prop
        self.tier = tier
        self.src = src or SRC
        self.I = Interp(self.src)
        self.obs = []
        self.notes = []
        self.floors = {}
        self.runs = 0
        self.functions = set()
        self.steps = 0
        self.t0 = time.time()
        self.worker = (0, 1)    # contexts of a rule are shared among worker processes
        self.nattempt = 0
        self.inside = False
        self.attempt_limit = 90 if tier == "quick" else 300
        self.total_limit = 500 if tier == "quick" else 3000

    # -------------------------------------------------------------- anchors
    def mod(self, name):
        m = self.I.load("simplemseed." + name if name else "simplemseed")
        if m is None:
            raise AnchorMissing(name)
        return m

    def get(self, path):
        """'mseed3:MSeed3Record.pack' -> function / class"""
        mod, _, q = path.partition(":")
        m = self.mod(mod)
        v = last = m
        for i, p in enumerate(q.split(".")):
            if i == 0:
                v = m.env.get(p)
            elif isinstance(v, ClassV):
                v = v.lookup(p)
                if isinstance(v, PropV):
                    v = v.fget
            else:
                v = None
            if v is None:
                return last     # moved or renamed: only used to say where the rule applies
            last = v
        return v

    def prop_fn(self, path, kind):
        mod, _, q = path.partition(":")
        cls, name = q.split(".")
        c = self.get(f"{mod}:{cls}")
        v = c.lookup(name) if isinstance(c, ClassV) else None
        if not isinstance(v, PropV) or getattr(v, kind) is None:
            return c
        return getattr(v, kind)

    # -------------------------------------------------------------- running
    def driver(self, src):
        """functions of a driver program, interpreted abstractly together with the package"""
        import re
        import textwrap
        src = textwrap.dedent(src)
        for node in ast.walk(ast.parse(src)):
            if isinstance(node, ast.ImportFrom) and node.module.startswith("simplemseed"):
                m = self.mod(node.module.partition(".")[2])
                for al in node.names:
                    if m.env.get(al.name) is None and self.I.modules.get(node.module + "." + al.name) is None:
                        p = os.path.join(self.src, *(node.module + "." + al.name).split(".")) + ".py"
                        if not os.path.exists(p):
                            raise AnchorMissing(f"{node.module}.{al.name}")
        self.ndrv = getattr(self, "ndrv", 0) + 1
        return self.I.load_source(f"driver{self.ndrv}", src).env

    def run(self, fn, args=(), kwargs=None, st=None):
        r = self.I.run(fn, list(args), kwargs or {}, st)
        self.runs += 1
        return r

    def state(self):
        return self.I.new_state()

    # -------------------------------------------------------------- obligations
    def where(self, fn=None, node=None):
        f = fn.func if isinstance(fn, BoundV) else fn
        if isinstance(f, PropV):
            f = f.fget
        path, line = "", 0
        m = getattr(f, "module", None)
        if m is None and hasattr(f, "env"):
            m = f
        if m is not None:
            path = "src/" + m.name.replace(".", "/") + ".py"
            if m.name == "simplemseed":
                path = "src/simplemseed/__init__.py"
        n = node if node is not None else getattr(f, "node", None)
        line = getattr(n, "lineno", 0)
        return f"{path}:{line}"

    def evwhere(self, ev):
        """file:line of an event"""
        fn = ev.fn
        mod = str(fn).split(":")[0] if fn else ""
        return f"src/simplemseed/{mod}.py:{ev.line}"

    def add(self, rule, construct, where, status, detail=""):
        assert status in ("ok", "bad", "undecided")
        if not self.inside and self.worker[0] != 0:
            return status == "ok"
        o = Ob(rule, construct, where, status, detail)
        o.seq = self.nattempt
        self.obs.append(o)
        return status == "ok"

    def verdict(self, rule, construct, where, v, detail=""):
        d = v.why if not detail else f"{detail}: {v.why}" if v.why else detail
        return self.add(rule, construct, where, v.kind, d if v.kind != "ok" else "")

    def eq(self, rule, construct, where, got, want, st=None, detail="", facts=None, pc=None):
        f = facts if facts is not None else (st.facts if st is not None else EMPTY)
        p = pc if pc is not None else (st.pc if st is not None else ())
        return self.verdict(rule, construct, where, decide(got, want, f, p), detail)

    def holds(self, rule, construct, where, cond, st=None, detail="", facts=None, pc=None):
        f = facts if facts is not None else (st.facts if st is not None else EMPTY)
        p = pc if pc is not None else (st.pc if st is not None else ())
        return self.verdict(rule, construct, where, entails(f, cond, p), detail)

    def ok(self, rule, construct, where, cond, detail=""):
        """structural obligation: cond is a python bool, or None if it cannot be told"""
        return self.add(rule, construct, where, "ok" if cond else ("undecided" if cond is None else "bad"), "" if cond else detail)

    def floor(self, rule, n):
        self.floors[rule] = n

    # -------------------------------------------------------------- raises
    def exc_name(self, e):
        return self.I.exc_name(e)

    def exc_is(self, e, names):
        """exception object e is of (a subclass of) one of the named library classes"""
        n = self.I.exc_name(e)
        if n in names:
            return True
        cls = e.cls if isinstance(e, Obj) else e
        if isinstance(cls, ClassV):
            return any(getattr(c, "name", None) in names for c in cls.mro())
        return False

    def raised(self, r, names):
        return [x for x in r.raises if self.exc_is(x[1], names)]

    def other_raises(self, r, names):
        return [x for x in r.raises if not self.exc_is(x[1], names) and not impossible(x[0])]

    def never_returns(self, rule, construct, where, r, names, detail=""):
        """all executions of r raise one of the named exceptions (any exception if names is None)"""
        if names is None:
            names = {"any exception"}
            if not r.alive and r.raises:
                return self.add(rule, construct, where, "ok")
        if r.alive and not impossible(r.state):
            env = feasible(r.state, r.npc)
            if env is None:
                return self.add(rule, construct, where, "undecided", "normal return not excluded")
            return self.add(rule, construct, where, "bad", (detail or "returns normally instead of raising " + "/".join(sorted(names))) + " " + envstr(env))
        oth = self.other_raises(r, names)
        if oth:
            return self._raise_bad(rule, construct, where, oth, "raises {} instead of " + "/".join(sorted(names)))
        if not r.raises:
            return self.add(rule, construct, where, "undecided", "no outcome found")
        return self.add(rule, construct, where, "ok")

    def _raise_bad(self, rule, construct, where, oth, msg):
        for s, e, nd in oth:
            env = feasible(s, 0)
            if env is not None:
                m = msg.format(f"{self.exc_name(e)} (line {getattr(nd, 'lineno', '?')})")
                return self.add(rule, construct, where, "bad", m + " " + envstr(env))
        s, e, nd = oth[0]
        return self.add(rule, construct, where, "undecided", f"{self.exc_name(e)} (line {getattr(nd, 'lineno', '?')}) not excluded: {[show(c)[:120] for c in s.pc[-3:]]}")

    def only_raises(self, rule, construct, where, r, names, detail=""):
        oth = self.other_raises(r, names)
        if oth:
            return self._raise_bad(rule, construct, where, oth, detail + "can raise {}")
        return self.add(rule, construct, where, "ok")

    def completes(self, rule, construct, where, r):
        """some execution of r ends normally"""
        if r.alive:
            return True
        if not r.raises:
            self.add(rule, construct, where, "undecided", "no outcome found")
        else:
            self._raise_bad(rule, construct, where, r.raises, "never completes: {}")
        return False

    def returns(self, rule, construct, where, r, detail=""):
        """no execution of r raises"""
        if r.raises:
            return self._raise_bad(rule, construct, where, r.raises, detail + (" can raise {}" if r.alive else " always raises {}"))
        if not r.alive:
            return self.add(rule, construct, where, "undecided", "no outcome found")
        return self.add(rule, construct, where, "ok")


def envstr(env):
    return "[" + ", ".join(f"{s.args[0]}={repr(v)[:60]}" for s, v in list(env.items())[:8]) + "]" if env else ""


def impossible(st):
    """no input satisfies the conditions of this path"""
    from .decide import concrete
    for c in st.pc:
        if isinstance(c, T) and not any(isinstance(x, T) and x.op in ("sym", "opaque") for x in tm.subterms(c)):
            try:
                if concrete(c, {}) is False:
                    return True
            except (ArithmeticError, ValueError, TypeError, IndexError, KeyError, RecursionError, OverflowError, bt.NoBits, Budget):
                pass
    return rx.satisfiable([c for c in st.pc if isinstance(c, T)]) is False


def feasible(st, npc=0, n=300):
    """a valuation of the inputs satisfying the path condition of st, {} if there is none to satisfy, or None"""
    from .decide import Sampler, concrete
    pc = [c for c in st.pc if isinstance(c, T)]
    if not pc:
        return {}
    env = rx.satisfiable(pc)
    if env is False:
        return None
    if env:
        try:
            if all(concrete(c, env) is True for c in pc):
                return env
        except (ArithmeticError, ValueError, TypeError, IndexError, KeyError, RecursionError, OverflowError, bt.NoBits, Budget):
            pass
    try:
        sm = Sampler(pc, st.facts, 7, pc)
    except RecursionError:
        return None
    left = None
    for _ in range(n):
        env = sm.env()
        try:
            memo = {}
            vs = [concrete(c, env, memo) for c in pc]
        except (ArithmeticError, ValueError, TypeError, IndexError, KeyError, RecursionError, OverflowError, bt.NoBits, Budget):
            continue
        if all(v is True for v in vs):
            return env
        if left is None and all(v is True or isinstance(v, T) and opaque_cond(v) for v in vs):
            left = env
    return left


def opaque_cond(v):
    """condition over values the library models leave open (either outcome possible)"""
    return False


def symbolic_escape(r):
    """the normal return depends on a condition over uninterpreted values"""
    if not r.alive:
        return False
    for c in r.state.pc[r.npc:]:
        for t in subterms(c):
            if t.op == "opaque" or t.op == "sym" and "#" in str(t.args[0]):
                return True
    return False


def attempt(ctx, rule, construct, where, f):
    """run one context of a rule; analysis limits become undecided obligations"""
    ctx.nattempt += 1
    if ctx.nattempt % ctx.worker[1] != ctx.worker[0]:
        return None
    ctx.inside = True
    try:
        return attempt1(ctx, rule, construct, where, f)
    finally:
        ctx.inside = False


def attempt1(ctx, rule, construct, where, f):
    limit = min(ctx.attempt_limit, ctx.total_limit - (time.time() - ctx.t0))
    if limit <= 0:
        ctx.add(rule, construct, where, "undecided", "analysis time used up")
        return None
    ctx.steps += ctx.I.steps
    ctx.I.steps = 0
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, limit, 5)
        return f()
    except AnchorMissing:
        raise
    except (Unsupported, Budget, RecursionError, Dead, TypeError, AttributeError, KeyError, IndexError, ValueError, AssertionError, ZeroDivisionError, OverflowError) as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        import traceback
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
        ctx.add(rule, construct, where, "undecided", f"analysis stopped: {type(e).__name__}: {str(e)[:160]}")
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_rule(mod, ctx, jobs=1):
    """all contexts of a rule module, shared among processes"""
    import pickle
    if jobs <= 1:
        mod.check(ctx)
        ctx.functions |= set(ctx.I.functions_analysed)
        ctx.steps += ctx.I.steps
        return
    kids = []
    for w in range(jobs):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            err = None
            try:
                os.close(rd)
                ctx.worker = (w, jobs)
                try:
                    mod.check(ctx)
                except BaseException as e:
                    err = (type(e).__name__, str(e)[:500])
                obs = [(o.seq, o.rule, o.construct, o.where, o.status, o.detail) for o in ctx.obs]
                with os.fdopen(wr, "wb") as fh:
                    pickle.dump((obs, ctx.floors, ctx.runs, ctx.I.steps, sorted(ctx.I.functions_analysed), err), fh)
            finally:
                os._exit(0)
        os.close(wr)
        kids.append((w, pid, rd))
    errs, obs = [], []
    for w, pid, rd in kids:
        with os.fdopen(rd, "rb") as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        try:
            o, floors, runs, steps, fns, err = pickle.loads(data)
        except (EOFError, pickle.UnpicklingError):
            ctx.add("analysis", f"worker {w}", "", "undecided", "analysis process ended early")
            continue
        obs += o
        ctx.floors.update(floors)
        ctx.runs += runs
        ctx.steps += steps
        ctx.functions |= set(fns)
        if err is not None:
            errs.append(err)
    obs.sort(key=lambda x: x[0])
    for seq, rule, con, where, status, detail in obs:
        ctx.add(rule, con, where, status, detail)
    for name, msg in errs:
        if name == "AnchorMissing":
            raise AnchorMissing(msg)
        if name == "SyntaxError":
            raise SyntaxError(msg)
    for name, msg in errs:
        raise RuntimeError(f"{name}: {msg}")


def _alarm(*a):
    raise Budget("time limit of one context")


# ------------------------------------------------------------------ content helpers
NOF = Facts()


def sl(c, off, n, facts=None):
    """n bytes of content c at off"""
    return ct.slice_(c, off, add(off, n), facts or NOF)


def u(code, endian, c, off=0, facts=None):
    """value of struct code at offset off of content c"""
    return ct.unp(code, endian, sl(c, off, ct.SIZE[code], facts))


def f(code, endian, v):
    return ct.fld(code, endian, v)


def content_of(v, st):
    """byte content of a bytes-like value"""
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    if isinstance(v, Obj):
        cell = st.heap.get(v, {})
        return cell.get("c", cell.get("content"))
    return v
