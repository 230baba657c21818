"""Abstract interpreter over the Python AST: gated (if-converted) value graphs.

Statements are interpreted structurally.  At joins, values that differ become
ite(condition, a, b) terms (gated SSA); no path is enumerated.  Loops over
constant ranges are unrolled, other loops are summarised by one iteration from
a havocked head with inductive linear facts.  Calls to analysed code are
inlined; calls to library code go to models.py.
"""
import ast
import itertools
import os
from .terms import *
from . import terms as tm
from . import content as ct


class Dead(Exception):
    """current abstract state has no normal continuation"""


class Unsupported(Exception):
    pass


_objids = itertools.count(1)


class Obj:
    """heap reference"""

    __slots__ = ("cls", "n", "site", "lazy", "name")

    def __init__(self, cls, site=None, lazy=False, name=None):
        self.cls = cls
        self.n = next(_objids)
        self.site = site
        self.lazy = lazy
        self.name = name

    def __repr__(self):
        c = self.cls if isinstance(self.cls, str) else self.cls.name
        return f"<{c}@{self.name or self.n}>"


class FuncV:
    def __init__(self, name, node, module, cls=None, closure=None, defaults=None, kwdefaults=None, kind="func"):
        self.name = name
        self.node = node
        self.module = module
        self.cls = cls
        self.closure = closure
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}
        self.kind = kind
        self.isgen = _is_gen(node)

    def __repr__(self):
        return f"<func {self.qual}>"

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name


def _is_gen(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class BoundV:
    def __init__(self, self_, func):
        self.self_ = self_
        self.func = func

    def __hash__(self):
        return hash((id(self.self_), id(self.func)))

    def __repr__(self):
        return f"<bound {self.func} of {self.self_}>"


class PropV:
    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class ClassV:
    def __init__(self, name, bases, module, node=None):
        self.name = name
        self.bases = bases
        self.module = module
        self.attrs = {}
        self.ann = {}
        self.node = node
        self.fields = None  # namedtuple fields
        self.nt_defaults = ()

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
            elif b not in out:
                out.append(b)
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, ClassV) and name in c.attrs:
                return c.attrs[name]
        return None

    def annotation(self, name):
        for c in self.mro():
            if isinstance(c, ClassV) and name in c.ann:
                return c.ann[name]
        return None

    def __repr__(self):
        return f"<class {self.name}>"


class Ext:
    """external (library/builtin) name"""

    _t = {}

    def __new__(cls, name):
        e = cls._t.get(name)
        if e is None:
            e = object.__new__(cls)
            e.name = name
            cls._t[name] = e
        return e

    def __repr__(self):
        return f"<ext {self.name}>"


class BMeth:
    """method of a builtin-kind value"""

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name

    def __repr__(self):
        return f"<bmeth {self.recv}.{self.name}>"


class ModuleV:
    def __init__(self, name):
        self.name = name
        self.env = {}
        self.path = None

    def __repr__(self):
        return f"<module {self.name}>"


class Star:
    """*args expansion of a symbolic sequence"""

    def __init__(self, v):
        self.v = v


class RangeV:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class GenV:
    """un-started generator of an analysed generator function"""

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs
        self.cell = Obj("genstate")


MISSING = type("M", (), {"__repr__": lambda s: "MISSING"})()


class State:
    __slots__ = ("stack", "heap", "facts", "pc", "shared")

    def __init__(self):
        self.stack = [{}]
        self.heap = {}
        self.facts = Facts()
        self.pc = []

    def copy(self):
        s = State()
        s.stack = [dict(d) for d in self.stack]
        s.heap = {o: dict(d) for o, d in self.heap.items()}
        s.facts = self.facts.copy()
        s.pc = list(self.pc)
        return s

    @property
    def loc(self):
        return self.stack[-1]

    def become(self, o):
        self.stack = o.stack
        self.heap = o.heap
        self.facts = o.facts
        self.pc = o.pc

    def assume(self, c):
        """add to path condition; False if infeasible"""
        if isinstance(c, T):
            c = self.facts.val(c)
        if c is True:
            return True
        if c is False:
            return False
        self.pc.append(c)
        return self.facts.assume(c)

    def axiom(self, c):
        if c is True or c is False:
            return
        self.facts.assume(c)


class Event:
    def __init__(self, kind, node, st, fn, **kw):
        self.kind = kind
        self.node = node
        self.fn = fn
        self.st = st
        self.__dict__.update(kw)

    def __repr__(self):
        d = {k: v for k, v in self.__dict__.items() if k not in ("kind", "node", "fn", "st")}
        return f"<{self.kind}@{self.line} {d}>"

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)


class Frame:
    def __init__(self, fn, module, base):
        self.fn = fn
        self.module = module
        self.returns = []
        self.base = base
        self.loops = []


STUBS = {"jsonpointer"}
EXC_PARENT = {
    "Exception": "BaseException", "ValueError": "Exception", "TypeError": "Exception",
    "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
    "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "OverflowError": "ArithmeticError", "AttributeError": "Exception", "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError", "OSError": "Exception", "IOError": "OSError",
    "EOFError": "Exception", "StopIteration": "Exception", "AssertionError": "Exception",
    "UnicodeDecodeError": "ValueError", "UnicodeError": "ValueError", "UnicodeEncodeError": "ValueError",
    "BrokenPipeError": "OSError", "struct.error": "Exception", "json.JSONDecodeError": "ValueError",
    "re.error": "Exception", "FileNotFoundError": "OSError", "FileExistsError": "OSError",
    "SystemExit": "BaseException", "KeyboardInterrupt": "BaseException", "GeneratorExit": "BaseException",
    "NameError": "Exception", "StopAsyncIteration": "Exception", "PermissionError": "OSError",
    "BufferError": "Exception", "MemoryError": "Exception", "RecursionError": "RuntimeError",
}


class Interp:
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.events = []
        self.muted = 0
        self.sinks = []
        self.frames = []
        self.max_depth = 60
        self.init_state = State()
        self.call_hooks = {}
        self.opaque_calls = set()  # qualified names not to inline
        self.steps = 0
        self.max_steps = 3_000_000
        self.srcfiles = {}
        self.notes = []
        self.argv = None  # command line given to argparse
        self.functions_analysed = set()
        self.loading = []
        self.inline_gens = False  # run a generator's consumer at its yields
        self.unroll = 0  # bound for unrolling while loops over constant-shape input
        self.gen_cb = []
        from . import models

        self.models = models

    # ------------------------------------------------------------ modules
    def load(self, name):
        """load package module by dotted name relative to package 'simplemseed'"""
        if name in self.modules:
            return self.modules[name]
        rel = name.split(".")
        p = os.path.join(self.root, *rel)
        if os.path.isdir(p):
            path = os.path.join(p, "__init__.py")
        else:
            path = p + ".py"
        if not os.path.exists(path):
            raise Unsupported(f"module {name} not found at {path}")
        with open(path, encoding="utf-8") as f:
            src = f.read()
        return self.exec_module(name, path, src)

    def load_stub(self, name, st):
        """reference model of a third party module"""
        if name not in self.modules:
            with open(os.path.join(os.path.dirname(__file__), "stubs", name + ".py"), encoding="utf-8") as f:
                self.exec_module(name, f"<{name}>", f.read())
        return self.modules[name]

    def load_source(self, name, src):
        """analyse a synthetic module (driver programs of the rules); never executed"""
        return self.exec_module(name, f"<{name}>", src)

    def exec_module(self, name, path, src):
        m = ModuleV(name)
        m.path = path
        self.modules[name] = m
        tree = ast.parse(src, path)
        self.srcfiles[name] = path
        fr = Frame(None, m, self.init_state)
        st = self.init_state
        saved = st.stack
        st.stack = [m.env]
        m.env["__name__"] = name
        m.env["__package__"] = name.rsplit(".", 1)[0]
        m.env["__file__"] = path
        self.frames.append(fr)
        self.sinks.append([])
        self.muted += 1
        try:
            for stmt in tree.body:
                r = self.exec_stmt(stmt, st)
                if r is None:
                    raise Unsupported(f"{path}:{stmt.lineno}: module level statement does not complete")
                if r is not st:
                    st.become(r)
                m.env = st.stack[-1]
        finally:
            self.muted -= 1
            self.frames.pop()
            self.sinks.pop()
            st.stack = saved
        # class/func module objects already refer to m
        return m

    def lookup_path(self, path):
        """'mseed3:MSeed3Record.pack'"""
        mod, _, q = path.partition(":")
        m = self.load("simplemseed." + mod)
        cur = None
        for i, part in enumerate(q.split(".")):
            if i == 0:
                cur = m.env.get(part)
            else:
                cur = cur.lookup(part) if isinstance(cur, ClassV) else None
            if cur is None:
                return None
        return cur

    # ------------------------------------------------------------ events
    def event(self, kind, node, st, **kw):
        if self.muted:
            return None
        fn = None
        for f in reversed(self.frames):
            if f.fn is not None:
                fn = f
                break
        e = Event(kind, node, None, fn.fn.qual if fn else "<module>", **kw)
        e.module = self.frames[-1].module.name if self.frames else ""
        e.facts = st.facts.copy()
        e.pc = list(st.pc)
        e.heap = {o: dict(d) for o, d in st.heap.items()}
        e.loc = dict(st.loc)
        e.chain = [f.fn.qual for f in self.frames if f.fn is not None]
        self.events.append(e)
        return e

    # ------------------------------------------------------------ merging
    def merge(self, base, states, extra=None):
        """merge alive states (all derived from base) -> state, values

        states: list of (state, value)."""
        if not states:
            return None, None
        if len(states) == 1:
            return states[0]
        n0 = len(base.pc)
        sufs = []
        for s, v in states:
            sufs.append(and_(*s.pc[n0:]))
        # drop common literals
        conds = sufs
        out = State()
        s_last, v_last = states[-1]
        out.stack = [dict(d) for d in s_last.stack]
        out.heap = {o: dict(d) for o, d in s_last.heap.items()}
        val = v_last
        facts = base.facts.copy()
        out.pc = list(base.pc)
        for (s, v), c in list(zip(states, conds))[-2::-1]:
            val = self.mval(c, v, val, s, out)
            # locals (top frame; all frames when a generator's consumer runs inside it)
            for lv in range(len(out.stack) - 1, -1, -1) if self.inline_gens else (-1,):
                a, b = s.stack[lv], out.stack[lv]
                for k in list(a.keys() | b.keys()):
                    x, y = a.get(k, MISSING), b.get(k, MISSING)
                    if x is y:
                        continue
                    if x is MISSING:
                        b[k] = y  # may be undefined; keep defined value
                    elif y is MISSING:
                        b[k] = x
                    else:
                        b[k] = self.mval(c, x, y, s, out)
            for o, d in s.heap.items():
                e = out.heap.get(o)
                if e is None:
                    out.heap[o] = dict(d)
                    continue
                if d == e if False else all(d.get(k, MISSING) is e.get(k, MISSING) for k in d.keys() | e.keys()):
                    continue
                out.heap[o] = self.mcell(o, c, d, e, s, out)
        d = or_(*conds)
        if isinstance(d, T):
            d = facts.val(d)
        out.facts = facts
        # keep intervals common to all branches (numeric hull on shared directions)
        for q in list(states[0][0].facts.iv):
            u = None
            for s, _ in states:
                f = s.facts.iv.get(q)
                if f is None:
                    u = None
                    break
                u = f if u is None else u.union(f)
            if u is not None:
                cur = facts.iv.get(q)
                facts.iv[q] = u if cur is None else cur.inter(u)
        for k, v in states[0][0].facts.tv.items():
            if k not in facts.tv and all(s.facts.tv.get(k) == v for s, _ in states):
                facts.tv[k] = v
        for k, v in states[0][0].facts.sub.items():
            if k not in facts.sub and all(k in s.facts.sub and same(s.facts.sub[k], v) for s, _ in states):
                facts.sub[k] = v
        if isinstance(d, T):
            out.pc.append(d)
            facts.assume(d)
        return out, val

    def mval(self, c, a, b, sa, sb):
        if a is b or same(a, b):
            return a
        if isinstance(a, BoundV) and isinstance(b, BoundV) and a.self_ is b.self_ and a.func is b.func:
            return a
        if a is MISSING:
            return b
        if b is MISSING:
            return a
        return ite(c, a, b)

    def mcell(self, o, c, d, e, sa, sb):
        out = {}
        for k in list(e.keys()) + [k for k in d if k not in e]:
            x, y = d.get(k, MISSING), e.get(k, MISSING)
            if k == "ents":
                out[k] = merge_ents(self, c, x, y, sa, sb)
            elif k == "items" and x is not MISSING and y is not MISSING and o.cls in ("list", "set"):
                out[k] = x if x is y else self.models.seq_ite(c, x, y)
            elif x is MISSING:
                out[k] = ite(c, UNDEF, y) if o.cls.__class__ is ClassV else y
            elif y is MISSING:
                out[k] = ite(c, x, UNDEF) if o.cls.__class__ is ClassV else x
            else:
                out[k] = self.mval(c, x, y, sa, sb)
        return out

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.exec_stmt(s, st)
        return st

    def exec_stmt(self, s, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("too many steps")
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        try:
            return m(s, st)
        except Dead:
            return None

    def x_Expr(self, s, st):
        if isinstance(s.value, ast.YieldFrom):
            return self.yield_alts(self.ev(s.value.value, st), st, s.value)
        self.ev(s.value, st)
        return st

    def yield_alts(self, v, st, e):
        if isinstance(v, T) and v.op == "ite" and self.seq_items(v, st) is None:
            return self.fork(st, v, lambda x, q: self.yield_alts(x, q, e))
        self.yield_from(v, st, e)
        return st

    def x_Pass(self, s, st):
        return st

    def x_Global(self, s, st):
        return st

    x_Nonlocal = x_Global

    def x_Assert(self, s, st):
        c = self.truth(self.ev(s.test, st), st, s.test)
        b = st.copy()
        if b.assume(not_(c)):
            try:
                self.do_raise(b, self.new_exc("AssertionError", (), b), s)
            except Dead:
                pass
        if not st.assume(c):
            return None
        return st

    def x_Import(self, s, st):
        for a in s.names:
            n = a.name
            if n.split(".")[0] == "simplemseed":
                st.loc[a.asname or n.split(".")[0]] = self.load(n if a.asname else n.split(".")[0])
                continue
            if n in STUBS:
                st.loc[a.asname or n] = self.load_stub(n, st)
                continue
            if a.asname:
                st.loc[a.asname] = Ext(n)
            else:
                st.loc[n.split(".")[0]] = Ext(n.split(".")[0])
        return st

    def x_ImportFrom(self, s, st):
        mod = self.frames[-1].module
        if s.level or (s.module or "").split(".")[0] == "simplemseed" or s.module in STUBS:
            if s.module in STUBS and not s.level:
                full = s.module
            elif s.level:
                pk = mod.name.split(".")
                if not mod.path.endswith("__init__.py"):
                    pk = pk[:-1]
                pk = pk[: len(pk) - (s.level - 1)]
                full = ".".join(pk + ([s.module] if s.module else []))
            else:
                full = s.module
            saved_stack = self.init_state.stack
            m = self.load(full) if full not in STUBS else self.load_stub(full, st)
            if st is not self.init_state:
                for o, d in self.init_state.heap.items():
                    st.heap.setdefault(o, dict(d))
            for a in s.names:
                if a.name == "*":
                    for k, v in m.env.items():
                        if not k.startswith("_"):
                            st.loc[k] = v
                    continue
                v = m.env.get(a.name, MISSING)
                if v is MISSING:
                    try:
                        v = self.load(full + "." + a.name)
                    except Unsupported:
                        v = Ext(full + "." + a.name)
                st.loc[a.asname or a.name] = v
        else:
            for a in s.names:
                st.loc[a.asname or a.name] = Ext(s.module + "." + a.name)
        return st

    def x_FunctionDef(self, s, st):
        f = self.make_func(s, st)
        for d in reversed(s.decorator_list):
            f = self.decorate(d, f, st)
        st.loc[s.name] = f
        return st

    def make_func(self, s, st, cls=None):
        a = s.args
        defaults = [self.ev(d, st) for d in a.defaults]
        kwd = {x.arg: self.ev(d, st) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        clo = None
        if self.frames and self.frames[-1].fn is not None:
            clo = [d for d in st.stack[-1:]]
            clo = clo[0]
        name = getattr(s, "name", "<lambda>")
        f = FuncV(name, s, self.frames[-1].module, cls, clo, defaults, kwd)
        if clo is not None:
            f.outer = self.frames[-1].fn
        return f

    def decorate(self, d, f, st):
        if isinstance(d, ast.Name) and d.id == "property":
            return PropV(f)
        if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod"):
            f.kind = d.id
            return f
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter", "getter") and isinstance(d.value, ast.Name):
            p = st.loc.get(d.value.id)
            if isinstance(p, PropV):
                q = PropV(p.fget, p.fset, p.fdel)
                setattr(q, {"setter": "fset", "deleter": "fdel", "getter": "fget"}[d.attr], f)
                return q
        v = self.ev(d, st)
        if isinstance(v, Ext) and v.name in ("functools.lru_cache", "functools.cache", "functools.wraps", "typing.overload", "functools.cached_property"):
            return f if not v.name.endswith("cached_property") else PropV(f)
        if isinstance(v, T) and v.op == "opaque" and "lru_cache" in str(v.args[0]):
            return f
        return self.call(v, [f], {}, st, d)

    def x_ClassDef(self, s, st):
        bases = [self.ev(b, st) for b in s.bases]
        c = ClassV(s.name, bases, self.frames[-1].module, s)
        st.stack.append({})
        try:
            for x in s.body:
                if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                    c.ann[x.target.id] = x.annotation
                r = self.exec_stmt(x, st)
                if r is None:
                    raise Unsupported("class body")
                if r is not st:
                    st.become(r)
        finally:
            env = st.stack.pop()
        for k, v in env.items():
            for f in ((v,) if isinstance(v, FuncV) else (v.fget, v.fset, v.fdel) if isinstance(v, PropV) else ()):
                if f is not None and f.cls is None:
                    f.cls = c
        c.attrs = env
        for d in s.decorator_list:
            dv = self.ev(d, st)
            if isinstance(dv, Ext) and dv.name == "dataclasses.dataclass" or isinstance(dv, T):
                c.dataclass = [(x.target.id, self.ev(x.value, st) if x.value is not None else MISSING) for x in s.body if isinstance(x, ast.AnnAssign)]
        st.loc[s.name] = c
        return st

    def x_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else None
        self.frames[-1].returns.append((st, v))
        return None

    def x_Assign(self, s, st):
        return self.assign_all(s.targets, self.ev(s.value, st), st)

    def assign_all(self, targets, v, st):
        for t in targets:
            if isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, T) and v.op == "ite" and not self.same_len(v, t, st):
                # unpack the alternatives separately
                return self.fork(st, v, lambda x, q: self.assign_all(targets, x, q))
        for t in targets:
            self.assign(t, v, st)
        return st

    def same_len(self, v, t, st):
        """every alternative of v has as many items as the target t (without star)"""
        if any(isinstance(e, ast.Starred) for e in t.elts):
            return False
        if isinstance(v, T) and v.op == "ite":
            return self.same_len(v.args[1], t, st) and self.same_len(v.args[2], t, st)
        items = self.seq_items(v, st)
        return items is None or len(items) == len(t.elts)

    def fork(self, base, v, fn):
        """continue with fn(alternative, state) for both alternatives of an ite"""
        outs = []
        for c, x in ((v.args[0], v.args[1]), (not_(v.args[0]), v.args[2])):
            q = base.copy()
            if q.assume(c):
                try:
                    r = fn(x, q)
                except Dead:
                    r = None
                if r is not None:
                    outs.append((r, None))
        return self.merge(base, outs)[0]

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return st

    def x_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev_name(t.id, st, t)
            v = self.binop(s.op, cur, self.ev(s.value, st), st, s, inplace=True)
            self.assign(t, v, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            cur = self.getattr(o, t.attr, st, t)
            v = self.binop(s.op, cur, self.ev(s.value, st), st, s, inplace=True)
            self.setattr(o, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            i = self.ev_index(t.slice, st)
            cur = self.getitem(o, i, st, t)
            v = self.binop(s.op, cur, self.ev(s.value, st), st, s, inplace=True)
            self.setitem(o, i, v, st, t)
        return st

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.loc.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st)
                self.delattr(o, t.attr, st, t)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                self.models.delitem(self, o, self.ev_index(t.slice, st), st, t)
        return st

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.loc[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack_seq(v, n, st, t, star)
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.setattr(o, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            self.setitem(o, self.ev_index(t.slice, st), v, st, t)
        else:
            raise Unsupported("assign target")

    def unpack_seq(self, v, n, st, node, star=()):
        items = self.seq_items(v, st)
        if items is not None:
            if star:
                i = star[0]
                k = len(items) - (n - 1)
                return list(items[:i]) + [self.new_list(items[i : i + k], st)] + list(items[i + k :])
            if len(items) != n:
                self.do_raise(st, self.new_exc("ValueError", (), st), node)
            return items
        if isinstance(v, T) and v.op == "ite":
            a = self.unpack_seq(v.args[1], n, st, node)
            b = self.unpack_seq(v.args[2], n, st, node)
            return [ite(v.args[0], x, y) for x, y in zip(a, b)]
        return [self.getitem(v, i, st, node) for i in range(n)]

    # ---- control flow
    def x_If(self, s, st):
        c = self.truth(self.ev(s.test, st), st, s.test)
        if isinstance(c, T):
            c = st.facts.val(c)
        if c is True:
            return self.exec_block(s.body, st)
        if c is False:
            return self.exec_block(s.orelse, st)
        base = st
        a = st.copy()
        b = st.copy()
        outs = []
        if a.assume(c):
            r = self.exec_block(s.body, a)
            if r is not None:
                outs.append((r, None))
        if b.assume(not_(c)):
            r = self.exec_block(s.orelse, b)
            if r is not None:
                outs.append((r, None))
        r, _ = self.merge(base, outs)
        return r

    def x_While(self, s, st):
        return self.loop(s, st, None)

    def x_For(self, s, st):
        it = self.ev(s.iter, st)
        return self.loop(s, st, it)

    def x_Break(self, s, st):
        self.frames[-1].loops[-1]["breaks"].append((st, None))
        return None

    def x_Continue(self, s, st):
        self.frames[-1].loops[-1]["continues"].append((st, None))
        return None

    def iter_items(self, it, st):
        """python list of values if the iterable has known length"""
        if isinstance(it, RangeV):
            if all(isinstance(x, int) for x in (it.a, it.b, it.s)):
                r = range(it.a, it.b, it.s)
                if len(r) <= 300:
                    return list(r)
            return None
        items = self.seq_items(it, st)
        if items is not None and len(items) <= 300:
            return list(items)
        return None

    def seq_items(self, v, st):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v) if len(v) < 300 else None
        if isinstance(v, bytes):
            return list(v) if len(v) < 300 else None
        if isinstance(v, Obj):
            cell = st.heap.get(v, {})
            if v.cls in ("list", "set", "frozenset"):
                it = cell.get("items")
                return list(it) if isinstance(it, tuple) else None
            if v.cls == "dict":
                e = cell.get("ents")
                if isinstance(e, tuple) and all(c is True for _, _, c in e):
                    return [k for k, _, _ in e]
                return None
            if isinstance(v.cls, ClassV) and v.cls.fields is not None:
                return [cell.get(f) for f in v.cls.fields]
            if v.cls == "ndarray" and isinstance(cell.get("items"), tuple):
                return list(cell["items"])
        if isinstance(v, T) and v.op == "seqv":
            return list(v.args[0])
        if isinstance(v, Obj) and v.cls == "ndarray":
            v = st.heap[v].get("arr")
        if isinstance(v, T) and v.op == "frombuffer" and isinstance(v.args[3], int) and v.args[3] <= 64:
            from .m_np import fb_items
            return fb_items(v)
        return None

    def loop(self, s, st, it):
        fr = self.frames[-1]
        if it is not None:
            if isinstance(it, T) and it.op == "ite":
                # iterate over the alternatives separately
                base = st
                outs = []
                a, b = st.copy(), st.copy()
                if a.assume(it.args[0]):
                    r = self.loop(s, a, it.args[1])
                    if r is not None:
                        outs.append((r, None))
                if b.assume(not_(it.args[0])):
                    r = self.loop(s, b, it.args[2])
                    if r is not None:
                        outs.append((r, None))
                return self.merge(base, outs)[0]
            if isinstance(it, RangeV) and any(isinstance(x, T) and x.op == "ite" for x in (it.a, it.b)) and isinstance(it.s, int):
                x = it.b if isinstance(it.b, T) and it.b.op == "ite" else it.a
                if isinstance(x, T) and x.op == "ite" and hull(rng(x)).parts and None not in (hull(rng(x)).parts[0][0], hull(rng(x)).parts[0][2]):
                    base = st
                    outs = []
                    for c, y in ((x.args[0], x.args[1]), (not_(x.args[0]), x.args[2])):
                        q = st.copy()
                        if q.assume(c):
                            rv = RangeV(y if x is it.a else it.a, y if x is it.b else it.b, it.s)
                            r = self.loop(s, q, rv)
                            if r is not None:
                                outs.append((r, None))
                    return self.merge(base, outs)[0]
            if isinstance(it, GenV) and self.inline_gens:
                return self.gen_loop(s, st, it)
            items = self.iter_items(it, st)
            if items is not None:
                return self.unrolled(s, st, items)
            # enumerate / zip are lists when known; otherwise symbolic
            return self.generic_loop(s, st, it)
        # while: try bounded unrolling
        c = self.peek_truth(s.test, st)
        if c is False:
            return self.exec_block(s.orelse, st) if s.orelse else st
        if self.unroll:
            r = self._unroll_while(s, st, self.unroll)
            if r is MISSING:
                raise Unsupported(f"loop at line {s.lineno} not bounded by the input shape")
            return r
        if self.bounded_cond(s.test, st):
            r = self.try_unroll_while(s, st)
            if r is not MISSING:
                return r
        return self.generic_loop(s, st, None)

    def run_gen(self, gen, st, cb, node):
        """run generator body from st; cb(state, value) -> state or None at every yield.

        returns the merged state at the generator's normal end (None if never)"""
        used = st.heap[gen.cell]["n"] if gen.cell in st.heap else 2
        if isinstance(used, T) or used == 2:
            raise Unsupported("generator resumed after it was left")
        if used == 1:
            return st
        st = st.copy()
        st.heap[gen.cell] = {"n": 2}
        fn, loc = gen.func, gen.args
        base = st.copy()
        depth, nfr, nsk = len(st.stack), len(self.frames), len(self.sinks)
        ncb = len(self.gen_cb)

        def at_yield(q, v):
            gst, gfr, gsk, gcb = q.stack[depth:], self.frames[nfr:], self.sinks[nsk:], self.gen_cb[ncb:]
            del q.stack[depth:]
            del self.frames[nfr:]
            del self.sinks[nsk:]
            del self.gen_cb[ncb:]
            try:
                r = cb(q, v)
            finally:
                self.frames.extend(gfr)
                self.sinks.extend(gsk)
                self.gen_cb.extend(gcb)
            if r is None:
                return None
            r.stack = r.stack[:depth] + [dict(x) for x in gst]
            return r

        fr = Frame(fn, fn.module, base)
        self.functions_analysed.add(f"{fn.module.name.split('.')[-1]}:{fn.qual}")
        self.frames.append(fr)
        self.gen_cb.append(at_yield)
        q = st.copy()
        q.stack.append(dict(loc))
        try:
            try:
                r = self.exec_block(fn.node.body, q)
            except Dead:
                r = None
            if r is not None:
                fr.returns.append((r, None))
        finally:
            self.gen_cb.pop()
            self.frames.pop()
        if not fr.returns:
            return None
        b2 = base.copy()
        b2.stack.append(dict(loc))
        m, _ = self.merge(b2, fr.returns)
        m = m.copy()
        m.stack.pop()
        m.heap[gen.cell] = {"n": 1}
        return m

    def gen_loop(self, s, st, gen):
        fr = self.frames[-1]
        base = st.copy()
        breaks = []

        def cb(q, v):
            ib = q.copy()
            ctx = {"breaks": breaks, "continues": []}
            fr.loops.append(ctx)
            try:
                try:
                    self.assign(s.target, v, q)
                    r = self.exec_block(s.body, q)
                except Dead:
                    r = None
            finally:
                fr.loops.pop()
            outs = ctx["continues"] + ([(r, None)] if r is not None else [])
            if not outs:
                return None
            return self.merge(ib, outs)[0]

        end = self.run_gen(gen, st, cb, s)
        if end is not None and s.orelse:
            end = self.exec_block(s.orelse, end)
        outs = ([(end, None)] if end is not None else []) + breaks
        return self.merge(base, outs)[0]

    def gen_list(self, gen, st, node):
        """list of everything the generator yields (state updated)"""
        o = self.new_list((), st, node)

        def cb(q, v):
            q.heap[o] = dict(q.heap[o])
            q.heap[o]["items"] = self.models.seq_append(q.heap[o]["items"], v)
            return q

        r = self.run_gen(gen, st.copy(), cb, node)
        if r is None:
            raise Dead()
        st.become(r)
        return o

    def gen_next(self, gen, st, node, default=MISSING):
        """first value of a fresh generator"""
        got = []
        base = st.copy()

        def cb(q, v):
            got.append((q.copy(), v))
            return None

        end = self.run_gen(gen, st.copy(), cb, node)
        if end is not None:
            if default is not MISSING:
                got.append((end, default))
            else:
                try:
                    self.do_raise(end, self.new_exc("StopIteration", (), end), node)
                except Dead:
                    pass
        if not got:
            raise Dead()
        m, v = self.merge(base, got)
        st.become(m)
        return v

    def peek_truth(self, test, st):
        self.muted += 1
        self.sinks.append([])
        try:
            q = st.copy()
            c = self.truth(self.ev(test, q), q, test)
            if isinstance(c, T):
                c = q.facts.val(c)
            return c
        except (Dead, Unsupported):
            return None
        finally:
            self.sinks.pop()
            self.muted -= 1

    def bounded_cond(self, test, st):
        """loop condition over quantities of finite known range"""
        if isinstance(test, ast.Constant):
            return False
        names = {n.id for n in ast.walk(test) if isinstance(n, ast.Name)}
        if not names:
            return False
        for n in names:
            v = st.loc.get(n, MISSING)
            if v is MISSING:
                continue
            if isinstance(v, T):
                if v.ty not in ("int",):
                    return False
                h = hull(rng(v, st.facts))
                if not h.parts or h.parts[0][0] is None or h.parts[0][2] is None:
                    return False
                if h.parts[0][2] - h.parts[0][0] > 70:
                    return False
            elif isinstance(v, Obj):
                return False
        return True

    def try_unroll_while(self, s, st):
        self.muted += 1
        self.sinks.append([])
        saved = len(self.frames[-1].returns)
        try:
            ok = self._unroll_while(s, st.copy(), 70) is not MISSING
        finally:
            self.muted -= 1
            self.sinks.pop()
            del self.frames[-1].returns[saved:]
        if not ok:
            return MISSING
        return self._unroll_while(s, st, 70)

    def _unroll_while(self, s, st, limit):
        fr = self.frames[-1]
        base = st.copy()
        exits = []
        ctx = {"breaks": [], "continues": []}
        cur = st
        for _ in range(limit):
            try:
                c = self.truth(self.ev(s.test, cur), cur, s.test)
            except Dead:
                cur = None
                break
            if isinstance(c, T):
                c = cur.facts.val(c)
            if c is False:
                exits.append((cur, None))
                cur = None
                break
            if c is not True:
                ex = cur.copy()
                if ex.assume(not_(c)):
                    exits.append((ex, None))
                if not cur.assume(c):
                    cur = None
                    break
            ibase = cur.copy()
            fr.loops.append(ctx)
            ctx["continues"] = []
            try:
                cur = self.exec_block(s.body, cur)
            finally:
                fr.loops.pop()
            outs = ctx["continues"] + ([(cur, None)] if cur is not None else [])
            if not outs:
                cur = None
                break
            cur, _ = self.merge(ibase, outs)
        if cur is not None:
            return MISSING
        if s.orelse and exits:
            e, _ = self.merge(base, exits)
            e = self.exec_block(s.orelse, e)
            exits = [(e, None)] if e is not None else []
        outs = exits + ctx["breaks"]
        r, _ = self.merge(base, outs)
        return r

    def unrolled(self, s, st, items):
        fr = self.frames[-1]
        base = st.copy()
        ctx = {"breaks": [], "continues": []}
        cur = st
        for x in items:
            ibase = cur.copy()
            fr.loops.append(ctx)
            ctx["continues"] = []
            try:
                try:
                    self.assign(s.target, x, cur)
                    cur = self.exec_block(s.body, cur)
                except Dead:
                    cur = None
            finally:
                fr.loops.pop()
            outs = ctx["continues"] + ([(cur, None)] if cur is not None else [])
            if not outs:
                cur = None
                break
            cur, _ = self.merge(ibase, outs)
        exits = []
        if cur is not None:
            if s.orelse:
                cur = self.exec_block(s.orelse, cur)
            if cur is not None:
                exits.append((cur, None))
        r, _ = self.merge(base, exits + ctx["breaks"])
        return r

    # ---- generic loops
    def generic_loop(self, s, st, it):
        fr = self.frames[-1]
        base = st.copy()
        havoc = {}  # slot -> phi value
        k = fresh(f"iter{s.lineno}", "int", 0, None)
        seqlen = None
        if it is not None:
            seqlen = self.models.iter_len(self, it, st, s)
        for rnd in range(8):
            self.muted += 1
            self.sinks.append([])
            nret = len(fr.returns)
            try:
                back, _, _ = self.loop_body(s, base, havoc, k, it, seqlen)
            finally:
                self.muted -= 1
                self.sinks.pop()
                del fr.returns[nret:]
            if back is None:
                break
            head = self.loop_head(base, havoc)
            new = {}
            for name, v in back.stack[-1].items():
                h = head.stack[-1].get(name, MISSING)
                if h is MISSING:
                    continue
                if not self.eqval(h, v) and ("l", name) not in havoc:
                    new[("l", name)] = (h, v)
            for o, d in back.heap.items():
                if o not in head.heap:
                    continue
                for slot, v in d.items():
                    h = head.heap[o].get(slot, MISSING)
                    if not self.eqval(h, v) and ("h", o, slot) not in havoc:
                        new[("h", o, slot)] = (h, v)
            if not new:
                break
            for slot, (h, v) in new.items():
                nm = slot[1] if slot[0] == "l" else f"{slot[1]!r}.{slot[2]}"
                havoc[slot] = self.make_phi(f"{nm}@L{s.lineno}", h, v, st, back)
        # inductive linear facts
        invs = []
        if havoc:
            self.muted += 1
            self.sinks.append([])
            nret = len(fr.returns)
            try:
                back, _, _ = self.loop_body(s, base, havoc, k, it, seqlen)
            finally:
                self.muted -= 1
                self.sinks.pop()
                del fr.returns[nret:]
            if back is not None:
                closed = {}
                deltas = {}
                for slot, phi in list(havoc.items()):
                    if not (isinstance(phi, T) and phi.op == "sym" and phi.ty in ("int", "real")):
                        continue
                    v0 = self.slot_get(base, slot)
                    vb = self.slot_get(back, slot)
                    try:
                        d = sub(vb, phi)
                    except TypeError:
                        continue
                    if isinstance(d, T):
                        d = simp(d, back.facts)
                    if isnum(d):
                        closed[slot] = add(v0, mul(d, k))
                    elif isinstance(d, T):
                        deltas.setdefault(d, []).append(slot)
                for slot, v in closed.items():
                    havoc[slot] = v
                for d, slots in deltas.items():
                    if phi_in(d, [havoc[x] for x in slots]):
                        continue
                    first = slots[0]
                    b0 = self.slot_get(base, first)
                    if rng(d, back.facts).subset(iv(0, None)):
                        invs.append(cmp_(">=", havoc[first], b0))
                    for other in slots[1:]:
                        havoc[other] = add(sub(havoc[first], b0), self.slot_get(base, other))
        # final pass, with events
        back, exits, headst = self.loop_body(s, base, havoc, k, it, seqlen, invs, final=True)
        self.event("loop", s, headst, back=back, havoc=havoc, k=k)
        if exits is None:
            return None
        return exits

    def slot_get(self, st, slot):
        if slot[0] == "l":
            return st.stack[-1].get(slot[1], MISSING)
        return st.heap.get(slot[1], {}).get(slot[2], MISSING)

    def eqval(self, a, b):
        if a is b or same(a, b):
            return True
        if isinstance(a, BoundV) and isinstance(b, BoundV):
            return a.self_ is b.self_ and a.func is b.func
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return all(self.eqval(x, y) for x, y in zip(a, b))
        return False

    def make_phi(self, name, a, b, st, back):
        leaves = []

        def collect(v):
            if isinstance(v, T) and v.op == "ite":
                collect(v.args[1])
                collect(v.args[2])
            else:
                leaves.append(v)

        collect(a)
        collect(b)
        none = any(x is None for x in leaves)
        rest = [x for x in leaves if x is not None and x is not MISSING and x is not UNDEF]
        if not rest:
            return None
        tys = {vty(x) for x in rest}
        if all(isinstance(x, Obj) for x in rest):
            cl = rest[0].cls
            v = Obj(cl, site=name, lazy=True, name=name)
            # snapshot of structure: same nested object classes
            for x in rest:
                if x in back.heap:
                    self.phi_fields(v, x, back, name)
                    break
        elif tys <= {"int", "bool"}:
            v = fresh(name, "int") if tys != {"bool"} else fresh(name, "bool")
        elif tys <= {"int", "real"}:
            v = fresh(name, "real")
        elif tys == {"str"}:
            v = fresh(name, "str")
        elif tys == {"bytes"}:
            v = fresh(name, "bytes")
        elif all(isinstance(x, tuple) for x in rest) or tys <= {"seq", "obj"} and any(isinstance(x, tuple) for x in rest):
            v = fresh(name, "seq")
        elif len(tys) == 1:
            v = fresh(name, tys.pop())
        else:
            v = fresh(name, "any")
        if none:
            return ite(fresh(name + "?none", "bool"), None, v)
        return v

    def phi_fields(self, phi, x, st, name):
        cell = {}
        for f, v in st.heap[x].items():
            if isinstance(v, Obj) and isinstance(v.cls, ClassV):
                o = Obj(v.cls, lazy=True, name=f"{name}.{f}")
                self.phi_cells = getattr(self, "phi_cells", {})
                cell[f] = o
                self.phi_fields(o, v, st, f"{name}.{f}")
        self.phi_cells = getattr(self, "phi_cells", {})
        self.phi_cells[phi] = cell

    def loop_head(self, base, havoc):
        h = base.copy()
        for slot, v in havoc.items():
            if slot[0] == "l":
                h.stack[-1][slot[1]] = v
            else:
                h.heap[slot[1]][slot[2]] = v
        for o, cell in getattr(self, "phi_cells", {}).items():
            if o not in h.heap:
                h.heap[o] = dict(cell)
        return h

    def loop_body(self, s, base, havoc, k, it, seqlen, invs=(), final=False):
        """one generic iteration. returns (merged back state, exit state, head)"""
        fr = self.frames[-1]
        h = self.loop_head(base, havoc)
        for c in invs:
            h.axiom(c)
        h.axiom(cmp_(">=", k, 0))
        hb = h.copy()
        exits = []
        body = h.copy()
        ctx = {"breaks": [], "continues": []}
        try:
            if it is None:
                c = self.truth(self.ev(s.test, body), body, s.test)
                ex = body.copy()
                if ex.assume(not_(c)):
                    exits.append((ex, None))
                if not body.assume(c):
                    body = None
            else:
                ex = body.copy()
                if seqlen is not None:
                    ex.axiom(cmp_("==", k, seqlen) if isinstance(it, (T, Obj)) else cmp_(">=", k, seqlen))
                    if isinstance(it, RangeV):
                        ex.facts.assume(or_(cmp_("==", k, seqlen), cmp_("<", seqlen, 0)))
                    ok = body.facts.assume(cmp_("<", k, seqlen))
                    if not ok:
                        body = None
                exits.append((ex, None))
                if body is not None:
                    x = self.models.iter_item(self, it, k, body, s)
                    self.assign(s.target, x, body)
        except Dead:
            body = None
        back = None
        if body is not None:
            ibase = body.copy()
            fr.loops.append(ctx)
            try:
                r = self.exec_block(s.body, body)
            finally:
                fr.loops.pop()
            outs = ctx["continues"] + ([(r, None)] if r is not None else [])
            back, _ = self.merge(ibase, outs)
        if not final:
            return back, None, h
        # distinguish exits: break exits come with their own conditions; use a
        # fresh selector so that the merged values stay sound
        brk = ctx["breaks"]
        res = []
        if s.orelse and exits:
            e, _ = self.merge(hb, exits)
            e = self.exec_block(s.orelse, e)
            exits = [(e, None)] if e is not None else []
        if brk:
            sel = fresh(f"brk{s.lineno}", "bool")
            for e, _ in exits:
                q = e.copy()
                q.pc.append(not_(sel))
                q.facts.assume(not_(sel))
                res.append((q, None))
            for e, _ in brk:
                q = e.copy()
                q.pc.append(sel)
                q.facts.assume(sel)
                res.append((q, None))
        else:
            res = exits
        r, _ = self.merge(hb, res)
        return back, r, h

    # ---- try / with / raise
    def x_Raise(self, s, st):
        if s.exc is None:
            cur = getattr(self, "cur_exc", None)
            if cur is None:
                raise Unsupported("bare raise")
            self.do_raise(st, cur, s)
        e = self.ev(s.exc, st)
        if isinstance(e, ClassV) or isinstance(e, Ext):
            e = self.call(e, [], {}, st, s)
        if s.cause is not None:
            self.ev(s.cause, st)
        self.do_raise(st, e, s, explicit=True)

    def do_raise(self, st, e, node, explicit=False):
        self.event("raise", node, st, exc=e, explicit=explicit)
        if self.sinks:
            self.sinks[-1].append((st.copy(), e, node))
        raise Dead()

    def new_exc(self, name, args, st):
        o = Obj(Ext(name))
        st.heap[o] = {"args": tuple(args)}
        return o

    def may_raise(self, st, name, node, cond=None, in_try_only=True):
        """a library call that can raise: record alternative continuation"""
        if cond is None:
            cond = fresh(f"raises_{name}", "bool")
        if not sat(st.facts, cond, 40):
            st.assume(not_(cond))
            return
        b = st.copy()
        if not b.assume(cond):
            return
        try:
            if self.sinks:
                e = self.new_exc(name, (), b)
                self.event("mayraise", node, b, exc=e)
                self.sinks[-1].append((b, e, node))
        finally:
            pass
        st.assume(not_(cond))

    def exc_name(self, e):
        c = e.cls if isinstance(e, Obj) else e
        if isinstance(c, ClassV):
            return c.name
        if isinstance(c, Ext):
            return c.name.replace("builtins.", "")
        return str(c)

    def exc_matches(self, e, spec):
        """does exception e match handler class value spec"""
        if isinstance(spec, tuple):
            return any(self.exc_matches(e, s) for s in spec)
        c = e.cls if isinstance(e, Obj) else None
        names = []
        if isinstance(c, ClassV):
            for x in c.mro():
                if x is spec:
                    return True
                if isinstance(x, Ext):
                    names.append(x.name)
        elif isinstance(c, Ext):
            names.append(c.name)
        want = spec.name if isinstance(spec, (Ext, ClassV)) else None
        if isinstance(spec, ClassV):
            return False
        seen = set()
        while names:
            n = names.pop().replace("builtins.", "")
            if n == (want or "").replace("builtins.", ""):
                return True
            if n in seen:
                continue
            seen.add(n)
            if n in EXC_PARENT:
                names.append(EXC_PARENT[n])
        return False

    def x_Try(self, s, st):
        base = st.copy()
        depth = len(st.stack)
        self.sinks.append([])
        try:
            r = self.exec_block(s.body, st)
        finally:
            raised = self.sinks.pop()
        outs = []
        if r is not None and s.orelse:
            r = self.exec_block(s.orelse, r)
        if r is not None:
            outs.append((r, None))
        for rs, e, node in raised:
            handled = False
            for h in s.handlers:
                spec = None
                if h.type is not None:
                    spec = self.ev(h.type, rs)
                if spec is None or self.exc_matches(e, spec):
                    rs.stack = rs.stack[:depth]
                    if h.name:
                        rs.loc[h.name] = e
                    saved = getattr(self, "cur_exc", None)
                    self.cur_exc = e
                    self.event("handled", h, rs, exc=e)
                    try:
                        q = self.exec_block(h.body, rs)
                    finally:
                        self.cur_exc = saved
                    if q is not None:
                        outs.append((q, None))
                    handled = True
                    break
            if not handled:
                if s.finalbody:
                    rs.stack = rs.stack[:depth]
                    rs = self.exec_block(s.finalbody, rs)
                if rs is not None and self.sinks:
                    self.sinks[-1].append((rs, e, node))
        r, _ = self.merge(base, outs)
        if s.finalbody and r is not None:
            r = self.exec_block(s.finalbody, r)
        return r

    def x_With(self, s, st):
        base = st.copy()
        depth = len(st.stack)
        mgrs = []
        for i in s.items:
            v = self.ev(i.context_expr, st)
            ent = self.models.with_enter(self, v, st, s)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, ent, st)
            mgrs.append(v)
        self.sinks.append([])
        fr = self.frames[-1]
        nret = len(fr.returns)
        try:
            r = self.exec_block(s.body, st)
        finally:
            raised = self.sinks.pop()
        for rs, e, node in raised:
            for v in reversed(mgrs):
                self.models.with_exit(self, v, rs, s, exc=e)
            if self.sinks:
                self.sinks[-1].append((rs, e, node))
        for rs, _ in fr.returns[nret:]:
            for v in reversed(mgrs):
                self.models.with_exit(self, v, rs, s)
        if r is not None:
            for v in reversed(mgrs):
                self.models.with_exit(self, v, r, s)
        return r

    # ------------------------------------------------------------ calls
    def run(self, fn, args=(), kwargs=None, st=None):
        """analyse fn from state st. returns Result"""
        if st is None:
            st = self.new_state()
        self.events = []
        self.sinks = [[]]
        res = Result()
        base = st.copy()
        res.base = base
        try:
            v = self.call(fn, list(args), dict(kwargs or {}), st, None, root=True)
            res.state, res.value = st, v
            res.alive = True
        except Dead:
            res.alive = False
            res.state, res.value = None, None
        res.raises = self.sinks[0]
        res.events = self.events
        self.sinks = []
        res.npc = len(base.pc)
        return res

    def new_state(self):
        s = State()
        s.heap = {o: dict(d) for o, d in self.init_state.heap.items()}
        return s

    def call(self, fn, args, kwargs, st, node, root=False):
        if isinstance(fn, T) and fn.op == "ite":
            return self.branch(fn.args[0], st, lambda s: self.call(fn.args[1], args, kwargs, s, node), lambda s: self.call(fn.args[2], args, kwargs, s, node))
        if isinstance(fn, BoundV):
            return self.call(fn.func, [fn.self_] + args, kwargs, st, node, root)
        if isinstance(fn, FuncV):
            return self.call_func(fn, args, kwargs, st, node, root)
        if isinstance(fn, ClassV):
            return self.instantiate(fn, args, kwargs, st, node)
        if isinstance(fn, PropV):
            raise Unsupported("call property")
        return self.models.call(self, fn, args, kwargs, st, node)

    def branch(self, c, st, fa, fb):
        """evaluate alternatives under c / not c and merge into st"""
        if isinstance(c, T):
            c = st.facts.val(c)
        if c is True:
            return fa(st)
        if c is False:
            return fb(st)
        base = st.copy()
        outs = []
        for cc, f in ((c, fa), (not_(c), fb)):
            q = base.copy()
            if not q.assume(cc):
                continue
            try:
                v = f(q)
                outs.append((q, v))
            except Dead:
                pass
        if not outs:
            raise Dead()
        r, v = self.merge(base, outs)
        st.become(r)
        return v

    def instantiate(self, cls, args, kwargs, st, node):
        if cls.fields is not None:
            o = Obj(cls, site=node)
            cell = {}
            vals = list(args)
            for i, f in enumerate(cls.fields):
                if i < len(vals):
                    cell[f] = vals[i]
                elif f in kwargs:
                    cell[f] = kwargs[f]
                elif i >= len(cls.fields) - len(cls.nt_defaults):
                    cell[f] = cls.nt_defaults[i - len(cls.fields)]
                else:
                    self.do_raise(st, self.new_exc("TypeError", (), st), node)
            st.heap[o] = cell
            return o
        o = Obj(cls, site=node)
        st.heap[o] = {}
        self.event("new", node, st, cls=cls, obj=o, args=args, kwargs=kwargs)
        init = cls.lookup("__init__")
        isexc = any(isinstance(b, Ext) for b in cls.mro())
        if isexc:
            st.heap[o]["args"] = tuple(args)
        if isinstance(init, FuncV):
            self.call_func(init, [o] + list(args), kwargs, st, node)
        elif getattr(cls, "dataclass", None):
            for i, (f, d) in enumerate(cls.dataclass):
                if i < len(args):
                    st.heap[o][f] = args[i]
                elif f in kwargs:
                    st.heap[o][f] = kwargs[f]
                elif d is not MISSING:
                    st.heap[o][f] = d
        elif not isexc and args:
            self.do_raise(st, self.new_exc("TypeError", (), st), node)
        return o

    def bind(self, fn, args, kwargs, st, node):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        pos = []
        for x in args:
            if isinstance(x, Star):
                items = self.seq_items(x.v, st)
                if items is None:
                    raise Unsupported("star arg of unknown length")
                pos.extend(items)
            else:
                pos.append(x)
        if len(pos) > len(names):
            if a.vararg is None:
                self.do_raise(st, self.new_exc("TypeError", (f"{fn.qual} takes {len(names)} arguments",), st), node)
            loc[a.vararg.arg] = tuple(pos[len(names) :])
            pos = pos[: len(names)]
        elif a.vararg is not None:
            loc[a.vararg.arg] = ()
        for n, v in zip(names, pos):
            loc[n] = v
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in loc:
                    self.do_raise(st, self.new_exc("TypeError", (f"multiple values for {k}",), st), node)
                loc[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.do_raise(st, self.new_exc("TypeError", (f"{fn.qual} unexpected keyword {k}",), st), node)
        for n, d in zip(names[len(names) - len(fn.defaults) :], fn.defaults):
            if n not in loc:
                loc[n] = d
        for x in a.kwonlyargs:
            if x.arg not in loc:
                if x.arg in fn.kwdefaults:
                    loc[x.arg] = fn.kwdefaults[x.arg]
                else:
                    self.do_raise(st, self.new_exc("TypeError", (f"missing {x.arg}",), st), node)
        for n in names:
            if n not in loc:
                self.do_raise(st, self.new_exc("TypeError", (f"{fn.qual} missing argument {n}",), st), node)
        if a.kwarg is not None:
            loc[a.kwarg.arg] = self.new_dict([(k, v, True) for k, v in extra.items()], st)
        return loc

    def call_func(self, fn, args, kwargs, st, node, root=False):
        q = f"{fn.module.name.split('.')[-1]}:{fn.qual}"
        hook = self.call_hooks.get(q)
        self.event("call", node, st, target=q, args=list(args), kwargs=dict(kwargs), func=fn)
        if hook is not None and not root:
            r = hook(self, fn, args, kwargs, st, node)
            if r is not NotImplemented:
                return r
        if q in self.opaque_calls and not root:
            loc = self.bind(fn, args, kwargs, st, node)
            return self.models.opaque(self, q, list(args) + list(kwargs.values()), st, node)
        if fn.isgen and not root:
            loc = self.bind(fn, args, kwargs, st, node)
            g = GenV(fn, loc, q)
            st.heap[g.cell] = {"n": 0}
            return g
        if len(self.frames) > self.max_depth or sum(1 for f in self.frames if f.fn is fn) >= 4:
            return self.models.opaque(self, q, list(args), st, node)
        loc = self.bind(fn, args, kwargs, st, node)
        self.functions_analysed.add(q)
        base = st.copy()
        fr = Frame(fn, fn.module, base)
        self.frames.append(fr)
        st.stack.append(loc)
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.ev(fn.node.body, st)
                fr.returns.append((st.copy(), v))
                r = None
            else:
                r = self.exec_block(fn.node.body, st.copy())
            if r is not None:
                fr.returns.append((r, None))
        finally:
            self.frames.pop()
        if not fr.returns:
            raise Dead()
        b2 = base.copy()
        b2.stack.append(dict(loc))
        m, v = self.merge(b2, fr.returns)
        m = m.copy()
        m.stack.pop()
        st.become(m)
        return v

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        self.steps += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, st)

    def e_Constant(self, e, st):
        return e.value

    def e_Name(self, e, st):
        return self.ev_name(e.id, st, e)

    def ev_name(self, name, st, node):
        v = st.loc.get(name, MISSING)
        if v is not MISSING:
            return v
        fr = self.frames[-1]
        f = fr.fn
        if f is not None and f.closure is not None:
            # nearest enclosing frame still active
            v = f.closure.get(name, MISSING)
            if v is not MISSING:
                return v
            o = getattr(f, "outer", None)
            while o is not None and o.closure is not None:
                if name in o.closure:
                    return o.closure[name]
                o = getattr(o, "outer", None)
        if f is None:
            for d in reversed(st.stack):
                if name in d:
                    return d[name]
        v = fr.module.env.get(name, MISSING)
        if v is not MISSING:
            return v
        if name in self.models.BUILTINS:
            return Ext(name)
        if name in EXC_PARENT or name == "BaseException":
            return Ext(name)
        if self.frames[-1].fn is None:
            return self.models.opaque(self, f"name:{name}", [], st, node)
        self.event("nameerror", node, st, name=name)
        self.do_raise(st, self.new_exc("NameError", (name,), st), node)

    def e_Attribute(self, e, st):
        return self.getattr(self.ev(e.value, st), e.attr, st, e)

    def e_Tuple(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                items = self.seq_items(v, st)
                if items is None:
                    raise Unsupported("star in tuple")
                out.extend(items)
            else:
                out.append(self.ev(x, st))
        return tuple(out)

    def e_List(self, e, st):
        return self.new_list(self.e_Tuple(e, st), st, e)

    def e_Set(self, e, st):
        o = Obj("set")
        st.heap[o] = {"items": self.e_Tuple(e, st)}
        return o

    def e_Dict(self, e, st):
        ents = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, st)
                if isinstance(d, Obj) and isinstance(st.heap[d].get("ents"), tuple):
                    for kk, vv, c in st.heap[d]["ents"]:
                        ents = [x for x in ents if x[0] != kk] + [(kk, vv, c)]
                    continue
                return self.models.opaque(self, "dict**", [d], st, e)
            ents.append((self.ev(k, st), self.ev(v, st), True))
        return self.new_dict(ents, st, e)

    def new_list(self, items, st, node=None):
        o = Obj("list", site=node)
        st.heap[o] = {"items": tuple(items) if not isinstance(items, T) else items}
        return o

    def new_dict(self, ents, st, node=None):
        o = Obj("dict", site=node)
        st.heap[o] = {"ents": tuple(ents) if not isinstance(ents, T) else ents}
        return o

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)

        def rec(i, s):
            v = self.ev(e.values[i], s)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v, s, e.values[i])
            if isinstance(c, T):
                c = s.facts.val(c)
            if c is True:
                return rec(i + 1, s) if isand else v
            if c is False:
                return v if isand else rec(i + 1, s)
            keep = v if not isbool(v) else (False if isand else True)
            if isand:
                return self.branch(c, s, lambda q: rec(i + 1, q), lambda q: keep)
            return self.branch(c, s, lambda q: keep, lambda q: rec(i + 1, q))

        return rec(0, st)

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(v, st, e.operand))
        if isinstance(e.op, ast.USub):
            return self.models.unary(self, "-", v, st, e)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.models.unary(self, "~", v, st, e)
        raise Unsupported("unary")

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(e.op, a, b, st, e)

    def binop(self, op, a, b, st, node, inplace=False):
        return self.models.binop(self, type(op).__name__, a, b, st, node, inplace)

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        res = True
        n = len(e.ops)

        def rec(i, left, s):
            right = self.ev(e.comparators[i], s)
            c = self.models.compare(self, type(e.ops[i]).__name__, left, right, s, e)
            if i == n - 1:
                return c
            if isinstance(c, T) and c.ty != "bool":
                c = self.truth(c, s, e)
            if isinstance(c, T):
                c = s.facts.val(c)
            if c is False:
                return False
            if c is True:
                return rec(i + 1, right, s)
            return self.branch(c, s, lambda q: rec(i + 1, right, q), lambda q: False)

        return rec(0, left, st)

    def e_IfExp(self, e, st):
        c = self.truth(self.ev(e.test, st), st, e.test)
        return self.branch(c, st, lambda s: self.ev(e.body, s), lambda s: self.ev(e.orelse, s))

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.loc[e.target.id] = v
        return v

    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            cls = self.frames[-1].fn.cls
            selfv = None
            fn = self.frames[-1].fn
            a0 = fn.node.args.args[0].arg if fn.node.args.args else None
            selfv = st.loc.get(a0)
            args, kwargs = self.ev_args(e, st)
            mro = cls.mro()[1:]
            for c in mro:
                if isinstance(c, ClassV) and e.func.attr in c.attrs:
                    return self.call_func(c.attrs[e.func.attr], [selfv] + args, kwargs, st, e)
            if e.func.attr == "__init__" and isinstance(selfv, Obj):
                st.heap[selfv]["args"] = tuple(args)
                return None
            if e.func.attr == "__setattr__":
                st.heap[selfv][args[0]] = args[1]
                return None
            return self.models.opaque(self, "super." + e.func.attr, args, st, e)
        f = self.ev(e.func, st)
        args, kwargs = self.ev_args(e, st)
        return self.call(f, args, kwargs, st, e)

    def ev_args(self, e, st):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                items = self.seq_items(v, st)
                if items is not None:
                    args.extend(items)
                else:
                    args.append(Star(v))
            else:
                args.append(self.ev(a, st))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                ents = st.heap.get(v, {}).get("ents") if isinstance(v, Obj) else None
                if isinstance(ents, tuple) and all(isinstance(x[0], str) and x[2] is True for x in ents):
                    for kk, vv, _ in ents:
                        kwargs[kk] = vv
                else:
                    raise Unsupported("** of unknown dict")
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        i = self.ev_index(e.slice, st)
        return self.getitem(o, i, st, e)

    def ev_index(self, s, st):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, st)
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, st) for x in s.elts)
        return self.ev(s, st)

    def e_JoinedStr(self, e, st):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                parts.append(self.fmt_value(x, st))
        return self.models.scat(*parts)

    def fmt_value(self, x, st):
        v = self.ev(x.value, st)
        spec = ""
        if x.format_spec is not None:
            spec = self.e_JoinedStr(x.format_spec, st)
        if x.conversion == ord("r"):
            v = self.models.repr_(self, v, st, x)
        elif x.conversion == ord("s"):
            v = self.models.str_(self, v, st, x)
        return self.models.format_(self, v, spec, st, x)

    def e_FormattedValue(self, e, st):
        return self.fmt_value(e, st)

    def e_Lambda(self, e, st):
        return self.make_func(e, st)

    def e_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def e_SetComp(self, e, st):
        return self.comp(e, st, "set")

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, "list")

    def e_DictComp(self, e, st):
        return self.comp(e, st, "dict")

    def comp(self, e, st, kind):
        """comprehension: unrolled when every iterable has known length"""
        out = []
        saved = dict(st.loc)

        def rec(gi, s, guard):
            if gi == len(e.generators):
                if kind == "dict":
                    out.append((self.ev(e.key, s), self.ev(e.value, s), guard))
                else:
                    out.append((self.ev(e.elt, s), guard))
                return
            g = e.generators[gi]
            it = self.ev(g.iter, s)
            if isinstance(it, GenV) and self.inline_gens:
                it = self.gen_list(it, s, e)
            items = self.iter_items(it, s)
            if items is None:
                raise _SymComp(it, g)
            for x in items:
                self.assign(g.target, x, s)
                gg = guard
                for c in g.ifs:
                    t = self.truth(self.ev(c, s), s, c)
                    if isinstance(t, T):
                        t = s.facts.val(t)
                    gg = and_(gg, t)
                if gg is False:
                    continue
                rec(gi + 1, s, gg)

        try:
            rec(0, st, True)
        except _SymComp as sc:
            r = self.models.sym_comp(self, e, st, kind, sc.it, sc.g)
            st.stack[-1] = {k: v for k, v in st.loc.items() if k in saved}
            st.stack[-1].update(saved)
            return r
        st.stack[-1] = saved
        if kind == "dict":
            return self.new_dict([(k, v, c) for k, v, c in out], st, e)
        if all(c is True for _, c in out):
            if kind == "set":
                o = Obj("set")
                st.heap[o] = {"items": tuple(v for v, _ in out)}
                return o
            return self.new_list(tuple(v for v, _ in out), st, e)
        # conditional elements: build nested alternatives
        cur = ()
        for v, c in out:
            if c is True:
                cur = self.models.seq_append(cur, v)
            else:
                cur = ite(c, self.models.seq_append(cur, v), cur)
        return self.new_list(cur, st, e)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else None
        self.event("yield", e, st, value=v)
        if self.inline_gens and self.gen_cb:
            r = self.gen_cb[-1](st, v)
            if r is None:
                raise Dead()
            st.become(r)
        return None

    def e_YieldFrom(self, e, st):
        return self.yield_from(self.ev(e.value, st), st, e)

    def yield_from(self, v, st, e):
        if self.inline_gens and self.gen_cb:
            if isinstance(v, GenV):
                top = self.gen_cb[-1]
                r = self.run_gen(v, st, top, e)
                if r is None:
                    raise Dead()
                st.become(r)
                return None
            items = self.seq_items(v, st)
            if items is None:
                raise Unsupported("yield from a sequence of unknown length")
            for x in items:
                self.event("yield", e, st, value=x)
                r = self.gen_cb[-1](st, x)
                if r is None:
                    raise Dead()
                st.become(r)
            return None
        items = self.seq_items(v, st)
        if items is not None:
            for x in items:
                self.event("yield", e, st, value=x)
            return None
        if isinstance(v, GenV):
            # delegate: run the sub-generator inline
            fn = v.func
            loc = v.args
            base = st.copy()
            fr = Frame(fn, fn.module, base)
            self.frames.append(fr)
            st.stack.append(dict(loc))
            try:
                r = self.exec_block(fn.node.body, st.copy())
                if r is not None:
                    fr.returns.append((r, None))
            finally:
                self.frames.pop()
            if not fr.returns:
                raise Dead()
            b2 = base.copy()
            b2.stack.append(dict(loc))
            m, val = self.merge(b2, fr.returns)
            m = m.copy()
            m.stack.pop()
            st.become(m)
            return val
        self.event("yieldfrom", e, st, value=v)
        return None

    def e_Starred(self, e, st):
        return Star(self.ev(e.value, st))

    def e_Slice(self, e, st):
        return self.ev_index(e, st)

    def e_Await(self, e, st):
        raise Unsupported("await")

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, st, node):
        if isinstance(o, T) and o.op == "ite":
            return self.branch(o.args[0], st, lambda s: self.getattr(o.args[1], name, s, node), lambda s: self.getattr(o.args[2], name, s, node))
        if isinstance(o, Obj) and isinstance(o.cls, ClassV):
            cell = st.heap.get(o)
            if cell is None:
                cell = st.heap[o] = {}
            p = o.cls.lookup(name)
            if isinstance(p, PropV) and p.fget is not None:
                return self.call_func(p.fget, [o], {}, st, node)
            if name in cell:
                v = cell[name]
                if v is UNDEF or isinstance(v, T) and v.op == "ite" and UNDEF in v.args:
                    v = self.strip_undef(v, st, node, name)
                return v
            if p is not None:
                if isinstance(p, FuncV):
                    if p.kind == "staticmethod":
                        return p
                    if p.kind == "classmethod":
                        return BoundV(o.cls, p)
                    return BoundV(o, p)
                return p
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return self.new_dict([(k, v, True) for k, v in cell.items()], st)
            if o.lazy:
                v = self.lazy_attr(o, name, st)
                cell[name] = v
                return v
            r = self.models.obj_attr(self, o, name, st, node)
            if r is not NotImplemented:
                return r
            ga = o.cls.lookup("__getattr__")
            if isinstance(ga, FuncV):
                return self.call_func(ga, [o, name], {}, st, node)
            self.event("attrerror", node, st, obj=o, name=name)
            self.do_raise(st, self.new_exc("AttributeError", (name,), st), node)
        if isinstance(o, ClassV):
            v = o.lookup(name)
            if v is not None:
                if isinstance(v, FuncV) and v.kind == "classmethod":
                    return BoundV(o, v)
                return v
            if name == "__name__":
                return o.name
            if name == "_fields" and o.fields is not None:
                return tuple(o.fields)
            if name == "_make" and o.fields is not None:
                return BMeth(o, "_make")
        if isinstance(o, FuncV) and name == "__name__":
            return o.name
        if isinstance(o, ModuleV):
            v = o.env.get(name, MISSING)
            if v is not MISSING:
                return v
            try:
                return self.load(o.name + "." + name)
            except Unsupported:
                return self.models.opaque(self, f"{o.name}.{name}", [], st, node)
        return self.models.getattr(self, o, name, st, node)

    def strip_undef(self, v, st, node, name):
        if v is UNDEF:
            self.event("attrerror", node, st, obj=None, name=name)
            self.do_raise(st, self.new_exc("AttributeError", (name,), st), node)
        c, a, b = v.args
        return self.branch(
            c,
            st,
            lambda s: self.strip_undef(a, s, node, name) if a is UNDEF or isinstance(a, T) and a.op == "ite" and UNDEF in a.args else a,
            lambda s: self.strip_undef(b, s, node, name) if b is UNDEF or isinstance(b, T) and b.op == "ite" and UNDEF in b.args else b,
        )

    def lazy_attr(self, o, name, st):
        ann = o.cls.annotation(name)
        ty = "any"
        if isinstance(ann, ast.Name):
            ty = {"int": "int", "float": "real", "str": "str", "bool": "bool", "bytes": "bytes"}.get(ann.id, "any")
            if ty == "any":
                c = o.cls.module.env.get(ann.id)
                if isinstance(c, ClassV):
                    x = Obj(c, lazy=True, name=f"{o.name}.{name}")
                    st.heap[x] = {}
                    return x
        return sym(f"{o.name or o.n}.{name}", ty)

    def setattr(self, o, name, v, st, node):
        if isinstance(o, T) and o.op == "ite":
            c, a, b = o.args
            self.branch(c, st, lambda s: self.setattr(a, name, v, s, node), lambda s: self.setattr(b, name, v, s, node))
            return
        if isinstance(o, Obj) and isinstance(o.cls, ClassV):
            p = o.cls.lookup(name)
            if isinstance(p, PropV):
                if p.fset is None:
                    self.do_raise(st, self.new_exc("AttributeError", (name,), st), node)
                self.call_func(p.fset, [o, v], {}, st, node)
                return
            if o.cls.fields is not None:
                self.do_raise(st, self.new_exc("AttributeError", (name,), st), node)
            st.heap.setdefault(o, {})[name] = v
            return
        if isinstance(o, ClassV):
            o.attrs[name] = v
            return
        if isinstance(o, Obj):
            st.heap[o][name] = v
            return
        if isinstance(o, ModuleV):
            o.env[name] = v
            return
        self.event("setattr_opaque", node, st, obj=o, name=name, value=v)

    def delattr(self, o, name, st, node):
        if isinstance(o, Obj) and isinstance(o.cls, ClassV):
            p = o.cls.lookup(name)
            if isinstance(p, PropV) and p.fdel is not None:
                self.call_func(p.fdel, [o], {}, st, node)
                return
            st.heap[o].pop(name, None)
            return
        if isinstance(o, Obj):
            st.heap[o].pop(name, None)

    def getitem(self, o, i, st, node):
        if isinstance(o, T) and o.op == "ite":
            return self.branch(o.args[0], st, lambda s: self.getitem(o.args[1], i, s, node), lambda s: self.getitem(o.args[2], i, s, node))
        if isinstance(o, Obj) and isinstance(o.cls, ClassV):
            f = o.cls.lookup("__getitem__")
            if isinstance(f, FuncV):
                return self.call_func(f, [o, i], {}, st, node)
        return self.models.getitem(self, o, i, st, node)

    def setitem(self, o, i, v, st, node):
        if isinstance(o, T) and o.op == "ite":
            c, a, b = o.args
            self.branch(c, st, lambda s: self.setitem(a, i, v, s, node), lambda s: self.setitem(b, i, v, s, node))
            return
        return self.models.setitem(self, o, i, v, st, node)

    def truth(self, v, st, node):
        return self.models.truth(self, v, st, node)


class _SymComp(Exception):
    def __init__(self, it, g):
        self.it = it
        self.g = g


class Result:
    pass


UNDEF = mk("UNDEF", ty="undef")


def phi_in(d, phis):
    s = subterms(d)
    return any(p in s for p in phis if isinstance(p, T))


def merge_ents(I, c, a, b, sa, sb):
    if a is MISSING:
        return b
    if b is MISSING:
        return a
    if not (isinstance(a, tuple) and isinstance(b, tuple)):
        return a if a is b else ite(c, a, b)
    bd = {hkey(k): (k, v, p) for k, v, p in b}
    out = []
    seen = set()
    for k, v, p in a:
        h = hkey(k)
        seen.add(h)
        if h in bd:
            _, v2, p2 = bd[h]
            out.append((k, I.mval(c, v, v2, sa, sb), ite_b(c, p, p2)))
        else:
            out.append((k, v, and_(c, p)))
    for k, v, p in b:
        if hkey(k) not in seen:
            out.append((k, v, and_(not_(c), p)))
    return tuple(out)
