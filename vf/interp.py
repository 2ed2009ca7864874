"""Symbolic interpreter of the functions under verification.

The text that is interpreted is taken from the live function objects of /repo on every run
(inspect.getsource + ast); decorators that only compile or annotate (jit, overrides, final,
lru_cache) are unwrapped.  A function with a contract is replaced by its contract when it is called
from another function; functions without a contract are executed in place.
"""
from __future__ import annotations

import ast
import builtins
import collections
import contextlib
import dataclasses
import functools
import hashlib
import inspect
import os
import textwrap
import time
import types
import typing
from typing import Any, Callable, Dict, List, Optional

import numpy as onp

from . import ir, prove, vals
from .ir import FALSE, ONE, TRUE, ZERO, Term, add, and_, const, cval, eq, fresh, is_const, ite, le, lift, lt, mk_sum, mul, ne, not_, or_, sub, subst
from .prove import Ctx
from .vals import (
    Abstract, Arr, Batched, Comp, Fn, Item, Ix, NComp, NLeaf, NSeq, Obj, PathAbort, Poison, Prefix,
    SDict, SSet, Seq, Unsupported, flat_arr, parts_len, parts_map, pyint, scalar, subval, zipmap,
)

REPO = os.environ.get("VERIF_REPO", "/repo") + "/"
OWN = ("jaxfg", "vf.conformance_cases")  # modules whose classes are interpreted
CASES = os.path.join(os.path.dirname(os.path.abspath(__file__)), "conformance_cases")


class PyExc(Exception):
    """An exception raised by the interpreted program."""

    def __init__(self, exc):
        self.exc = exc


class MixedExit(Exception):
    """Some branches of an if leave the loop body or function, others go on."""


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Obligation:
    def __init__(self, name, ok, how, seconds, detail=""):
        self.name, self.ok, self.how, self.seconds, self.detail = name, ok, how, seconds, detail


MUTABLE = (dict, list, set)


def may_change(v):
    if isinstance(v, tuple):
        return any(may_change(x) for x in v)
    if isinstance(v, Seq) and v.kind == "tuple":
        return not all(isinstance(p, Item) and not may_change(p.value) for p in v.parts)
    return isinstance(v, (*MUTABLE, SDict, SSet, Seq, Obj, onp.ndarray)) or getattr(v, "kind", None) == "generator"


class Env:
    def __init__(self, parent, glob):
        self.vars: Dict[str, Any] = {}
        self.parent, self.glob = parent, glob
        self.nonlocals = set()

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        if name in self.glob:
            v = self.glob[name]
            return vals.engine().globals.get(id(v), v) if isinstance(v, MUTABLE) else v
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise Unsupported(f"name {name}")

    def shared(self, v):
        """Do two names refer to this array?"""
        e, n = self, 0
        while e is not None:
            n += sum(x is v for x in e.vars.values())
            e = e.parent
        return n > 1

    def set(self, name, v):
        if name in self.nonlocals:
            e = self.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        self.vars[name] = v


class Closure:
    def __init__(self, node, env, name, defaults, kwdefaults):
        self.node, self.env, self.name = node, env, name
        self.defaults, self.kwdefaults = defaults, kwdefaults

    def __call__(self, *args, **kw):
        return vals.ENG.call(self, list(args), kw)

    def sub(self, m):
        e = Env(self.env.parent, self.env.glob)
        e.vars = {k: subval(v, m) for k, v in self.env.vars.items()}
        return Closure(self.node, e, self.name, self.defaults, self.kwdefaults)


class Bound:
    """Bound method of a symbolic receiver."""

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __call__(self, *args, **kw):
        return vals.ENG.call(self, list(args), kw)

    def sub(self, m):
        return Bound(self.func, subval(self.self_, m))


class Partial:
    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw

    def sub(self, m):
        return Partial(subval(self.func, m), [subval(a, m) for a in self.args], {k: subval(v, m) for k, v in self.kw.items()})


class Hole:
    """Part of a text that depends on symbolic values; None: not known how."""

    def __init__(self, value):
        self.value = value


class Text(Abstract):
    """Text with parts that depend on symbolic values."""

    def __init__(self, parts):
        self.parts = parts

    def getattr(self, name):
        raise Unsupported("text of symbolic values")

    def eq(self, eng, other):
        raise Unsupported("text of symbolic values")

    def integers(self):
        """(integers, text around them), if these and nothing else decide what the text is; else None."""
        out, around = [], [""]
        for p in self.parts:
            if isinstance(p, str):
                around[-1] += p
                continue
            v = p.value
            if not isinstance(v, (ir.Term, int)) or isinstance(v, bool) or isinstance(v, ir.Term) and v.sort != "I":
                return None
            out.append(ir.lift(v))
            around.append("")
        if not all(around[1:-1]) or any(c in "-0123456789" for t in around[1:-1] for c in t):
            return None
        return out, tuple(around)


class StarSeq:
    """*args of symbolic length, passed to a model."""

    def __init__(self, seq):
        self.seq = seq


class DefaultDictType:
    pass


class Bucket:
    """d[key] of a defaultdict(list) with a symbolic key."""

    def __init__(self, d, key):
        self.d, self.key = d, key


class Frame:
    """One symbolic loop being summarised."""

    def __init__(self, k, n, depth):
        self.k, self.n, self.depth = k, n, depth
        self.touched: Dict[int, tuple] = {}


MODELS: Dict[int, Callable] = {}
_keep: list = []


def model(*objs):
    def deco(f):
        for o in objs:
            if o is not None:
                _keep.append(o)
                MODELS[id(o)] = f
        return f

    return deco


STAR = set()  # models of functions that accept a symbolic number of arguments
# models that do not iterate over their arguments
LAZY = set()


def star(f):
    STAR.add(f)
    return f


def unwrap(f):
    """Strip wrappers that do not change the meaning of a call."""
    seen = 0
    while hasattr(f, "__wrapped__") and not isinstance(f, type) and seen < 10:
        g = f.__wrapped__
        if isinstance(f, types.FunctionType) and not is_repo(f) and f.__code__ is not None and not _transparent(f):
            return f
        f = g
        seen += 1
    return f


def _transparent(f):
    return f.__module__ and (f.__module__.startswith(("jax", "overrides", "functools", "abc")) or is_repo_file(getattr(inspect.unwrap(f), "__code__", None)))


def is_repo_file(code):
    return code is not None and code.co_filename.startswith((REPO, CASES))


def is_repo(f):
    return is_repo_file(getattr(f, "__code__", None))


_ast_cache: Dict[Any, ast.AST] = {}


def function_ast(f: types.FunctionType):
    key = f.__code__
    if key not in _ast_cache:
        lines, start = inspect.getsourcelines(f)
        src = textwrap.dedent("".join(lines))
        try:
            tree = ast.parse(src)
        except SyntaxError:
            # a lambda in the middle of an expression
            tree = None
        node = None
        if tree is not None:
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef,)) and n.name == f.__name__:
                    node = n
                    break
                if isinstance(n, ast.Lambda) and f.__name__ == "<lambda>":
                    node = n
                    break
        if node is None:
            node = _find_in_file(f)
        mark_tests(node)
        _ast_cache[key] = node
    return _ast_cache[key]


def mark_tests(node):
    """Marks `and`/`or` of which only the truth value is used."""
    for n in ast.walk(node):
        ts = []
        if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
            ts = [n.test]
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            ts = [n.operand]
        elif isinstance(n, ast.comprehension):
            ts = list(n.ifs)
        while ts:
            t = ts.pop()
            if isinstance(t, ast.BoolOp):
                t.is_test = True
                ts.extend(t.values)


def _boolean(v):
    return isinstance(v, (bool, onp.bool_)) or isinstance(v, Term) and v.sort == "B"


def _find_in_file(f):
    src = open(f.__code__.co_filename).read()
    cands = []
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Lambda) and f.__name__ == "<lambda>" and n.lineno == f.__code__.co_firstlineno:
            cands.append(n)
        if isinstance(n, ast.FunctionDef) and n.name == f.__name__ and abs(n.lineno - f.__code__.co_firstlineno) < 12:
            cands.append(n)
    if len(cands) != 1:
        raise Unsupported(f"cannot find the source of {f}")
    return cands[0]


def qualname(f):
    return getattr(f, "__qualname__", getattr(f, "__name__", repr(f)))


class Engine:
    def __init__(self, contracts=None, quiet=False):
        self.contracts: Dict[Any, Callable] = dict(contracts or {})
        self.ctx = Ctx()
        self.obligations: List[Obligation] = []
        self.assumed: List[str] = []
        self.decisions: List[bool] = []
        self.pos = 0
        self.pending: List[List[bool]] = []
        self.frames: List[Frame] = []
        self.merge = 0  # >0: symbolic ifs are merged, not forked
        self.identities = {}  # object -> key standing for its identity
        self.globals = {}  # id of a mutable module-level object -> its model
        self.on_raise = None  # called for an exception under a condition, if the contract allows it
        self.discover = 0  # >0: obligations are not recorded
        self.calldepth = 0
        self.executed: Dict[str, str] = {}
        self.where: List[str] = []
        self.class_attrs = {}  # (class, name) -> value assigned by the program
        self.unsure = None  # why a failed obligation says nothing about the code
        self.caches = {}  # results of functions with lru_cache
        self.paths = self.failures = 0
        prove.HURRY[0] = False
        self.stop_at: Optional[Callable] = None
        self.under_cache = {}
        self.generic: Dict[Term, list] = {}
        self.notes: List[str] = []
        self.branch_log: List[str] = []

    @property
    def depth(self):
        return len(self.frames)

    # -------------------------------------------------------------- obligations

    def require(self, goal, what: str):
        goal = lift(goal) if not isinstance(goal, Term) else goal
        if self.discover:
            return
        name = (self.where[-1] + ": " if self.where else "") + what
        t0 = time.time()
        prove.SPENT[0] = 0.0
        r = self.ctx.prove(goal)
        if r.ok is not True:
            self.failures += 1
            prove.HURRY[0] = self.failures >= 2
        self.obligations.append(
            Obligation(name, r.ok is True, r.how, time.time() - t0, "" if r.ok is True else f"goal {str(self.ctx.simp(goal))[:1200]}; {r.detail}")
        )

    def fail(self, what: str, detail: str):
        if self.discover:
            return
        name = (self.where[-1] + ": " if self.where else "") + what
        self.obligations.append(Obligation(name, False, "structure", 0.0, detail))

    def note(self, text):
        if text not in self.assumed:
            self.assumed.append(text)

    @contextlib.contextmanager
    def under(self, m):
        """Evaluate under the range facts of the (retired) loop symbols in m."""
        facts = [f for s in m for f in self.generic.get(s, ())]
        # results are evaluated with s and then renamed to m[s]
        facts += [ir.eq(s, v) for s, v in m.items() if s in self.generic and s is not v and s.sort == v.sort]
        if not facts:
            yield
            return
        key = (id(self.ctx), len(self.ctx.facts), tuple(f.id for f in facts))
        c = self.under_cache.get(key)
        if c is None:
            c = self.under_cache[key] = self.ctx.extend(*facts)
            _keep.append(self.ctx)
        old, self.ctx = self.ctx, c
        try:
            yield
        finally:
            self.ctx = old

    @contextlib.contextmanager
    def assuming(self, *facts):
        old, self.ctx = self.ctx, self.ctx.extend(*facts)
        try:
            yield
        finally:
            self.ctx = old

    # -------------------------------------------------------------- paths

    def explore(self, run: Callable[[], Any]) -> List[tuple]:
        """Run all paths; returns [(outcome, value, ctx)] with outcome 'return' or 'raise'."""
        base = self.ctx
        results = []
        todo: List[List[bool]] = [[]]
        while todo:
            self.decisions = todo.pop()
            self.pos = 0
            self.pending = []
            self.ctx = base.copy()
            self.frames, self.merge, self.discover, self.calldepth = [], 0, 0, 0
            self.branch_log = []
            self.caches = {}
            self.class_attrs = {}
            vals.set_engine(self)
            try:
                v = run()
                results.append(("return", v, self.ctx, list(self.branch_log)))
            except PyExc as e:
                results.append(("raise", e.exc, self.ctx, list(self.branch_log)))
            except PathAbort:
                pass
            self.paths += 1
            todo.extend(self.pending)
            if len(results) > 200:
                raise Unsupported("too many paths")
        self.ctx = base
        return results

    def branch(self, cond: Term, what="") -> bool:
        cond = self.ctx.simp(cond)
        if cond is TRUE:
            return True
        if cond is FALSE:
            return False
        if self.ctx.quick(cond):
            return True
        if self.ctx.quick(not_(cond)):
            return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            if self.frames:
                raise Unsupported(f"branch on {str(cond)[:200]} inside a symbolic loop")
            d = True
            self.pending.append(self.decisions[: self.pos] + [False])
            self.decisions = self.decisions[: self.pos] + [True]
        self.pos += 1
        self.ctx.assume(cond if d else not_(cond))
        self.branch_log.append(f"{what or str(cond)[:120]}: {d}")
        return d

    def truth(self, v):
        """Python truth value: bool, or a Term if symbolic."""
        if isinstance(v, Term):
            if v.sort == "B":
                return v if not is_const(v) else cval(v)
            if v.sort in ir.ARITH:
                t = ne(v, ZERO)
                return cval(t) if is_const(t) else t
            raise Unsupported(f"truth of {v}")
        if isinstance(v, Seq):
            t = lt(ZERO, v.length())
            return cval(t) if is_const(t) else t
        if isinstance(v, SDict):
            t = lt(ZERO, parts_len(v.parts))
            return cval(t) if is_const(t) else t
        if isinstance(v, (Obj, Abstract, Closure, Bound, Fn)):
            return True
        if isinstance(v, Arr):
            raise Unsupported("truth of an array")
        return bool(v)

    def decide(self, v, what="") -> bool:
        t = self.truth(v)
        if isinstance(t, Term):
            return self.branch(t, what)
        return t

    # -------------------------------------------------------------- calls

    def consume(self, *vs):
        """Called when values are iterated over: an iterator is empty afterwards."""
        for v in vs:
            if isinstance(v, Seq) and v.kind == "generator":
                if getattr(v, "used", False) or v.depth < self.depth:
                    raise Unsupported("an iterator used more than once")
                v.used = True

    def call(self, f, args: list, kw: dict):
        if isinstance(f, Fn):
            self.consume(*args, *kw.values())
            return f.fn(*args, **kw)
        if isinstance(f, Partial):
            return self.call(f.func, list(f.args) + args, {**f.kw, **kw})
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + args, {**f.keywords, **kw})
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + args, kw)
        if isinstance(f, Closure):
            return self.run_body(f.node, f.env, args, kw, f.defaults, f.kwdefaults, f.name)
        if isinstance(f, Abstract):
            return f.call(args, kw)
        if isinstance(f, Obj):
            m = self.class_attr(f.cls, "__call__")
            return self.call(m, [f] + args, kw)
        if isinstance(f, types.MethodType):
            fu = unwrap(f.__func__)
            if fu in self.contracts or is_repo(fu) or id(f.__func__) in MODELS:
                return self.call(f.__func__, [f.__self__] + args, kw)
        c = self.contract_of(f)
        if c is not None:
            return c(self, *args, **kw)
        try:
            h = MODELS.get(id(f))
        except TypeError:
            h = None
        if h is not None:
            return self.call_model(h, args, kw)
        if isinstance(f, type):
            return self.construct(f, args, kw)
        if isinstance(f, functools._lru_cache_wrapper) and is_repo(f.__wrapped__):
            return self.cached_call(f, args, kw)
        g = unwrap(f)
        c = self.contract_of(g)
        if c is not None:
            return c(self, *args, **kw)
        if isinstance(g, types.FunctionType) and is_repo(g):
            return self.call_function(g, args, kw)
        if isinstance(g, types.MethodType) and is_repo(unwrap(g.__func__)):
            return self.call(g.__func__, [g.__self__] + args, kw)
        if id(g) in MODELS:
            return self.call_model(MODELS[id(g)], args, kw)
        return self.native(f, args, kw)

    def call_model(self, h, args, kw):
        if h not in STAR and any(isinstance(a, StarSeq) for a in args):
            raise Unsupported("library function of a symbolic number of arguments")
        if h not in LAZY:
            self.consume(*args, *kw.values())
        return h(self, *args, **kw)

    def cached_call(self, f, args, kw):
        """lru_cache: without a size limit equal arguments give the same object."""
        if self.frames or self.merge or kw:
            raise Unsupported(f"cached function {qualname(f)}")
        if f.cache_parameters()["maxsize"] is not None:
            return self.call(f.__wrapped__, args, kw)  # the entry may have been evicted
        table = self.caches.setdefault(f, [])
        for known, v in table:
            same = [self.same_key(a, b) for a, b in zip(known, args)] if len(known) == len(args) else [False]
            if all(x is True for x in same):
                return v
            if not any(x is False for x in same):
                raise Unsupported("cached function of arguments that may be equal")
        v = self.call(f.__wrapped__, args, kw)
        if may_change(v):
            raise Unsupported("object that changes, from a cached function")
        table.append((list(args), v))
        return v

    def same_key(self, a, b):
        if a is b:
            return True
        if isinstance(a, Term) or isinstance(b, Term):
            e = eq(lift(a), lift(b))
            return True if self.ctx.quick(e) else False if self.ctx.quick(not_(e)) else None
        if isinstance(a, Abstract) or isinstance(b, Abstract):
            return False
        return bool(a == b) if is_concrete(a) and is_concrete(b) else None

    def contract_of(self, f):
        try:
            return self.contracts.get(f)
        except TypeError:
            return None

    def native(self, f, args, kw):
        if isinstance(f, types.BuiltinMethodType) and isinstance(f.__self__, MUTABLE) and f.__name__ not in ("get", "items", "keys", "values", "index", "count", "copy"):
            raise Unsupported(f"{qualname(f)} of a module-level object")
        if all(is_concrete(a) for a in args) and all(is_concrete(a) for a in kw.values()):
            try:
                return f(*[to_native(a) for a in args], **{k: to_native(v) for k, v in kw.items()})
            except Unsupported:
                raise
            except Exception as e:
                raise Unsupported(f"native call {qualname(f)}: {type(e).__name__}: {e}")
        raise Unsupported(f"no model for {getattr(f, '__module__', '')}.{qualname(f)} on symbolic arguments")

    def call_function(self, g: types.FunctionType, args, kw):
        node = function_ast(g)
        env = Env(None, g.__globals__)
        if g.__closure__:
            env.vars.update({n: c.cell_contents for n, c in zip(g.__code__.co_freevars, g.__closure__)})
        name = f"{g.__module__}.{g.__qualname__}"
        if name not in self.executed:
            self.executed[name] = hashlib.sha256(ast.dump(node).encode()).hexdigest()[:16]
        # `__class__` cell for super() is not modelled
        return self.run_body(node, env, args, kw, list(g.__defaults__ or ()), dict(g.__kwdefaults__ or {}), name)

    def run_body(self, node, parent: Env, args, kw, defaults, kwdefaults, name):
        env = Env(parent, parent.glob)
        bind_args(node.args, env, args, kw, defaults, kwdefaults, name)
        self.calldepth += 1
        if self.calldepth > 60:
            raise Unsupported("recursion too deep")
        self.where.append(name.split(".")[-2] + "." + name.split(".")[-1] if "." in name else name)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            kind, val = self.exec_block(node.body, env, "func")
            return val if kind == "return" else None
        except MixedExit:
            raise Unsupported("branches under a symbolic condition end differently")
        finally:
            self.where.pop()
            self.calldepth -= 1

    # -------------------------------------------------------------- construction

    def construct(self, cls, args, kw):
        if issubclass(cls, BaseException):
            return PyExcVal(cls)
        if dataclasses.is_dataclass(cls) and cls.__module__.startswith(OWN):
            names = [f for f in dataclasses.fields(cls) if f.init]
            fields = {}
            for f, a in zip(names, args):
                fields[f.name] = a
            if len(args) > len(names):
                raise PyExc(TypeError)
            for k, v in kw.items():
                if k not in {f.name for f in names} or k in fields:
                    raise PyExc(TypeError)
                fields[k] = v
            for f in names:
                if f.name not in fields:
                    if f.default is not dataclasses.MISSING:
                        fields[f.name] = f.default
                    elif f.default_factory is not dataclasses.MISSING:
                        fields[f.name] = self.call(f.default_factory, [], {})
                    else:
                        raise PyExc(TypeError)
            o = Obj(cls, fields)
            post = self.class_attr(cls, "__post_init__", None)
            if post is not None:
                self.call(post, [o], {})
            return o
        if issubclass(cls, tuple) and hasattr(cls, "_fields"):
            return cls(*args, **kw)
        init = self.class_attr(cls, "__init__", None) if cls.__module__.startswith(OWN) else None
        if isinstance(init, types.FunctionType) and is_repo(init) and cls.__new__ is object.__new__ and type(cls) is type:
            o = Obj(cls, {})
            self.call(init, [o] + list(args), kw)
            return o
        if cls.__module__.startswith(OWN) and not any(not is_concrete(a) for a in args):
            return cls(*[to_native(a) for a in args], **kw)
        return self.native(cls, args, kw)

    # -------------------------------------------------------------- attributes

    def class_attr(self, cls, name, default=Ellipsis):
        for k in cls.__mro__:
            if name in k.__dict__:
                v = k.__dict__[name]
                if isinstance(v, staticmethod):
                    return v.__func__
                return v
        if default is not Ellipsis:
            return default
        raise PyExc(AttributeError)

    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name in o.fields:
                return o.fields[name]
            if name == "__class__":
                return o.cls
            for k in o.cls.__mro__:
                if name in k.__dict__:
                    v = k.__dict__[name]
                    if isinstance(v, property):
                        return self.call(v.fget, [o], {})
                    if isinstance(v, staticmethod):
                        return v.__func__
                    if isinstance(v, classmethod):
                        return Bound(v.__func__, o.cls)
                    if callable(v):
                        return Bound(v, o)
                    return v
            raise PyExc(AttributeError)
        if isinstance(o, Abstract):
            return o.getattr(name)
        if isinstance(o, type) and not isinstance(o, Abstract):
            if name == "fromkeys" and issubclass(o, dict):
                from . import library

                return Fn(lambda xs, v=None: library._fromkeys(self, xs, v), name)
            for k in o.__mro__:
                if (k, name) in self.class_attrs:
                    return self.class_attrs[k, name]
                if name in k.__dict__:
                    v = k.__dict__[name]
                    if isinstance(v, staticmethod):
                        return v.__func__
                    if isinstance(v, classmethod):
                        return Bound(v.__func__, o)
                    break
            return getattr(o, name)
        from . import models

        r = models.getattr_value(self, o, name)
        if r is not NotImplemented:
            return r
        if is_concrete(o):
            try:
                return getattr(o, name)
            except AttributeError:
                raise PyExc(AttributeError)
        raise Unsupported(f"attribute {name} of {type(o).__name__}")

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            self.touch(o)
            o.fields[name] = v
            return
        if isinstance(o, Abstract) and hasattr(o, "setattr"):
            return o.setattr(self, name, v)
        if isinstance(o, type) and o.__module__.startswith(OWN) and not self.frames and not self.merge:
            self.class_attrs[o, name] = v
            return
        raise Unsupported(f"assignment to attribute {name} of {type(o).__name__}")

    # -------------------------------------------------------------- mutation inside loops

    def touch(self, o):
        """Called before a mutable value changes."""
        if getattr(o, "derived", False) or getattr(o, "owner", None) is not None:
            raise Unsupported("mutation of one of a symbolic number of collections")
        if self.merge > getattr(o, "merge_level", 0) and not getattr(o, "local_to_merge", False):
            lvl = getattr(o, "made_at_merge", 0)
            if lvl < self.merge:
                raise Unsupported("mutation under a symbolic condition")
        self.begin_change(o)

    def begin_change(self, o):
        for fr in self.frames:
            if o.depth < fr.depth and id(o) not in fr.touched:
                if isinstance(o, (Seq, SDict)):
                    fr.touched[id(o)] = (o, list(o.parts))
                    o.parts = [Prefix(list(o.parts))]
                elif isinstance(o, Obj):
                    fr.touched[id(o)] = (o, dict(o.fields))

    # -------------------------------------------------------------- statements

    def exec_block(self, stmts, env, tail=None):
        """-> ('next', None) | ('return', value) | ('break', None) | ('continue', None)

        tail: 'loop' or 'func' if the block ends the body of a loop or function.
        """
        for i, s in enumerate(stmts):
            if isinstance(s, ast.If):
                rest = stmts[i + 1 :]
                if self.frames:
                    done = idioms.insertion(self, s, rest, env)
                    if done == "all":
                        return "next", None
                    if done:
                        continue
                t = self.truth(self.ev(s.test, env))
                if isinstance(t, Term):
                    t = self.ctx.simp(t)
                    if is_const(t):
                        t = cval(t)
                    elif self.ctx.quick(t):
                        t = True
                    elif self.ctx.quick(not_(t)):
                        t = False
                if isinstance(t, Term) and (self.frames or self.merge):
                    joined = idioms.joined(s)
                    if joined is not None:
                        self.exec_stmt(joined, env)
                        continue
                    return self.merged_if(t, s, rest, env, tail)
                if isinstance(t, Term):
                    t = self.branch(t, ast.unparse(s.test)[:80])
                body = s.body if t else s.orelse
                snapshot = dict(env.vars)
                try:
                    k, v = self.exec_block(body, env, None if rest else tail)
                except MixedExit:
                    if not rest:
                        raise
                    env.vars = snapshot
                    return self.exec_block(body + rest, env, tail)
            else:
                k, v = self.exec_stmt(s, env)
            if k != "next":
                return k, v
        return "next", None

    def merged_if(self, cond, s: ast.If, rest, env: Env, tail=None):
        """Both branches, results merged (used inside symbolic loops)."""
        snapshot = dict(env.vars)
        try:
            out = self.both(cond, [s.body, s.orelse], [snapshot, snapshot], env, None if rest else tail)
        except MixedExit:
            if not rest:
                raise
            # an inner branch leaves early: execute the rest within the branches
            env.vars = dict(snapshot)
            out = self.both(cond, [s.body + rest, s.orelse + rest], [snapshot, snapshot], env, tail)
            rest = []
        done = self.merged(cond, out, env, snapshot, tail if not rest else None)
        if done is not None:
            return self.exec_block(rest, env, tail) if done[0] == "next" else done
        # one side falls through: finish it with the rest
        if rest:
            out = self.both(cond, [rest if k == "next" else (k, v) for k, v, e in out], [e for k, v, e in out], env, tail)
            done = self.merged(cond, out, env, snapshot, tail)
            if done is not None:
                return done
        if {k for k, _, _ in out} & {"break", "raise"} or tail is not None:
            raise Unsupported("branches of an if inside a symbolic loop end differently")
        env.vars = snapshot
        raise MixedExit()

    def both(self, cond, bodies, envs, env, tail):
        out = []
        for c, body, e in zip((cond, not_(cond)), bodies, envs):
            env.vars = dict(e)
            if isinstance(body, tuple):
                out.append((*body, dict(e)))
                continue
            self.merge += 1
            old = self.ctx
            self.ctx = old.extend(c)
            try:
                k, v = self.exec_block(list(body), env, tail)
            except PyExc as exc:
                # the branch must not be taken, unless the contract asks for an exception
                if self.on_raise is not None:
                    if not self.discover:
                        self.on_raise(self.ctx, exc)
                else:
                    self.require(FALSE, f"does not raise {getattr(exc.exc, '__name__', exc.exc)}")
                k, v = "raise", None
            finally:
                self.ctx = old
                self.merge -= 1
            out.append((k, v, dict(env.vars)))
        return out

    def merged(self, cond, out, env, snapshot, tail):
        """Common outcome of two branches, or None if they end differently."""
        (k1, v1, e1), (k2, v2, e2) = out
        if k1 == k2 == "raise":
            raise PyExc(AssertionError)
        if k1 == "raise" or k2 == "raise":
            k, v, e = out[1] if k1 == "raise" else out[0]
            env.vars = dict(e)
            return k, v
        if tail == "func":
            k1, k2 = ("return" if k == "next" and {k1, k2} == {"next", "return"} else k for k in (k1, k2))
        if tail == "loop" and {k1, k2} == {"next", "continue"}:
            k1 = k2 = "continue"
        if k1 != k2:
            return None
        if k1 == "return":
            env.vars = dict(snapshot)
            return "return", self.merge_values(cond, v1, v2)
        env.vars = {n: self.merge_values(cond, e1[n], e2[n]) if n in e1 and n in e2 else Poison(n) for n in set(e1) | set(e2)}
        return k1, None

    def merge_values(self, c, a, b):
        if a is b:
            return a
        from . import models

        return models.merge(self, c, a, b)

    def exec_stmt(self, s, env):
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return "next", None
            self.ev(s.value, env)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                cur = env.lookup(s.target.id)
                if isinstance(cur, Seq) and isinstance(s.op, ast.Add) and cur.kind == "list":
                    self.seq_extend(cur, self.ev(s.value, env))
                    return "next", None
                if isinstance(cur, Arr) and cur.ndim and env.shared(cur):
                    raise Unsupported("in-place change of an array with two names")
                env.set(s.target.id, self.binop(s.op, cur, self.ev(s.value, env)))
            elif isinstance(s.target, ast.Subscript) and self.own_array(s.target.value, env) is not None:
                i = self.ev_index(s.target.slice, env)
                old = self.getitem(self.own_array(s.target.value, env), i)
                new = self.binop(s.op, old, self.ev(s.value, env))
                if self.own_array(s.target.value, env) is None:
                    raise Unsupported("in-place change of an array that is read in the same statement")
                self.write_array(s.target.value, i, new, env)
            elif isinstance(s.target, ast.Subscript):
                o = self.ev(s.target.value, env)
                i = self.ev_index(s.target.slice, env)
                if isinstance(s.op, ast.Add) and isinstance(o, SDict) and o.factory is list:
                    self.call(self.getattr(self.getitem(o, i), "extend"), [self.ev(s.value, env)], {})
                    return "next", None
                self.setitem(o, i, self.binop(s.op, self.getitem(o, i), self.ev(s.value, env)))
            elif isinstance(s.target, ast.Attribute):
                o = self.ev(s.target.value, env)
                self.setattr(o, s.target.attr, self.binop(s.op, self.getattr(o, s.target.attr), self.ev(s.value, env)))
            else:
                raise Unsupported("augmented assignment target")
        elif isinstance(s, ast.Return):
            return "return", (self.ev(s.value, env) if s.value is not None else None)
        elif isinstance(s, ast.If):
            return self.exec_block([s], env)
        elif isinstance(s, ast.For):
            return self.exec_for(s, env)
        elif isinstance(s, ast.While):
            if idioms.counting_loop(self, s, env):
                return "next", None
            n = 0
            while self.decide(self.ev(s.test, env)):
                n += 1
                if n > 200:
                    raise Unsupported("while loop without a concrete bound")
                k, v = self.exec_block(s.body, env, "loop")
                if k == "return":
                    return k, v
                if k == "break":
                    return "next", None
            return self.exec_block(s.orelse, env)
        elif isinstance(s, ast.Assert):
            self.exec_assert(s, env)
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.Break):
            return "break", None
        elif isinstance(s, ast.Continue):
            return "continue", None
        elif isinstance(s, ast.FunctionDef):
            f = Closure(
                s, env, s.name, [self.ev(d, env) for d in s.args.defaults],
                {a.arg: self.ev(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None},
            )
            for d in reversed(s.decorator_list):
                f = self.call(self.ev(d, env), [f], {})
            env.set(s.name, f)
        elif isinstance(s, ast.Raise):
            exc = self.ev(s.exc, env) if s.exc is not None else Exception
            raise PyExc(exc.cls if isinstance(exc, PyExcVal) else exc)
        elif isinstance(s, ast.With):
            return self.exec_with(s, env)
        elif isinstance(s, ast.Try):
            return self.exec_try(s, env)
        elif isinstance(s, ast.Nonlocal):
            env.nonlocals.update(s.names)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            self.exec_import(s, env)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env.vars.pop(t.id, None)
                else:
                    raise Unsupported("del")
        elif isinstance(s, ast.Global):
            raise Unsupported("global statement")
        elif isinstance(s, ast.ClassDef):
            from . import classes

            classes.define(self, s, env)
        else:
            raise Unsupported(f"statement {type(s).__name__}")
        return "next", None

    def exec_import(self, s, env):
        import importlib

        if isinstance(s, ast.Import):
            for a in s.names:
                m = importlib.import_module(a.name)
                env.set(a.asname or a.name.split(".")[0], m if a.asname else importlib.import_module(a.name.split(".")[0]))
        else:
            if s.level:
                pkg = env.glob["__package__"].split(".")
                base = ".".join(pkg[: len(pkg) - s.level + 1])
                m = importlib.import_module(base + ("." + s.module if s.module else ""))
            else:
                m = importlib.import_module(s.module)
            for a in s.names:
                if hasattr(m, a.name):
                    env.set(a.asname or a.name, getattr(m, a.name))
                else:
                    env.set(a.asname or a.name, importlib.import_module(m.__name__ + "." + a.name))

    def exec_assert(self, s, env):
        if isinstance(s.test, ast.Constant) and not s.test.value:
            raise PyExc(AssertionError)
        t = self.truth(self.ev(s.test, env))
        what = "assert " + ast.unparse(s.test)[:100]
        if isinstance(t, Term):
            self.require(t, what)
            self.ctx.assume(t)
        elif not t:
            raise PyExc(AssertionError)

    def exec_with(self, s, env):
        if len(s.items) != 1:
            raise Unsupported("with")
        it = s.items[0]
        v = self.ev(it.context_expr, env)
        if not isinstance(v, CtxManager):
            raise Unsupported("context manager")
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v.value, env)
        return self.exec_block(s.body, env)

    def exec_try(self, s, env):
        if self.frames or self.merge:
            raise Unsupported("try inside a symbolic loop")
        try:
            k, v = self.exec_block(s.body, env)
        except PyExc as e:
            for h in s.handlers:
                if h.type is None or self._exc_match(e.exc, self.ev(h.type, env)):
                    if h.name:
                        env.set(h.name, Fn(None, "exception"))
                    return self.exec_block(h.body, env)
            raise
        if k == "next":
            k, v = self.exec_block(s.orelse, env)
        if s.finalbody:
            k2, v2 = self.exec_block(s.finalbody, env)
            if k2 != "next":
                return k2, v2
        return k, v

    @staticmethod
    def _exc_match(exc, t):
        exc = exc if isinstance(exc, type) else type(exc)
        return issubclass(exc, t)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                parts = self.iter_parts(v)
                if not all(isinstance(p, Item) for p in parts) or len(parts) < len(t.elts) - 1:
                    raise Unsupported("starred assignment")
                i, j = stars[0], len(parts) - (len(t.elts) - 1 - stars[0])
                xs = [p.value for p in parts]
                for e, x in zip(t.elts, xs[:i] + [Seq(parts[i:j], "list")] + xs[j:]):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
                return
            for e, x in zip(t.elts, self.unpack(v, len(t.elts))):
                self.assign(e, x, env)
        elif isinstance(t, ast.Subscript) and self.own_array(t.value, env) is not None:
            i = self.ev_index(t.slice, env)
            self.write_array(t.value, i, v, env)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev_index(t.slice, env), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        self.consume(v)
        if isinstance(v, tuple):
            xs = list(v)
        elif isinstance(v, Seq) and v.is_concrete():
            xs = v.items()
        elif isinstance(v, Seq):
            self.require(eq(v.length(), const(n)), f"unpacking {n} values")
            return [self.getitem(v, i) for i in range(n)]
        elif isinstance(v, Arr):
            self.require(eq(v.doms[0].size(), const(n)), f"unpacking {n} values")
            return [self.getitem(v, i) for i in range(n)]
        elif isinstance(v, (list, onp.ndarray)):
            xs = list(v)
        else:
            raise Unsupported(f"unpacking {type(v).__name__}")
        if len(xs) != n:
            raise PyExc(ValueError)
        return xs

    # -------------------------------------------------------------- loops

    def exec_for(self, s: ast.For, env):
        it = self.ev(s.iter, env)
        self.consume(it)
        parts = self.iter_parts(it)
        if all(isinstance(p, Item) for p in parts):
            for p in parts:
                self.assign(s.target, p.value, env)
                k, v = self.exec_block(s.body, env, "loop")
                if k == "return":
                    return k, v
                if k == "break":
                    return "next", None
            return self.exec_block(s.orelse, env)
        if any(isinstance(n, (ast.Break, ast.Return)) for b in s.body for n in ast.walk(b)):
            raise Unsupported("break/return inside a symbolic loop")

        def body(value):
            self.assign(s.target, value, env)
            self.exec_block(s.body, env, "loop")

        names = [x for x in assigned_names(s) if not (self.is_list(x, env) and only_extended(s, x))]
        names += [x for x in written_names(s) if x not in names and self.own_array(ast.Name(x), env) is not None]
        self.run_loop(parts, body, env, names)
        if s.orelse:
            return self.exec_block(s.orelse, env)
        return "next", None

    def is_list(self, name, env):
        v = env.vars.get(name)
        return isinstance(v, Seq) and v.kind == "list"

    def run_loop(self, parts, body, env: Env, names):
        for p in parts:
            if isinstance(p, Item):
                body(p.value)
            elif isinstance(p, Comp):
                self.summarise(p, body, env, names)
            else:
                raise Unsupported("iteration over a list under construction")

    def summarise(self, comp: Comp, body, env: Env, names):
        """Loop over k < n: run the body for a generic k, solve the recurrences of the carried
        variables, and check that the solution is an invariant."""
        from . import models

        n = comp.n
        k = fresh("k")
        rng = [le(ZERO, k), lt(k, n)]
        self.generic[k] = rng
        carried = [x for x in names if x in env.vars and not isinstance(env.vars[x], Poison)]
        init = {x: env.vars[x] for x in carried}
        owned = {x: isinstance(v, Arr) and v.own for x, v in init.items()}

        lens, unknown = {}, {}  # lengths of containers the body changes, before iteration k

        def once(bindings, discover, changed=(), kk=k):
            fr = Frame(kk, n, len(self.frames) + 1)
            self.frames.append(fr)
            old = self.ctx
            self.ctx = old.extend(*rng)
            saved = dict(env.vars)
            for x, v in bindings.items():
                env.vars[x] = v
            for x in names:
                if x not in bindings:
                    env.vars.pop(x, None)
            for o in changed:
                # the body changes this container: its contents before this iteration are unknown
                self.begin_change(o)
                if isinstance(o, (Seq, SDict)):
                    o.parts[0].length = lens[id(o)] if id(o) in lens else unknown.setdefault(id(o), fresh("len")) if discover else None
            if discover:
                self.discover += 1
            try:
                self.run_loop(comp.at(kk), body, env, names)
                out = {x: env.vars.get(x) for x in names}
            finally:
                if discover:
                    self.discover -= 1
                self.ctx = old
                self.frames.pop()
                env.vars = saved
            return out, fr

        # pass 1: generic values of the carried variables
        fams = {x: f for x in carried for f in [self.family(init[x])] if f is not None}
        gens = {x: models.Gen(fams[x](k)) if x in fams else models.generic_like(self, init[x], x) for x in carried}
        generic = {x: g.value for x, g in gens.items()}
        out, fr = once(generic, True)
        self.restore(fr)
        changed = [o for o, _ in fr.touched.values()]
        for _ in range(6 if changed else 0):
            out, fr = once(generic, True, changed)
            found = {id(o): t for o, base in fr.touched.values() if id(o) not in lens for t in [self.length_before(o, base, k, n, unknown)] if t is not None}
            self.restore(fr)
            more = [o for o, _ in fr.touched.values() if not any(o is c for c in changed)]
            lens.update(found)
            if not more and not (found and unknown):
                break
            changed += more
        closed = {}
        for x in carried:
            closed[x] = fams[x] if x in fams else models.solve_recurrence(self, x, init[x], gens[x], out[x], k, n, gens)
        models.resolve_deferred(self, closed, gens, k, n)
        # pass 2: with the solution, recording obligations
        def at(x, m):
            v = closed[x](m)
            if isinstance(v, Arr) and isinstance(init[x], Arr):
                v.own = owned[x]
            return v

        at_k = {x: at(x, k) for x in carried}
        out, fr = once(at_k, False, changed)
        if any(not any(o is c for c in changed) for o, _ in fr.touched.values()):
            raise Unsupported("container changed in some iterations only")
        for x in carried:
            if hasattr(closed[x], "finish"):
                closed[x].finish(out[x])
        with self.assuming(*rng):
            for x in carried:
                want = closed[x](add(k, ONE))
                models.require_equal(self, out[x], want, f"loop invariant for `{x}` is preserved")
        for x in carried:
            if not self.discover:
                models.require_equal(self, init[x], closed[x](ZERO), f"loop invariant for `{x}` holds initially")
        # effects on containers
        for o, base in fr.touched.values():
            if isinstance(o, (Seq, SDict)):
                new = o.parts
                if not (new and isinstance(new[0], Prefix)):
                    raise Unsupported("container overwritten inside a symbolic loop")
                added = new[1:]
                comp2 = Comp(n, lambda t, added=added: [p.sub({k: t}) for p in added])
                o.parts = base + [comp2]
                if isinstance(o, SDict):
                    models.normalise_dict(self, o)
                else:
                    models.normalise_lists(self, o, base)
            else:
                raise Unsupported("object mutated inside a symbolic loop")
        for x in carried:
            env.vars[x] = at(x, n)
        for x in names:
            if x not in carried:
                env.vars[x] = Poison(f"{x} after the loop")

    def length_before(self, o, base, k, n, unknown):
        """Length of a list or dictionary before iteration k of a loop that appends to it."""
        if not isinstance(o, (Seq, SDict)) or not (o.parts and isinstance(o.parts[0], Prefix)):
            return None
        added = o.parts[1:]
        plain = lambda v: v is None or isinstance(v, (bool, int, float, str, Term, Arr)) or isinstance(v, tuple) and all(map(plain, v))
        if not all(isinstance(p, Item) and plain(p.value) for p in added):
            return None
        j = fresh("j")
        return add(vals.parts_len(base), ir.mk_sum([(j, k)], const(len(added)))) if not any(isinstance(p, Prefix) and p.length is None for p in base) else None

    def family(self, init):
        """Invariant supplied by the task for a loop-carried value: value after m iterations."""
        f = getattr(self, "family_hook", None)
        return f(self, init) if f else None

    def restore(self, fr):
        for o, base in fr.touched.values():
            if isinstance(o, (Seq, SDict)):
                o.parts = base
            else:
                o.fields = base

    def iter_parts(self, v):
        from . import models

        return models.iter_parts(self, v)

    def comp_parts(self, gens, i, env, emit):
        """Parts produced by a comprehension."""
        from . import models

        if i == len(gens):
            return emit(env)
        g = gens[i]
        it = self.ev(g.iter, env)
        self.consume(it)
        parts = self.iter_parts(it)
        # one scope for all iterations: functions made in the comprehension see its last values
        e = Env(env, env.glob)

        def over(parts):
            out = []
            for p in parts:
                if isinstance(p, Item):
                    self.assign(g.target, p.value, e)
                    ok = True
                    for cond in g.ifs:
                        t = self.truth(self.ev(cond, e))
                        if isinstance(t, Term):
                            raise Unsupported("filtered comprehension over a symbolic sequence")
                        ok = ok and t
                    if ok:
                        out.extend(self.comp_parts(gens, i + 1, e, emit))
                elif isinstance(p, Comp):
                    k = fresh("k")
                    rng = [le(ZERO, k), lt(k, p.n)]
                    self.generic[k] = rng
                    fr = Frame(k, p.n, len(self.frames) + 1)
                    self.frames.append(fr)
                    old = self.ctx
                    self.ctx = old.extend(*rng)
                    try:
                        body = over(p.at(k))
                    finally:
                        self.ctx = old
                        self.frames.pop()
                    if fr.touched:
                        raise Unsupported("mutation inside a comprehension")
                    if any(isinstance(b, Item) and isinstance(b.value, (Closure, Partial)) for b in body):
                        raise Unsupported("functions made in a comprehension")
                    out.append(Comp(p.n, lambda t, body=body, k=k: [b.sub({k: t}) for b in body], tuple(models.shared([b for b in body if isinstance(b, Item)]))))
                else:
                    raise Unsupported("iteration over a list under construction")
            return out

        return over(parts)

    # -------------------------------------------------------------- expressions

    def ev(self, e, env):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def ev_Constant(self, e, env):
        return e.value

    def ev_Name(self, e, env):
        v = env.lookup(e.id)
        if isinstance(v, Poison):
            raise Unsupported(f"use of {v.why}")
        if isinstance(v, Arr):
            v.own = False
        return v

    def own_array(self, e, env):
        """An array that only this name refers to."""
        if isinstance(e, ast.Name):
            v = env.vars.get(e.id)
            if isinstance(v, Arr) and v.own:
                return v
        return None

    def write_array(self, e, i, v, env):
        """x[i] = v for an array with one reference: rebinds the name."""
        from . import models

        x = self.own_array(e, env)
        r = models.at_update(self, models.AtIdx(x, i), "set", v)
        r.own = True
        env.set(e.id, r)

    def ev_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def ev_Tuple(self, e, env):
        return self._display(e.elts, env, "tuple")

    def ev_List(self, e, env):
        return self._display(e.elts, env, "list")

    def ev_Set(self, e, env):
        s = self._display(e.elts, env, "list")
        return SSet(s)

    def _display(self, elts, env, kind):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                parts.extend(self.iter_parts(self.ev(x.value, env)))
            else:
                parts.append(Item(self.ev(x, env)))
        if kind == "tuple" and all(isinstance(p, Item) for p in parts):
            return tuple(p.value for p in parts)
        s = Seq(parts, kind)
        s.made_at_merge = self.merge
        return s

    def ev_Dict(self, e, env):
        d = SDict([])
        d.made_at_merge = self.merge
        for k, v in zip(e.keys, e.values):
            if k is None:
                for p in self.ev(v, env).parts:
                    d.parts.append(p)
            else:
                self.setitem(d, self.ev(k, env), self.ev(v, env))
        return d

    def ev_Call(self, e, env):
        f = self.ev(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if f is builtins.sum and isinstance(a, (ast.GeneratorExp, ast.ListComp)):
                a = idioms.unfiltered(a)
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                self.consume(v)
                parts = self.iter_parts(v)
                if all(isinstance(p, Item) for p in parts):
                    args.extend(p.value for p in parts)
                else:
                    args.append(StarSeq(Seq(parts, "tuple")))
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if isinstance(d, SDict):
                    for p in d.parts:
                        if not isinstance(p, Item):
                            raise Unsupported("** of a symbolic dict")
                        kw[p.value[0]] = p.value[1]
                else:
                    kw.update(d)
            else:
                kw[k.arg] = self.ev(k.value, env)
        if f is builtins.globals:
            return env.glob
        if f is builtins.super:
            raise Unsupported("super()")
        return self.call(f, args, kw)

    def ev_Lambda(self, e, env):
        return Closure(e, env, "<lambda>", [self.ev(d, env) for d in e.args.defaults], {})

    def ev_IfExp(self, e, env):
        t = self.truth(self.ev(e.test, env))
        if isinstance(t, Term):
            t = self.ctx.simp(t)
            if is_const(t):
                t = cval(t)
            elif self.ctx.quick(t):
                t = True
            elif self.ctx.quick(not_(t)):
                t = False
        if isinstance(t, Term):
            outs = []
            for c, x in ((t, e.body), (not_(t), e.orelse)):
                self.merge += 1
                old = self.ctx
                self.ctx = old.extend(c)
                try:
                    outs.append((self.ev(x, env),))
                except PyExc as exc:
                    if self.on_raise is not None:
                        if not self.discover:
                            self.on_raise(self.ctx, exc)
                    else:
                        self.require(FALSE, f"does not raise {getattr(exc.exc, '__name__', exc.exc)}")
                    outs.append(())
                finally:
                    self.ctx = old
                    self.merge -= 1
            if outs == [(), ()]:
                raise PyExc(AssertionError)
            if () in outs:
                return outs[0 if outs[0] else 1][0]
            outs = [o for o, in outs]
            try:
                return self.merge_values(t, *outs)
            except Unsupported:
                if self.frames or self.merge:
                    raise
                return outs[0] if self.branch(t, ast.unparse(e.test)[:80]) else outs[1]
        return self.ev(e.body if t else e.orelse, env)

    def ev_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        acc = None
        seen = []
        old = self.ctx
        try:
            for x in e.values:
                v = self.ev(x, env)
                t = self.truth(v)
                if isinstance(t, Term):
                    t = self.ctx.simp(t)
                    if is_const(t):
                        t = cval(t)
                seen.append((t, v))
                if not isinstance(t, Term):
                    if t != isand:
                        # decided, unless an earlier operand was symbolic
                        if acc is None:
                            return v
                        acc = const(not isand)
                        break
                    last = v
                    if x is e.values[-1] and acc is None:
                        return v
                    continue
                acc = t if acc is None else (and_(acc, t) if isand else or_(acc, t))
                self.ctx = self.ctx.extend(t if isand else not_(t))
        finally:
            self.ctx = old
        if acc is not None and not getattr(e, "is_test", False) and not all(_boolean(v) for _, v in seen):
            # the value of one of the operands
            out = seen[-1][1]
            for t, v in reversed(seen[:-1]):
                out = v if not isinstance(t, Term) and t != isand else out if not isinstance(t, Term) else self.merge_values(t, out, v) if isand else self.merge_values(t, v, out)
            return out
        return acc if acc is not None else last

    def ev_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return not_(t) if isinstance(t, Term) else not t
        from . import models

        return models.unop(self, e.op, v)

    def ev_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        from . import models

        return models.binop(self, op, a, b)

    def ev_Compare(self, e, env):
        from . import models

        left = self.ev(e.left, env)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env)
            v = models.compare(self, op, left, right)
            left = right
            if acc is None:
                acc = v
            else:
                t1, t2 = self.truth(acc), self.truth(v)
                if not isinstance(t1, Term) and not t1:
                    return acc
                acc = v if not isinstance(t1, Term) else and_(t1, lift(t2))
        return acc

    def ev_Subscript(self, e, env):
        x = self.own_array(e.value, env)
        if x is not None:
            r = self.getitem(x, self.ev_index(e.slice, env))
            if isinstance(r, Arr) and r.ndim:
                x.own = False  # may be a view
            return r
        return self.getitem(self.ev(e.value, env), self.ev_index(e.slice, env))

    def ev_index(self, s, env):
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, env) for x in s.elts)
        if isinstance(s, ast.Slice):
            return slice(*[self.ev(x, env) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.ev(s, env)

    def ev_Slice(self, s, env):
        return self.ev_index(s, env)

    def ev_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                try:
                    x = self.ev(v.value, env)
                    plain = v.conversion == -1 and v.format_spec is None
                    out.append(str(x) if plain and is_concrete(x) else Hole(x if plain else None))
                except (Unsupported, PyExc):
                    out.append(Hole(None))
        return "".join(out) if all(isinstance(x, str) for x in out) else Text(out)

    def ev_ListComp(self, e, env):
        r = Seq(self.comp_parts(e.generators, 0, Env(env, env.glob), lambda en: [Item(self.ev(e.elt, en))]), "list")
        r.made_at_merge = self.merge
        return r

    def ev_GeneratorExp(self, e, env):
        return Seq(self.comp_parts(e.generators, 0, Env(env, env.glob), lambda en: [Item(self.ev(e.elt, en))]), "generator")

    def ev_SetComp(self, e, env):
        return SSet(self.ev_GeneratorExp(e, env))

    def ev_DictComp(self, e, env):
        from . import models

        d = SDict(
            self.comp_parts(
                e.generators, 0, Env(env, env.glob), lambda en: [Item((self.ev(e.key, en), self.ev(e.value, en)))]
            )
        )
        models.normalise_dict(self, d)
        d.made_at_merge = self.merge
        return d

    def ev_Starred(self, e, env):
        raise Unsupported("starred expression")

    def ev_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def getitem(self, o, i):
        from . import models

        return models.getitem(self, o, i)

    def setitem(self, o, i, v):
        from . import models

        return models.setitem(self, o, i, v)

    def seq_extend(self, s, other):
        self.touch(s)
        s.parts = s.parts + list(self.iter_parts(other))


class PyExcVal:
    def __init__(self, cls):
        self.cls = cls


class CtxManager:
    def __init__(self, value):
        self.value = value


def assigned_names(s):
    out = []

    def targets(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)

    def walk(n):
        if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            if isinstance(n, ast.FunctionDef) and n.name not in out:
                out.append(n.name)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                targets(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
            targets(n.target)
        for c in ast.iter_child_nodes(n):
            walk(c)

    walk(s)
    return out


def only_extended(s, name):
    """Every assignment to `name` in the statement is `name += ...`, which extends a list in place."""
    extended = [n for n in ast.walk(s) if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name) and n.target.id == name]
    stored = [n for n in ast.walk(s) if isinstance(n, ast.Name) and n.id == name and not isinstance(n.ctx, ast.Load)]
    return len(stored) == len(extended)


def written_names(s):
    """Names x in statements `x[...] = ...`."""
    out = []
    for n in ast.walk(s):
        ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else []
        out += [t.value.id for t in ts if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name)]
    return out


def bind_args(a: ast.arguments, env, args, kw, defaults, kwdefaults, name):
    kw = dict(kw)
    pos = [x.arg for x in a.posonlyargs + a.args]
    given = dict(zip(pos, args))
    extra = args[len(pos) :]
    for p in pos:
        if p in kw:
            if p in given:
                raise PyExc(TypeError)
            given[p] = kw.pop(p)
    dpos = pos[len(pos) - len(defaults) :] if defaults else []
    for p, d in zip(dpos, defaults):
        if p not in given:
            given[p] = d
    for p in pos:
        if p not in given:
            raise PyExc(TypeError)
        env.vars[p] = given[p]
    for x in a.kwonlyargs:
        if x.arg in kw:
            env.vars[x.arg] = kw.pop(x.arg)
        elif x.arg in kwdefaults:
            env.vars[x.arg] = kwdefaults[x.arg]
        else:
            raise PyExc(TypeError)
    if a.vararg:
        if any(isinstance(x, StarSeq) for x in extra):
            parts = []
            for x in extra:
                parts.extend(x.seq.parts if isinstance(x, StarSeq) else [Item(x)])
            env.vars[a.vararg.arg] = Seq(parts, "tuple")
        else:
            env.vars[a.vararg.arg] = tuple(extra)
    elif extra:
        raise PyExc(TypeError)
    if a.kwarg:
        d = SDict([Item((k, v)) for k, v in kw.items()])
        env.vars[a.kwarg.arg] = d
    elif kw:
        raise PyExc(TypeError)
    if any(isinstance(x, StarSeq) for x in given.values()):
        raise Unsupported("symbolic *args bound to named parameters")


_SYMBOLIC = (Term, Arr, Seq, SDict, SSet, Obj, Abstract, Batched, Closure, Bound, Partial, Bucket, Poison, Fn, Item, Comp, StarSeq, CtxManager)


def is_concrete(v) -> bool:
    if isinstance(v, Term):
        return is_const(v)
    if isinstance(v, Seq):
        return v.is_concrete() and all(is_concrete(x) for x in v.items())
    if isinstance(v, SDict):
        return all(isinstance(p, Item) and is_concrete(p.value) for p in v.parts)
    if isinstance(v, _SYMBOLIC):
        return False
    if isinstance(v, tuple):
        return all(is_concrete(x) for x in v)
    if isinstance(v, slice):
        return all(is_concrete(x) for x in (v.start, v.stop, v.step))
    return True


def to_native(v):
    if isinstance(v, Term):
        c = cval(v)
        return c if isinstance(c, bool) else (int(c) if c.denominator == 1 else float(c))
    if isinstance(v, Seq):
        xs = [to_native(x) for x in v.items()]
        return tuple(xs) if v.kind == "tuple" else xs
    if isinstance(v, SDict):
        return {to_native(p.value[0]): to_native(p.value[1]) for p in v.parts}
    if isinstance(v, tuple):
        return type(v)(*[to_native(x) for x in v]) if hasattr(v, "_fields") else tuple(to_native(x) for x in v)
    return v


from . import idioms  # noqa: E402
