"""Meaning of Python / NumPy / JAX operations on symbolic values."""
from __future__ import annotations

import ast
import builtins
import collections
import dataclasses
import functools
import itertools
import operator
import types
import typing
from fractions import Fraction

import jax
import jax_dataclasses as jdc
import numpy as onp
from jax import numpy as jnp

from . import ir, vals
from .interp import (
    MODELS, Bound, Bucket, Closure, CtxManager, Engine, Frame, Partial, PyExc, PyExcVal, StarSeq,
    is_concrete, model, to_native,
)
from .ir import FALSE, ONE, TRUE, ZERO, Term, add, and_, app, const, cval, eq, fresh, is_const, ite, le, lift, lt, mk_red, mk_sum, mul, ne, not_, or_, sub, subst
from .vals import (
    Abstract, Arr, Batched, Comp, Fn, Item, Ix, NComp, NLeaf, NSeq, Node, Obj, Poison, Prefix, SDict, SSet, Seq,
    Unsupported, arr2, coerce, flat_arr, is_one, join_kind, parts_len, parts_map, pyint, same_dom, scalar, subval, zipmap,
)

NUM = (int, float, bool, onp.integer, onp.floating, onp.bool_)


class DType(Abstract):
    def __init__(self, kind):
        self.k = kind

    def getattr(self, name):
        if name == "type":
            return self
        raise Unsupported(f"dtype.{name}")

    def call(self, args, kw):
        return args[0]


def isnum(v):
    return isinstance(v, NUM) or (isinstance(v, Term) and v.sort in ("I", "R", "B"))


def kind_of(v):
    if isinstance(v, Arr):
        return v.kind
    t = lift(pynum(v))
    return {"B": "b", "I": "i"}.get(t.sort, "f")


def pynum(v):
    if isinstance(v, (onp.bool_,)):
        return bool(v)
    if isinstance(v, onp.integer):
        return int(v)
    if isinstance(v, onp.floating):
        return float(v)
    return v


def is_arrayish(v):
    return isinstance(v, (Arr, onp.ndarray, jax.Array)) or isnum(v)


def to_arr(v) -> Arr:
    if isinstance(v, Arr):
        return v
    if isnum(v):
        return scalar(lift(pynum(v)))
    if isinstance(v, (onp.ndarray, jax.Array)):
        a = onp.asarray(v)
        if a.ndim == 0:
            return scalar(lift(pynum(a[()])))
        return const_array(a)
    if isinstance(v, (Seq, tuple, list)):
        return stack_arrays(vals.ENG, seq_items(v), 0)
    if isinstance(v, Batched):
        raise Unsupported("batched value used as an array")
    raise Unsupported(f"array from {type(v).__name__}")


def const_array(a: onp.ndarray) -> Arr:
    kind = {"b": "b", "i": "i", "u": "i"}.get(a.dtype.kind, "f")
    flat = {idx: const(pynum(x)) for idx, x in onp.ndenumerate(a)} if a.size <= 4096 else None
    uniform = a.size > 0 and bool((a == a.flat[0]).all())

    def fn(*paths):
        ts = [p[0] for p in paths]
        if uniform:
            return const(pynum(a.flat[0]))
        if flat is None:
            raise Unsupported("large constant array")
        if all(is_const(t) for t in ts):
            return flat[tuple(int(cval(t)) for t in ts)]
        if a.ndim == 2 and a.shape[0] == a.shape[1] and (a == onp.eye(a.shape[0])).all():
            return ir.ind(eq(ts[0], ts[1]))
        if a.size > 64:
            raise Unsupported("symbolic index into a constant array")
        r = None
        for idx, x in flat.items():
            c = and_(*[eq(t, const(i)) for t, i in zip(ts, idx)])
            r = x if r is None else ite(c, x, r)
        return r if r is not None else ZERO

    return Arr([NLeaf(n) for n in a.shape], fn, kind)


def norm(a):
    """0-d arrays are plain terms."""
    if isinstance(a, Arr) and a.ndim == 0:
        return a.at_path()
    return a


def seq_items(v):
    if isinstance(v, Seq):
        if not v.is_concrete():
            raise Unsupported("symbolic sequence where a concrete one is needed")
        return v.items()
    if isinstance(v, StarSeq):
        return seq_items(v.seq)
    return list(v)


# ------------------------------------------------------------------ arithmetic

fdiv_doc = "integer floor division"


def int_fdiv(a, b):
    a, b = lift(a), lift(b)
    if is_const(b) and cval(b) == 1:
        return a
    q = vals._quotient(a, b)
    if q is not None and sub(a, mul(q, b)) is ZERO:
        return q  # exact for b != 0
    return app("fdiv", [a, b], "I")


from .prove import axiom  # noqa: E402


@axiom("fdiv")
def _ax_fdiv(args, t):
    a, b = args
    return [ir.implies(lt(ZERO, b), and_(le(mul(b, t), a), lt(a, add(mul(b, t), b))))]


def _pow(a, b):
    b = lift(b)
    if is_const(b):
        c = cval(b)
        if c.denominator == 1:
            c = int(c)
            return ir.power(a, c) if c >= 0 else ir.inv(ir.power(a, -c))
        if c == Fraction(1, 2):
            return ir.sqrt(a)
        if c == Fraction(-1, 2):
            return ir.inv(ir.sqrt(a))
    return app("pow", [lift(a), b], "R")


def _num_bool(t):
    t = lift(t)
    return ir.ind(t) if t.sort == "B" else t


def _bit(op_b, name):
    def f(a, b):
        a, b = lift(a), lift(b)
        if a.sort == "B" and b.sort == "B":
            return op_b(a, b)
        raise Unsupported(f"bitwise {name}")

    return f


BIN = {
    ast.Add: lambda a, b: add(_num_bool(a), _num_bool(b)),
    ast.Sub: lambda a, b: sub(_num_bool(a), _num_bool(b)),
    ast.Mult: lambda a, b: mul(_num_bool(a), _num_bool(b)),
    ast.Div: lambda a, b: ir.div(_num_bool(a), _num_bool(b)),
    ast.FloorDiv: int_fdiv,
    ast.Mod: lambda a, b: sub(a, mul(b, int_fdiv(a, b))),
    ast.Pow: _pow,
    ast.BitAnd: _bit(and_, "and"),
    ast.BitOr: _bit(or_, "or"),
    ast.BitXor: _bit(lambda a, b: not_(eqb(a, b)), "xor"),
}
PYOP = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
    ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.MatMult: operator.matmul,
    ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
}
DUNDER = {
    ast.Add: ("__add__", "__radd__"), ast.Sub: ("__sub__", "__rsub__"), ast.Mult: ("__mul__", "__rmul__"),
    ast.Div: ("__truediv__", "__rtruediv__"), ast.MatMult: ("__matmul__", "__rmatmul__"),
}
INT_KINDS = ("i", "b")


def eqb(a, b):
    return or_(and_(a, b), and_(not_(a), not_(b)))


def elementwise(f, *xs, kind=None):
    if all(isnum(x) for x in xs):
        return f(*[lift(pynum(x)) for x in xs])
    arrs = [to_arr(x) for x in xs]
    return norm(zipmap(lambda *ts: f(*ts), *arrs, kind=kind))


def binop(eng, op, a, b):
    k = type(op)
    for x in (a, b):
        if isinstance(x, Abstract) and hasattr(x, "binop"):
            return x.binop(eng, k, a, b)
    if isinstance(a, Obj) and k in DUNDER:
        m = eng.class_attr(a.cls, DUNDER[k][0], None)
        if m is not None:
            return eng.call(m, [a, b], {})
    if isinstance(b, Obj) and k in DUNDER:
        m = eng.class_attr(b.cls, DUNDER[k][1], None)
        if m is not None:
            return eng.call(m, [b, a], {})
    if k is ast.Add and isinstance(a, (Seq, tuple)) and isinstance(b, (Seq, tuple)):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        return Seq(list(eng.iter_parts(a)) + list(eng.iter_parts(b)), a.kind if isinstance(a, Seq) else "tuple")
    if k is ast.Mult and isinstance(a, (Seq, tuple)) and isinstance(b, (int, Term)):
        b = to_native(b) if is_concrete(b) else b
        if isinstance(b, int):
            return a * b if isinstance(a, tuple) else Seq(a.parts * b, a.kind)
        parts = eng.iter_parts(a)
        return Seq([Comp(b, lambda t: list(parts))], a.kind if isinstance(a, Seq) else "tuple")
    if not isinstance(a, (Term, Arr)) and not isinstance(b, (Term, Arr)) and is_concrete(a) and is_concrete(b):
        try:
            return PYOP[k](to_native(a), to_native(b))
        except ZeroDivisionError:
            raise PyExc(ZeroDivisionError)
    if k is ast.MatMult:
        return matmul(eng, a, b)
    if k is ast.Mod and isinstance(a, str):
        return a
    if k not in BIN:
        raise Unsupported(f"operator {k.__name__}")
    if not (is_arrayish(a) and is_arrayish(b)):
        raise Unsupported(f"operator {k.__name__} on {type(a).__name__}, {type(b).__name__}")
    kind = "f" if k is ast.Div else None
    r = elementwise(BIN[k], a, b, kind=kind)
    if k is ast.FloorDiv and not (kind_of(a) in INT_KINDS and kind_of(b) in INT_KINDS):
        raise Unsupported("floor division of floats")
    if isinstance(r, Term) and is_const(r) and r.sort == "I" and not isinstance(a, Arr) and not isinstance(b, Arr):
        return pyint(r)
    return r


def unop(eng, op, v):
    if isinstance(op, ast.USub):
        if isinstance(v, (Term, Arr)):
            return elementwise(ir.neg, v)
        if isinstance(v, Abstract) and hasattr(v, "binop"):
            return v.binop(eng, ast.USub, v, None)
        return -v
    if isinstance(op, ast.UAdd):
        return v
    if isinstance(op, ast.Invert):
        if isinstance(v, (Term, Arr)):
            if kind_of(v) == "b":
                return elementwise(not_, v, kind="b")
            raise Unsupported("bitwise invert")
        return ~v
    raise Unsupported("unary operator")


CMP = {
    ast.Lt: lt, ast.LtE: le, ast.Gt: lambda a, b: lt(b, a), ast.GtE: lambda a, b: le(b, a),
}


def term_eq(a, b):
    a, b = lift(a), lift(b)
    if a.sort == "B" and b.sort == "B":
        return eqb(a, b)
    if a.sort == "B" or b.sort == "B":
        a, b = _num_bool(a), _num_bool(b)
    return eq(a, b)


def value_eq(eng, a, b):
    """Python ==; bool, Term or Arr."""
    if a is b and not isinstance(a, Arr):
        return True
    if isinstance(a, Abstract) and hasattr(a, "eq"):
        return a.eq(eng, b)
    if isinstance(b, Abstract) and hasattr(b, "eq"):
        return b.eq(eng, a)
    if isinstance(a, (Term,)) or isinstance(b, Term) or isinstance(a, Arr) or isinstance(b, Arr):
        if a is None or b is None or isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)):
            return False
        if isinstance(a, Term) and isinstance(b, Term) and (a.sort not in ("I", "R", "B") or b.sort not in ("I", "R", "B")):
            return False if a.sort != b.sort else eq(a, b)
        return elementwise(term_eq, a, b, kind="b")
    if isinstance(a, (tuple, Seq)) and isinstance(b, (tuple, Seq)):
        if isinstance(a, tuple) or a.is_concrete():
            xs = seq_items(a)
            if isinstance(b, tuple) or b.is_concrete():
                ys = seq_items(b)
                if len(xs) != len(ys):
                    return False
                acc = []
                for x, y in zip(xs, ys):
                    t = eng.truth(value_eq(eng, x, y))
                    if not isinstance(t, Term):
                        if not t:
                            return False
                        continue
                    acc.append(t)
                return and_(*acc) if acc else True
        raise Unsupported("comparison of symbolic sequences")
    if isinstance(a, SSet) and isinstance(b, SSet):
        return set_eq(eng, a, b)
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.cls is not b.cls:
            return False
        acc = []
        for f in dataclasses.fields(a.cls):
            if f.compare:
                t = eng.truth(value_eq(eng, a.fields[f.name], b.fields[f.name]))
                if not isinstance(t, Term):
                    if not t:
                        return False
                    continue
                acc.append(t)
        return and_(*acc) if acc else True
    if isinstance(a, Obj) or isinstance(b, Obj):
        return False
    if isinstance(a, SDict) and isinstance(b, SDict) and a.kind == b.kind == "frozendict" and a.tag is not None and b.tag is not None:
        return True if a.tag is b.tag else eq(a.tag, b.tag)
    if is_concrete(a) and is_concrete(b):
        return to_native(a) == to_native(b)
    raise Unsupported(f"== on {type(a).__name__}, {type(b).__name__}")


SET_EQ_HOOKS = []


def set_eq(eng, a, b):
    for h in SET_EQ_HOOKS:
        r = h(eng, a, b)
        if r is not None:
            return r
    raise Unsupported("comparison of symbolic sets")


def compare(eng, op, a, b):
    if isinstance(op, (ast.Is, ast.IsNot)):
        pos = isinstance(op, ast.Is)
        if a is None or b is None:
            r = a is b
        elif isinstance(a, (bool, Term)) and isinstance(b, (bool, Term)) and isinstance(b, bool):
            r = eng.truth(a) if b else eng.truth(a)
            if isinstance(r, Term):
                r = r if b else not_(r)
            else:
                r = r is b
        elif isinstance(a, (Arr, Seq, SDict)) or isinstance(b, (Arr, Seq, SDict)):
            r = a is b
        else:
            r = eng.truth(value_eq(eng, a, b))
        if isinstance(r, Term):
            return r if pos else not_(r)
        return r if pos else not r
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(eng, b, a)
        if isinstance(op, ast.In):
            return r
        return not_(r) if isinstance(r, Term) else not r
    if isinstance(op, ast.Eq):
        return value_eq(eng, a, b)
    if isinstance(op, ast.NotEq):
        r = value_eq(eng, a, b)
        if isinstance(r, Term):
            return not_(r)
        if isinstance(r, Arr):
            return r.map(not_)
        return not r
    f = CMP[type(op)]
    if isinstance(a, (Term, Arr)) or isinstance(b, (Term, Arr)):
        if not (is_arrayish(a) and is_arrayish(b)):
            raise Unsupported("ordering of non-numbers")
        return elementwise(lambda x, y: f(_num_bool(x), _num_bool(y)), a, b, kind="b")
    if isinstance(a, SSet) or isinstance(b, SSet):
        if isinstance(op, ast.LtE):
            return set_subset(eng, a, b)
        if isinstance(op, ast.GtE):
            return set_subset(eng, b, a)
    if is_concrete(a) and is_concrete(b):
        return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)](to_native(a), to_native(b))
    raise Unsupported("comparison")


def set_subset(eng, a, b):
    raise Unsupported("subset of symbolic sets")


def contains(eng, c, x):
    if isinstance(c, Abstract):
        return c.contains(eng, x)
    if isinstance(c, SDict):
        return dict_contains(eng, c, x)
    if isinstance(c, SSet):
        c = c.seq
    if isinstance(c, Seq) and c.kind in ("keys", "frozen-keys") and getattr(c, "src", None) is not None:
        return dict_contains(eng, c.src, x)
    if isinstance(c, (Seq, tuple)):
        if isinstance(c, tuple) or c.is_concrete():
            acc = FALSE
            for y in seq_items(c):
                t = eng.truth(value_eq(eng, y, x))
                if t is True:
                    return True
                if isinstance(t, Term):
                    acc = or_(acc, t)
            return acc if acc is not FALSE else False
        return dict_contains(eng, SDict(parts_map(c.parts, lambda v: (v, None))), x)
    if is_concrete(c) and is_concrete(x):
        return to_native(x) in to_native(c)
    raise Unsupported(f"membership in {type(c).__name__}")


# ------------------------------------------------------------------ merging (if-then-else)


def merge(eng, c, a, b):
    if a is b:
        return a
    if a is None and b is None:
        return None
    if isnum(a) and isnum(b):
        a, b = lift(pynum(a)), lift(pynum(b))
        if a is b:
            return a
        return ite(c, a, b)
    if isinstance(a, Term) and isinstance(b, Term):
        return ite(c, a, b)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if is_arrayish(a) and is_arrayish(b):
            aa, bb = to_arr(a), to_arr(b)
            if any(isinstance(x, WriteArr) and not isinstance(x, GenArr) for x in (aa, bb)):
                raise Unsupported("conditional write inside a symbolic loop")
            if aa.ndim != bb.ndim:
                raise Unsupported("merge of arrays of different rank")
            with_eng = eng
            for d1, d2 in zip(aa.doms, bb.doms):
                if d1.size() is not d2.size() and not eng.ctx.quick(eq(d1.size(), d2.size())):
                    raise Unsupported("merge of arrays of different shapes")
            return zipmap(lambda x, y: ite(c, x, y), aa, bb)
    if isinstance(a, Abstract) and hasattr(a, "merge"):
        return a.merge(eng, c, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        xs = [merge(eng, c, x, y) for x, y in zip(a, b)]
        return type(a)(*xs) if hasattr(a, "_fields") else tuple(xs)
    if isinstance(a, Seq) and isinstance(b, Seq) and a.is_concrete() and b.is_concrete() and len(a.parts) == len(b.parts):
        return Seq([Item(merge(eng, c, x, y)) for x, y in zip(a.items(), b.items())], a.kind)
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls:
        for h in MERGE_HOOKS:
            r = h(eng, c, a, b)
            if r is not None:
                return r
        return Obj(a.cls, {k: merge(eng, c, a.fields[k], b.fields[k]) for k in a.fields})
    if isinstance(a, Poison) or isinstance(b, Poison):
        return Poison("merged")
    try:
        if is_concrete(a) and is_concrete(b) and to_native(a) == to_native(b):
            return a
    except Exception:
        pass
    raise Unsupported(f"merge of {type(a).__name__} and {type(b).__name__}")


MERGE_HOOKS = []


# ------------------------------------------------------------------ comparing a result with its specification


def require_equal(eng, got, want, what):
    if isinstance(want, (Poison, GenVal)) or isinstance(want, Arr) and getattr(want, "gen", None) is not None:
        return  # not part of a loop invariant
    if isinstance(got, (Poison, GenVal)):
        raise Unsupported(f"value of {what} is not known")
    if isinstance(want, Abstract) and hasattr(want, "require_equal"):
        return want.require_equal(eng, got, what)
    if isinstance(want, Arr):
        if not is_arrayish(got):
            return eng.fail(what, f"expected an array, got {type(got).__name__}")
        got = to_arr(got)
        if got.ndim != want.ndim:
            return eng.fail(what, f"expected rank {want.ndim}, got {got.ndim}")
        for i, (d1, d2) in enumerate(zip(got.doms, want.doms)):
            s1, s2 = d1.size(), d2.size()
            eng.require(eq(s1, s2), f"{what}: length of axis {i}")
        n = 0
        for paths, facts in want.generics():
            with eng.assuming(*facts):
                w = want.at_path(*paths)
                g = got.get(*[Ix(d, p) for d, p in zip(want.doms, paths)])
                eng.require(term_eq(g, w) if w.sort in ("I", "R", "B") else eq(g, w), f"{what}: elements")
            n += 1
        return
    if isnum(want):
        if isinstance(got, Arr):
            got = norm(got)
        if not isnum(got):
            return eng.fail(what, f"expected a number, got {type(got).__name__}")
        return eng.require(term_eq(pynum(got), pynum(want)), what)
    if isinstance(want, Term):
        if isinstance(got, Abstract) and hasattr(got, "as_term"):
            got = got.as_term()
        if not isinstance(got, Term) or got.sort != want.sort:
            return eng.fail(what, f"expected {want}, got {got}")
        return eng.require(eq(got, want), what)
    if isinstance(want, (tuple,)) or (isinstance(want, Seq) and want.is_concrete()):
        if not isinstance(got, (tuple, Seq)) or (isinstance(got, Seq) and not got.is_concrete()):
            return eng.fail(what, f"expected a sequence, got {got}")
        ws, gs = seq_items(want), seq_items(got)
        if len(ws) != len(gs):
            return eng.fail(what, f"expected {len(ws)} entries, got {len(gs)}")
        for i, (g, w) in enumerate(zip(gs, ws)):
            require_equal(eng, g, w, f"{what}[{i}]")
        return
    if isinstance(want, (Seq, SDict)):
        if not isinstance(got, (Seq, SDict)):
            return eng.fail(what, f"expected a collection, got {type(got).__name__}")
        return require_parts(eng, got.parts, want.parts, what)
    if isinstance(want, Obj):
        if not isinstance(got, Obj) or got.cls is not want.cls:
            return eng.fail(what, f"expected {want.cls.__name__}, got {got}")
        for k, w in want.fields.items():
            require_equal(eng, got.fields.get(k), w, f"{what}.{k}")
        return
    if isinstance(want, Batched):
        if not isinstance(got, Batched):
            return eng.fail(what, f"expected a batch, got {type(got).__name__}")
        eng.require(eq(got.n, want.n), f"{what}: size of the batch")
        r = fresh("r")
        eng.generic[r] = [le(ZERO, r), lt(r, want.n)]
        with eng.assuming(*eng.generic[r]):
            require_equal(eng, got.at(r), want.at(r), what)
        return
    if want is None or is_concrete(want):
        try:
            ok = is_concrete(got) and (got is want or bool(to_native(got) == to_native(want)))
        except Exception:
            ok = False
        if ok:
            return eng.require(TRUE, what)
        return eng.fail(what, f"expected {want!r}, got {got!r}")
    raise Unsupported(f"comparison with specification of type {type(want).__name__}")


def require_parts(eng, got, want, what):
    if len(got) != len(want):
        return eng.fail(what, f"expected {len(want)} parts, got {len(got)}")
    for g, w in zip(got, want):
        if isinstance(w, Item):
            if not isinstance(g, Item):
                return eng.fail(what, "structure differs")
            require_equal(eng, g.value, w.value, what)
        elif isinstance(w, Comp):
            if not isinstance(g, Comp):
                return eng.fail(what, "structure differs")
            eng.require(eq(g.n, w.n), f"{what}: number of entries")
            s = fresh("k")
            rng = [le(ZERO, s), lt(s, w.n)]
            eng.generic[s] = rng
            with eng.assuming(*rng):
                require_parts(eng, g.at(s), w.at(s), what)
        else:
            return eng.fail(what, "structure differs")


# ------------------------------------------------------------------ loops


class GenVal(Abstract):
    """Value of a carried variable at the start of a generic iteration (unreadable)."""

    def __init__(self, name):
        self.name = name

    def getattr(self, name):
        raise Unsupported(f"loop-carried value {self.name}")


class Gen:
    def __init__(self, value, sym=None):
        self.value, self.sym = value, sym


class WriteArr(Arr):
    """An array being filled block by block in a loop: reads are not supported."""

    def __init__(self, like: Arr, gen, writes):
        def fn(*p):
            raise Unsupported("read of an array while a loop fills it")

        super().__init__(like.doms, fn, like.kind)
        self.gen, self.writes = gen, list(writes)

    def sub(self, m):
        r = WriteArr(Arr([d.sub(m) for d in self.doms], None, self.kind), self.gen, [(subst(s, m), d.sub(m), v.sub(m)) for s, d, v in self.writes])
        return r


class GenArr(WriteArr):
    """An array at the start of a generic iteration: element p is gen(p)."""

    def __init__(self, like: Arr, gen):
        super().__init__(like, gen, [])
        sort = {"b": "B", "f": "R"}.get(like.kind, "I")
        self._fn = lambda *paths: app(gen, [d.offset(p) for d, p in zip(self.doms, paths)], sort)
        self.own = like.own

    def element(self, idx):
        return app(self.gen, list(idx), {"b": "B", "f": "R"}.get(self.kind, "I"))


def generic_like(eng, init, name):
    if isnum(init):
        t = lift(pynum(init))
        s = fresh("g_" + name, t.sort if t.sort in ("I", "R", "B") else "R")
        return Gen(s, s)
    if isinstance(init, Arr):
        return Gen(GenArr(init, f"start:{name}:{fresh('w').args[0]}"))
    return Gen(GenVal(name))


def solve_recurrence(eng, name, init, gen, out, k, n, gens):
    if gen.sym is not None and (isnum(out) or isinstance(out, Arr) and out.ndim == 0):
        out = lift(pynum(norm(out)))
        x0 = lift(pynum(init))
        g = gen.sym
        if out.sort == "B" or g.sort == "B":
            if out is g:
                return lambda m: init
            return lambda m: Poison(name)
        delta = eng.ctx.simp(_rebuild(out, g, lambda v: sub(v, g)))
        others = {h.sym for h in gens.values() if h.sym is not None}
        if not any(ir.occurs(h, delta) for h in others):
            return lambda m: _sum_to(x0, delta, k, m)
        if not ir.occurs(g, out):
            # same as another variable after this iteration?
            return _Deferred(name, out, init, k, gens, eng)
        return lambda m: Poison(f"{name} after a loop")
    if isinstance(out, WriteArr) and isinstance(gen.value, WriteArr) and out.gen == gen.value.gen:
        if not out.writes:
            return lambda m: init
        return _FoldWrites(eng, name, init, WriteArr(init, gen.value.gen, []), k, n)
    if out is gen.value:
        return lambda m: init
    if isinstance(out, Arr) and isinstance(gen.value, GenArr) and isinstance(init, Arr):
        r = solve_elements(eng, init, gen.value, out, k)
        if r is not None:
            return r
    return lambda m: Poison(f"{name} after a loop")


def _leaves(t, path=()):
    """(conditions, value) of the cases of nested conditionals."""
    if t.op == "ite":
        c, a, b = t.args
        yield from _leaves(a, path + (c,))
        yield from _leaves(b, path + (not_(c),))
    else:
        yield path, t


def solve_elements(eng, init, gen, out, k):
    """Array whose element p after an iteration depends only on its own old value.

    Either every iteration adds to it, or the iterations that set it are k = s(p); the guess is
    checked as a loop invariant.
    """
    if out.ndim != init.ndim or isinstance(out, WriteArr):
        return None
    ps = [fresh("p") for _ in init.doms]
    facts = [f for p, d in zip(ps, init.doms) for f in (le(ZERO, p), lt(p, d.size()))]
    g = gen.element(ps)
    with eng.assuming(*facts, le(ZERO, k)):
        t = out.get(*ps)
    if g.sort == "B":
        return None
    mentions = lambda x: any(ir.is_app(s, gen.gen) for s in ir.subterms(x))
    cases = list(_leaves(t))
    if any(mentions(c) for path, _ in cases for c in path):
        return None

    def array(fn):
        return Arr(init.doms, lambda *paths: fn([d.offset(p) for d, p in zip(init.doms, paths)], init.at_path(*paths)), out.kind)

    deltas = [(path, sub(v, g)) for path, v in cases]
    if not any(mentions(d) for _, d in deltas):
        delta = _rebuild(t, g, lambda v: sub(v, g))
        return lambda m: array(lambda ii, old: _sum_to(old, subst(delta, dict(zip(ps, ii))), k, m))
    if any(v is not g and mentions(v) for _, v in cases):
        return None
    hit = ir.or_(*[and_(*path) for path, v in cases if v is not g])
    val = _rebuild(t, g, lambda v: ZERO if v is g else v)
    steps = []
    for s in ir.subterms(hit):
        if s.op == "eq0":
            e = s.args[0]
            c = [q for mono, q in ir.poly_terms(e) if mono == ((k, 1),)]
            if len(c) == 1 and c[0] in (1, -1):
                # e = c k + rest = 0
                rest = sub(e, mul(const(c[0]), k))
                if not ir.occurs(k, rest):
                    step = mul(const(-c[0]), rest)
                    if step not in steps:
                        steps.append(step)
    if not steps:
        return None
    steps.sort(key=str)

    def element(ii, old, m):
        r = old
        for step in steps:
            at = subst(step, dict(zip(ps, ii)))
            mp = {**dict(zip(ps, ii)), k: at}
            r = ite(and_(le(ZERO, at), lt(at, m), subst(hit, mp)), subst(val, mp), r)
        return r

    return lambda m: array(lambda ii, old: element(ii, old, m))


def _rebuild(t, g, f):
    if t.op == "ite":
        return ite(t.args[0], _rebuild(t.args[1], g, f), _rebuild(t.args[2], g, f))
    return f(t)


def _sum_to(x0, delta, k, m):
    s = fresh("k")
    return add(x0, mk_sum([(s, m)], subst(delta, {k: s})))


class _Deferred:
    """x := e(other carried variables): try the closed form of e one step earlier."""

    def __init__(self, name, out, init, k, gens, eng):
        self.name, self.out, self.init, self.k, self.gens, self.eng = name, out, init, k, gens, eng
        self.closed = None

    def __call__(self, m):
        return Poison(self.name) if self.closed is None else self.closed(m)


def resolve_deferred(eng, closed, gens, k, n):
    """Second round for variables that are copies of expressions over other carried variables."""
    for x, c in closed.items():
        if not isinstance(c, _Deferred):
            continue
        solved = {gens[y].sym: closed[y](k) for y in closed if gens[y].sym is not None and not isinstance(closed[y], _Deferred) and not isinstance(closed[y](k), Poison)}
        out_k = subst(c.out, solved)
        if any(h.sym is not None and ir.occurs(h.sym, out_k) for h in gens.values()):
            continue
        out_k = lift(out_k)
        # candidate: closed form of another variable
        cands = [closed[y] for y in closed if gens[y].sym is not None and not isinstance(closed[y], _Deferred) and not isinstance(closed[y](k), Poison)]
        for cand in cands:
            nxt = cand(add(k, ONE))
            if isnum(nxt) and eng.ctx.extend(le(ZERO, k), lt(k, n)).prove(eq(lift(nxt), out_k)) and eng.ctx.prove(eq(lift(pynum(c.init)), lift(pynum(cand(ZERO))))):
                c.closed = cand
                break
        else:
            init, kk = lift(pynum(c.init)), k
            c.closed = lambda m, out_k=out_k, init=init: ite(eq(m, ZERO), init, subst(out_k, {kk: sub(m, ONE)}))


class _FoldWrites:
    """Every iteration writes the next blocks of an array: the result is their concatenation."""

    def __init__(self, eng, name, init, gen, k, n):
        self.eng, self.name, self.init, self.gen, self.k, self.n = eng, name, init, gen, k, n
        self.out = self.result = None

    def finish(self, out):
        self.out = out

    def __call__(self, m):
        if m is ZERO:
            return GenVal(self.name)
        if m is not self.n or self.out is None:
            return self.gen
        if self.result is None:
            self.result = self.fold()
        return self.result

    def fold(self):
        eng, name, init, k, n, out = self.eng, self.name, self.init, self.k, self.n, self.out
        if not (isinstance(out, WriteArr) and out.gen == self.gen.gen):
            raise Unsupported("array rebuilt inside a symbolic loop")
        size = add(*[d.size() for _, d, _ in out.writes], ZERO)

        def prefix(m):
            s = fresh("k")
            return mk_sum([(s, m)], subst(size, {k: s}))

        start0 = eng.ctx.simp(subst(out.writes[0][0], {k: ZERO}))
        with eng.assuming(le(ZERO, k), lt(k, n)):
            pos = add(start0, prefix(k))
            for s, d, v in out.writes:
                eng.require(eq(s, pos), f"`{name}`: the block written starts where the previous one ended")
                eng.require(eq(v.doms[0].size(), d.size()), f"`{name}`: the block written has the length of the slice")
                pos = add(pos, d.size())
        many = len(out.writes) > 1

        def node(t):
            nodes = [v.doms[0].sub({k: t}) for _, _, v in out.writes]
            return NSeq(nodes) if many else nodes[0]

        dom = NComp(n, node)

        def fn(p):
            w = out.writes[p[1]][2] if many else out.writes[0][2]
            return w.sub({k: p[0]}).at_path(p[2:] if many else p[1:])

        block = Arr([dom], fn, join_kind([v.kind for _, _, v in out.writes]))
        if isinstance(init, WriteArr):
            return WriteArr(init, init.gen, init.writes + [(start0, dom, block)])
        eng.require(eq(start0, ZERO), f"`{name}`: the first block starts at 0")
        eng.require(eq(dom.size(), init.doms[0].size()), f"`{name}`: the blocks fill the array")
        return block


def iter_parts(eng, v):
    if isinstance(v, Seq):
        return list_elements(v) or v.parts
    if isinstance(v, (tuple, list, str, range, dict, set, frozenset)) or isinstance(v, (types.GeneratorType,)):
        return [Item(x) for x in v]
    if isinstance(v, SDict):
        return v.keys().parts
    if isinstance(v, SSet):
        raise Unsupported("iteration over a set")
    if isinstance(v, StarSeq):
        return v.seq.parts
    if isinstance(v, Arr):
        n = v.doms[0].size()
        c = pyint(n)
        if isinstance(c, int) and c <= 64:
            return [Item(index_arr(eng, v, i)) for i in range(c)]
        if isinstance(v.doms[0], NLeaf):
            return [Comp(n, lambda t: [Item(norm(Arr(v.doms[1:], lambda *p: v.at_path((t,), *p), v.kind)))])]
        raise Unsupported("iteration over a block array")
    if isinstance(v, Abstract):
        return v.iter_parts(eng)
    if isinstance(v, (onp.ndarray,)):
        return [Item(x) for x in v]
    if hasattr(v, "__iter__") and is_concrete(v):
        return [Item(x) for x in v]
    raise Unsupported(f"iteration over {type(v).__name__}")


def list_elements(o):
    """The elements of a list of lists, where a change of an element changes the whole."""
    if o.kind not in ("list", "tuple") or not o.parts:
        return None
    under, filled = original_parts(o), isinstance(o.parts[0], Prefix)
    if len(under) != 1 or not isinstance(under[0], Comp) or not under[0].single() or not filled and len(o.parts) != 1:
        return None
    c = under[0]
    v = c.at(fresh("k"))[0].value
    if not isinstance(v, Seq) or v.kind != "list":
        return None

    def element(t):
        v = Seq([Prefix([])] if filled else list(c.at(t)[0].value.parts), "list")
        v.owner = (o, t)
        return [Item(v)]

    return [Comp(c.n, element, c.shares)]


def shared(body):
    """Whose elements the lists among these items are."""
    out = set()
    for b in body:
        for v in b.value if isinstance(b.value, tuple) else (b.value,):
            if isinstance(v, Seq) and getattr(v, "owner", None) is not None:
                out |= {c for p in original_parts(v.owner[0]) for c in getattr(p, "shares", ())}
    return out


def original_parts(o):
    under = o.parts
    while len(under) >= 1 and isinstance(under[0], Prefix):
        under = under[0].base
    return under


# ------------------------------------------------------------------ dictionaries

# fname -> {argument position: function (args, x) -> term recovering that argument from x = fname(args)}
INVERSES = {}


class BucketApp:
    def __init__(self, key, value):
        self.key, self.value = key, value

    def sub(self, m):
        return BucketApp(subval(self.key, m), subval(self.value, m))


class BucketInit:
    """d.setdefault(key, [])"""

    def __init__(self, key):
        self.key = key

    def sub(self, m):
        return BucketInit(subval(self.key, m))


class Once:
    """Value inserted if not yet present."""

    def __init__(self, value):
        self.value = value

    def sub(self, m):
        return Once(subval(self.value, m))


def key_term(key) -> Term:
    """Dictionary keys as terms."""
    if isinstance(key, Term):
        return key
    if isinstance(key, Abstract) and hasattr(key, "as_term"):
        return key.as_term()
    if isinstance(key, tuple):
        return app("tuple", [key_term(k) for k in key], "Key")
    if isinstance(key, Obj) and key.tag is not None:
        return key.tag
    if isinstance(key, Seq) and len(key.parts) == 1 and isinstance(key.parts[0], Comp) and key.parts[0].single():
        c, s = key.parts[0], fresh("k")
        v = c.at(s)[0].value
        if hasattr(v, "seq_key"):
            t = v.seq_key(s, c.n)
            if t is not None:
                return t
    if isinstance(key, (int, bool)):
        return const(key)
    if isinstance(key, (str, type)) or key is None:
        return app("pyobj:" + (key if isinstance(key, str) else getattr(key, "__qualname__", "None")), [], "Obj")
    raise Unsupported(f"dictionary key {type(key).__name__}")


INVERSES["tuple"] = None  # handled by projection


@ir.rule("proj")
def _proj(args):
    i, t = args
    if ir.is_app(t, "tuple") and is_const(i):
        return t.args[1][int(cval(i))]
    return None


def recover(pattern: Term, x: Term, idxs):
    """Express the loop indices in idxs as functions of x, given x = pattern."""
    out = {}

    def go(p, v):
        if p in idxs:
            out.setdefault(p, v)
            return
        if p.op == "app":
            fname, args = p.args
            if fname == "tuple":
                for i, a in enumerate(args):
                    go(a, app("proj", [const(i), v], a.sort))
                return
            inv = INVERSES.get(fname)
            if inv:
                for pos, f in inv.items():
                    if any(ir.occurs(i, args[pos]) for i in idxs):
                        go(args[pos], f(args, v))

    # several rounds: inverses may need arguments recovered earlier
    go(pattern, x)
    if all(i in out for i in idxs):
        res = {}
        for i in idxs:
            t = out[i]
            for _ in range(4):
                t2 = subst(t, out)
                if t2 is t:
                    break
                t = t2
            if any(ir.occurs(j, t) for j in idxs):
                return None
            res[i] = t
        return res
    return None


def flatten_entries(parts):
    """[(idxs with ranges, value)] for every Item under its Comps."""
    out = []

    def go(parts, idx):
        for p in parts:
            if isinstance(p, Item):
                out.append((list(idx), p.value))
            elif isinstance(p, Comp):
                s = fresh("k")
                vals.ENG.generic[s] = [le(ZERO, s), lt(s, p.n)]
                go(p.at(s), idx + [(s, p.n)])
            else:
                out.append((list(idx), p))

    go(parts, [])
    return out


def in_range(idx, m):
    return and_(*[c for s, n in idx for c in (le(ZERO, m[s]), lt(m[s], subst(n, m)))])


def dict_find(eng, d: SDict, key):
    """[(condition that this entry is the one, value thunk)]"""
    kt = key_term(key)
    out = []
    for idx, kv in flatten_entries(d.parts):
        if isinstance(kv, Prefix):
            out.append((None, None))
            continue
        if isinstance(kv, (BucketApp, BucketInit)):
            raise Unsupported("dictionary read while a loop fills it")
        k, v = kv
        pt = key_term(k)
        if pt.sort != kt.sort and not (pt.sort in ir.ARITH and kt.sort in ir.ARITH):
            continue
        syms = [s for s, _ in idx]
        if not syms:
            c = eng.ctx.simp(term_eq(pt, kt) if pt.sort in ("I", "R", "B") else eq(pt, kt))
            out.append((c, lambda v=v: v))
            continue
        m = None
        e = ir.match(pt, kt, set(syms))
        if e is not None and all(s in e for s in syms):
            m = e
        else:
            m = recover(pt, kt, syms)
        if m is None:
            raise Unsupported(f"dictionary lookup {kt} in entries {pt}")
        c = and_(in_range(idx, m), eq(subst(pt, m), kt))
        out.append((c, lambda v=v, m=m: subval(v, m)))
    return out


def dict_lookup(eng, d, key, default=None, has_default=False):
    found = dict_find(eng, d, key)
    cands = []
    for c, v in found:
        if c is None:
            raise Unsupported("dictionary read while a loop fills it")
        c = eng.ctx.simp(c)
        if c is TRUE or eng.ctx.prove(c, 3):
            return v()
        if c is FALSE or eng.ctx.quick(not_(c)):
            continue
        cands.append((c, v))
    if not cands:
        if has_default:
            return default
        raise PyExc(KeyError)
    if has_default:
        r = default
        for c, v in cands:
            r = merge(eng, c, v(), r)
        return r
    eng.require(or_(*[c for c, _ in cands]), f"key {str(key_term(key))[:60]} is present")
    r = cands[-1][1]()
    for c, v in cands[:-1]:
        r = merge(eng, c, v(), r)
    return r


def dict_contains(eng, d, key):
    acc = FALSE
    for c, _ in dict_find(eng, d, key):
        if c is None:
            raise Unsupported("dictionary read while a loop fills it")
        acc = or_(acc, eng.ctx.simp(c))
    if acc is FALSE:
        return False
    if acc is TRUE:
        return True
    return acc


def dict_set(eng, d: SDict, key, value):
    eng.touch(d)
    if not eng.frames or d.depth >= eng.depth and not any(isinstance(p, Prefix) for p in d.parts):
        # overwrite an existing entry?
        for i, p in enumerate(d.parts):
            if isinstance(p, Item) and not isinstance(p.value, (BucketApp, BucketInit)):
                c = eng.ctx.simp(eq_keys(p.value[0], key))
                if c is TRUE:
                    d.parts = d.parts[:i] + [Item((p.value[0], value))] + d.parts[i + 1 :]
                    return
                if c is not FALSE and not eng.ctx.quick(not_(c)):
                    raise Unsupported("dictionary keys not known to be different")
            else:
                c = dict_contains(eng, SDict([p]), key)
                if c is not False and not eng.ctx.quick(not_(lift(c))):
                    raise Unsupported("dictionary keys not known to be different")
    d.parts = d.parts + [Item((key, value))]


def eq_keys(a, b):
    ta, tb = key_term(a), key_term(b)
    if ta is tb:
        return TRUE
    if ta.sort != tb.sort:
        return FALSE
    if ta.op == "app" and tb.op == "app" and ta.args[0].startswith("pyobj:") and tb.args[0].startswith("pyobj:"):
        return FALSE
    return term_eq(ta, tb) if ta.sort in ("I", "R", "B") else eq(ta, tb)


def normalise_dict(eng, d: SDict):
    """After a loop: summarise bucket appends, and repeated insertions of the same key."""
    if d.depth < len(eng.frames):
        return
    entries = flatten_entries(d.parts)
    if any(isinstance(v, BucketInit) for _, v in entries):
        # a bucket is created only where something is put into it
        for idx, v in entries:
            if isinstance(v, BucketInit) and not any(isinstance(w, BucketApp) and i2 == idx and key_term(w.key) is key_term(v.key) for i2, w in entries):
                raise Unsupported("empty bucket")
        d.parts = _without_inits(d.parts)
        entries = flatten_entries(d.parts)
        d.factory = None
    if any(isinstance(v, BucketApp) for _, v in entries):
        if not all(isinstance(v, BucketApp) for _, v in entries):
            raise Unsupported("mixed use of a defaultdict")
        d.parts = group_by(eng, d.parts)
        return
    if all(not idx for idx, _ in entries):
        return
    if len(entries) > 1:
        raise Unsupported("dictionary filled in several ways")
    idx, (k, v) = entries[0]
    kt = key_term(k)
    syms = [s for s, _ in idx]
    if recover(kt, fresh("x", kt.sort), syms) is not None:
        return
    if v is None:
        d.parts = ordered_set(eng, idx, kt, k)
        return
    raise Unsupported("dictionary entries with possibly repeated keys")


def _without_inits(parts):
    return [
        Comp(p.n, lambda t, p=p: _without_inits(p.at(t))) if isinstance(p, Comp) else p
        for p in parts if not (isinstance(p, Item) and isinstance(p.value, BucketInit))
    ]


def normalise_lists(eng, o: Seq, base):
    """After a loop of  lists[i].append(v(k, i)):  every list has grown by v(0, i), v(1, i), ..."""
    added = o.parts[len(base):]
    if any(isinstance(v, Once) for _, v in flatten_entries(added)):
        if o.depth < len(eng.frames):
            return
        entries = flatten_entries(o.parts)
        if len(entries) != 1:
            raise Unsupported("list filled in several ways")
        idx, v = entries[0]
        o.parts = parts_map(ordered_set(eng, idx, key_term(v.value), v.value), lambda kv: kv[0])
        return
    if not any(isinstance(v, BucketApp) for _, v in flatten_entries(added)):
        return
    if o.depth < len(eng.frames):
        return
    if len(base) != 1 or not isinstance(base[0], Comp) or not base[0].single() or len(added) != 1 or not isinstance(added[0], Comp):
        raise Unsupported("lists filled in an unknown order")
    outer, k, i = added[0], fresh("k"), fresh("k")
    eng.generic[k] = [le(ZERO, k), lt(k, outer.n)]
    inner = outer.at(k)
    if len(inner) != 1 or not isinstance(inner[0], Comp) or not inner[0].single():
        raise Unsupported("lists filled in an unknown order")
    inner = inner[0]
    with eng.assuming(*eng.generic[k]):
        eng.require(eq(inner.n, base[0].n), "every list gets one more element")
        eng.generic[i] = [le(ZERO, i), lt(i, inner.n)]
        with eng.assuming(*eng.generic[i]):
            ba = inner.at(i)[0].value
            if not isinstance(ba, BucketApp) or eng.ctx.simp(ba.key) is not i:
                raise Unsupported("lists filled in an unknown order")
    old = base[0]

    def lst(t):
        return [Item(Seq(list(old.at(t)[0].value.parts) + [Comp(outer.n, lambda r: [Item(subval(ba.value, {k: r, i: t}))])], "list"))]

    o.parts = [Comp(old.n, lst)]


def _flat_index(idx, body_terms):
    """Canonical function term of a (nested) comprehension."""
    t = app("pack", list(body_terms), "Key")
    for s, n in reversed(idx):
        t = app("comp", [n, ir.lam(s, t)], "Key")
    return t


SETS = {}


def ordered_set(eng, idx, kt, key):
    """Keys inserted in a loop, with repetitions: enumeration without repetition."""
    S = app("keyset", [_flat_index(idx, [kt])], "Key")
    SETS[S.id] = (idx, kt)
    n = app("setlen", [S], "I")
    wrap = rewrap(key)
    return [Comp(n, lambda t: [Item((wrap(app("setnth", [S, t], kt.sort)), None))])]


class KeyVal(Abstract):
    """A key known only as a term."""

    def __init__(self, t):
        self.t = t

    def as_term(self):
        return self.t

    def sub(self, m):
        return KeyVal(subst(self.t, m))


def rewrap(key):
    """Function rebuilding a key value from its term."""
    if isinstance(key, (Seq, KeyVal)):
        return KeyVal
    if isinstance(key, Term):
        return lambda t: t
    if isinstance(key, Abstract) and hasattr(key, "from_term"):
        return key.from_term
    raise Unsupported("dictionary key")


INVERSES["setnth"] = {1: lambda args, x: app("setpos", [args[0], x], "I")}


@ir.rule("setpos")
def _setpos(args):
    S, x = args
    if ir.is_app(x, "setnth") and x.args[1][0] is S:
        return x.args[1][1]
    return None


@ir.rule("setnth")
def _setnth(args):
    S, q = args
    return q.args[1][1] if ir.is_app(q, "setpos") and q.args[1][0] is S else None


@axiom("setlen")
def _ax_setlen(args, t):
    return [le(ZERO, t)]


@axiom("setpos")
def _ax_setpos(args, t):
    S, x = args
    out = []
    if S.id in SETS:
        idx, kt = SETS[S.id]
        m = ir.match(kt, x, {s for s, _ in idx})
        if m is not None and all(s in m for s, _ in idx):
            out.append(
                ir.implies(
                    in_range(idx, m),
                    and_(le(ZERO, t), lt(t, app("setlen", [S], "I")), eq(app("setnth", [S, t], x.sort), x)),
                )
            )
    return out


@axiom("setnth")
def _ax_setnth(args, t):
    """Every element of the enumeration was inserted: ghost indices of one of its insertions."""
    S, q = args
    if S.id not in SETS:
        return []
    idx, kt = SETS[S.id]
    m = {}
    for j, (s, n) in enumerate(idx):
        m[s] = app(f"setfirst{j}", [S, q], "I")
    return [ir.implies(and_(le(ZERO, q), lt(q, app("setlen", [S], "I"))), and_(in_range(idx, m), eq(subst(kt, m), t)))]


GROUPS = {}


def group_by(eng, parts):
    """defaultdict(list) filled by d[key].append(value): buckets in order of first use."""
    # already grouped input: for u: for j: d[key(u)].append(..) with key injective in u
    if len(parts) == 1 and isinstance(parts[0], Comp):
        c = parts[0]
        s = fresh("k")
        eng.generic[s] = [le(ZERO, s), lt(s, c.n)]
        inner = c.at(s)
        if len(inner) == 1 and isinstance(inner[0], Comp):
            c2 = inner[0]
            r = fresh("k")
            eng.generic[r] = [le(ZERO, r), lt(r, c2.n)]
            it = c2.at(r)
            if len(it) == 1 and isinstance(it[0], Item):
                ba = it[0].value
                with eng.assuming(le(ZERO, s), lt(s, c.n), le(ZERO, r), lt(r, c2.n)):
                    kt = eng.ctx.simp(key_term(ba.key))
                if not ir.occurs(r, kt) and recover(kt, fresh("x", kt.sort), [s]) is not None:
                    with eng.assuming(le(ZERO, s), lt(s, c.n)):
                        eng.require(lt(ZERO, c2.n), "groups of the input are not empty")
                    wrap = rewrap(ba.key)
                    key_v = wrap(kt)

                    def entry(t):
                        kk = subval(key_v, {s: t})
                        lst = Seq([Comp(subst(c2.n, {s: t}), lambda q: [Item(subval(ba.value, {s: t, r: q}))])], "list")
                        return [Item((kk, lst))]

                    return [Comp(c.n, entry)]
        if len(inner) == 1 and isinstance(inner[0], Item):
            return _group_flat(eng, c.n, s, inner[0].value)
    raise Unsupported("grouping of a nested sequence")


def _group_flat(eng, n, k, ba):
    key = ba.key
    kt = key_term(key)
    comps = list(kt.args[1]) if ir.is_app(kt, "tuple") else [kt]
    T = app("grouping", [n, ir.lam(k, kt)], "Key")
    if T.id not in GROUPS:
        GROUPS[T.id] = (n, k, kt, comps)
        for i, c in enumerate(comps):
            if c.op == "app" and ir.occurs(k, c):
                _register_key_rule(T, i, c, k)
    G = app("gn", [T], "I")

    def keyval(g):
        if ir.is_app(kt, "tuple"):
            xs = [app(f"gkey{i}", [T, g], c.sort) if ir.occurs(k, c) else c for i, c in enumerate(comps)]
            return tuple(rewrap(kv)(x) if not isinstance(kv, Term) else x for kv, x in zip(key, xs))
        return rewrap(key)(app("gkey0", [T, g], kt.sort))

    def entry(g):
        lst = Seq([Comp(app("gcnt", [T, g], "I"), lambda r: [Item(subval(ba.value, {k: app("gmem", [T, g, r], "I")}))])], "list")
        return [Item((keyval(g), lst))]

    return [Comp(G, entry)]


def _register_key_rule(T, i, c, k):
    fname = c.args[0]

    def f(args, T=T, c=c):
        t = None
        # c with k := gmem(T, g, r)
        if len(args) != len(c.args[1]):
            return None
        m = {}
        for p, a in zip(c.args[1], args):
            m = ir.match(p, a, {k}, m)
            if m is None:
                return None
        x = m.get(k)
        if x is not None and ir.is_app(x, "gmem") and x.args[1][0] is T:
            return app(f"gkey{i}", [T, x.args[1][1]], c.sort)
        return None

    ir.APP_RULES.setdefault(fname, []).append(f)

    if f"gkey{i}" not in _GKEY_DONE:
        _GKEY_DONE.add(f"gkey{i}")

        def g(args, i=i):
            T2, gi = args
            if ir.is_app(gi, "gid") and gi.args[1][0] is T2 and T2.id in GROUPS:
                n, kk, kt, comps = GROUPS[T2.id]
                return subst(comps[i], {kk: gi.args[1][1]})
            return None

        ir.APP_RULES.setdefault(f"gkey{i}", []).append(g)


_GKEY_DONE = set()
for _i in range(4):
    INVERSES[f"gkey{_i}"] = {1: lambda args, x, i=_i: app(f"gof{i}", [args[0], x], "I")}

    def _gof_rule(args, i=_i):
        T, x = args
        if ir.is_app(x, f"gkey{i}") and x.args[1][0] is T and T.id in GROUPS and len([c for c in GROUPS[T.id][3] if ir.occurs(GROUPS[T.id][1], c)]) == 1:
            return x.args[1][1]
        return None

    ir.APP_RULES.setdefault(f"gof{_i}", []).append(_gof_rule)

INVERSES["gmem"] = {
    1: lambda args, x: app("gid", [args[0], x], "I"),
    2: lambda args, x: app("grank", [args[0], x], "I"),
}


@ir.rule("gid")
def _r_gid(args):
    T, x = args
    if ir.is_app(x, "gmem") and x.args[1][0] is T:
        return x.args[1][1]


@ir.rule("grank")
def _r_grank(args):
    T, x = args
    if ir.is_app(x, "gmem") and x.args[1][0] is T:
        return x.args[1][2]


@ir.rule("gmem")
def _r_gmem(args):
    T, g, r = args
    if ir.is_app(g, "gid") and ir.is_app(r, "grank") and g.args[1][0] is T and r.args[1][0] is T and g.args[1][1] is r.args[1][1]:
        return g.args[1][1]


@axiom("gn")
def _ax_gn(args, t):
    (T,) = args
    n = GROUPS[T.id][0]
    return [le(ZERO, t), ir.implies(lt(ZERO, n), lt(ZERO, t)), le(t, ir.max_(n, ZERO))]


@axiom("gcnt")
def _ax_gcnt(args, t):
    return [le(ONE, t)]


from . import prove as _prove  # noqa: E402

_prove.NONNEG.add("gcnt")
_prove.NONNEG.add("gn")
_prove.NONNEG.add("setlen")


@axiom("gmem")
def _ax_gmem(args, t):
    T, g, r = args
    n = GROUPS[T.id][0]
    return [
        ir.implies(
            and_(le(ZERO, g), lt(g, app("gn", [T], "I")), le(ZERO, r), lt(r, app("gcnt", [T, g], "I"))),
            and_(le(ZERO, t), lt(t, n)),
        )
    ]


def _ax_gid(args, t):
    T, k = args
    n = GROUPS[T.id][0]
    g, r = app("gid", [T, k], "I"), app("grank", [T, k], "I")
    return [
        ir.implies(
            and_(le(ZERO, k), lt(k, n)),
            and_(le(ZERO, g), lt(g, app("gn", [T], "I")), le(ZERO, r), lt(r, app("gcnt", [T, g], "I"))),
        )
    ]


axiom("gid")(_ax_gid)
axiom("grank")(_ax_gid)


def _group_sum_hook(binders, factors):
    """sum over groups g and members r  =  sum over the grouped items k."""
    for g, ng in binders:
        if not ir.is_app(ng, "gn"):
            continue
        T = ng.args[1][0]
        for r, nr in binders:
            if ir.is_app(nr, "gcnt") and nr.args[1][0] is T and nr.args[1][1] is g:
                k = fresh("k")
                m = {g: app("gid", [T, k], "I"), r: app("grank", [T, k], "I")}
                nb = []
                for b, n in binders:
                    if b is g:
                        nb.append((k, GROUPS[T.id][0]))
                    elif b is not r:
                        nb.append((b, subst(n, m)))
                body = mul(*[ir.power(subst(a, m), e) for a, e in factors], ONE)
                return mk_sum(nb, body)
    return None


ir.SUM_HOOKS.append(_group_sum_hook)


# ------------------------------------------------------------------ subscripts


class At:
    def __init__(self, arr):
        self.arr = arr


class AtIdx:
    def __init__(self, arr, idx):
        self.arr, self.idx = arr, idx


def getitem(eng, o, i):
    if isinstance(o, Arr):
        return index_arr(eng, o, i)
    if isinstance(o, At):
        return AtIdx(o.arr, i)
    if isinstance(o, Abstract):
        return o.getitem(eng, i)
    if isinstance(o, SDict):
        if o.factory is not None:
            if o.factory is list:
                kt = key_term(i)
                if eng.frames or not is_const(kt) or True:
                    try:
                        found = [(c, v) for c, v in dict_find(eng, o, i)] if not any(isinstance(v, BucketApp) for _, v in flatten_entries(o.parts)) else None
                    except Unsupported:
                        found = None
                    if found is not None and not any(c is None for c, _ in found):
                        for c, v in found:
                            c = eng.ctx.simp(c)
                            if c is TRUE or eng.ctx.prove(c, 3):
                                return v()
                    return Bucket(o, i)
            raise Unsupported("defaultdict factory")
        if any(isinstance(p, Item) and isinstance(p.value, BucketInit) and key_term(p.value.key) is key_term(i) for p in o.parts):
            return Bucket(o, i)
        return dict_lookup(eng, o, i)
    if isinstance(o, (Seq, tuple)):
        if isinstance(i, slice):
            if is_concrete(i) and (isinstance(o, tuple) or o.is_concrete()):
                xs = seq_items(o)[to_native_slice(i)]
                return tuple(xs) if isinstance(o, tuple) or o.kind == "tuple" else Seq([Item(x) for x in xs], o.kind)
            return seq_slice(eng, o, i)
        if isinstance(o, tuple) or o.is_concrete():
            xs = seq_items(o)
            if is_concrete(i):
                j = to_native(i)
                if not isinstance(j, int) or not -len(xs) <= j < len(xs):
                    raise PyExc(IndexError)
                return xs[j]
            i = lift(i)
            eng.require(and_(le(ZERO, i), lt(i, const(len(xs)))), "index in range")
            r = xs[-1]
            for j in range(len(xs) - 2, -1, -1):
                r = merge(eng, eq(i, const(j)), xs[j], r)
            return r
        return seq_index(eng, o, i)
    if isinstance(o, Obj):
        m = eng.class_attr(o.cls, "__getitem__", None)
        if m is not None:
            return eng.call(m, [o, i], {})
    if isinstance(o, (onp.ndarray, jax.Array)) and not is_concrete(i):
        return index_arr(eng, to_arr(o), i)
    if isnum(o):
        return index_arr(eng, to_arr(o), i)
    if is_concrete(o) and is_concrete(i):
        i2 = to_native_slice(i) if isinstance(i, slice) else to_native(i)
        m = type(o).__dict__.get("__getitem__") if not isinstance(o, type) else None
        try:
            return o[i2]
        except (KeyError, IndexError, TypeError) as e:
            raise PyExc(type(e))
    raise Unsupported(f"subscript of {type(o).__name__}")


def to_native_slice(s):
    return slice(*[to_native(x) for x in (s.start, s.stop, s.step)])


def seq_index(eng, o: Seq, i):
    """Element i of a sequence of symbolic length."""
    if isinstance(i, int) and i < 0:
        # from the end: the last parts must be items
        j = len(o.parts) + i
        if all(isinstance(p, Item) for p in o.parts[j:]):
            return o.parts[j].value
        i = add(o.length(), const(i))
    i = lift(i)
    base = ZERO
    if o.parts and isinstance(o.parts[0], Prefix):
        lists = list_elements(o)
        if lists:
            eng.require(and_(le(ZERO, i), lt(i, lists[0].n)), "index in range")
            return lists[0].at(i)[0].value
    for p in o.parts:
        rest = eng.ctx.simp(sub(i, base))
        if isinstance(p, Item):
            if eng.ctx.quick(eq(rest, ZERO)):
                return p.value
            base = add(base, ONE)
            continue
        if isinstance(p, Prefix):
            raise Unsupported("read of a list while a loop fills it")
        n = parts_len([p])
        if len(o.parts) == 1 or eng.ctx.quick(and_(le(ZERO, rest), lt(rest, n))):
            if p.single():
                eng.require(and_(le(ZERO, rest), lt(rest, p.n)), "index in range")
                v = p.at(rest)[0].value
                if isinstance(v, Seq) and v.kind == "list" and len(o.parts) == 1:
                    v = Seq(list(v.parts), "list")
                    v.owner = (o, rest)
                return v
            # nested: locate
            dom = parts_dom([p])
            path = dom.locate(rest, eng.ctx)
            if path is None:
                raise Unsupported("index into a nested sequence")
            cur = [p]
            node = None
            path = path[1:] if isinstance(dom, NSeq) else path
            return _walk([p], path)
        base = add(base, n)
    raise Unsupported("index into a symbolic sequence")


def reverse_parts(parts):
    out = []
    for p in reversed(parts):
        if isinstance(p, Comp):
            p = Comp(p.n, lambda t, p=p: reverse_parts(p.at(sub(sub(p.n, ONE), t))), p.shares)
        elif not isinstance(p, Item):
            raise Unsupported("a list under construction")
        out.append(p)
    return out


def seq_slice(eng, o: Seq, i):
    if i.start is None and i.stop is None and i.step is not None and is_concrete(i.step) and to_native(i.step) == -1:
        return Seq(reverse_parts(o.parts), o.kind)
    if len(o.parts) != 1 or not isinstance(o.parts[0], Comp) or not o.parts[0].single():
        raise Unsupported("slice of a symbolic sequence")
    c = o.parts[0]
    step = 1 if i.step is None else pyint(lift(pynum(i.step)))
    if step != 1:
        raise Unsupported("slice of a symbolic sequence")

    def bound(x, default):
        if x is None:
            return default
        x = lift(pynum(x))
        if eng.ctx.quick(lt(x, ZERO)):
            x = add(c.n, x)
        if not eng.ctx.quick(and_(le(ZERO, x), le(x, c.n))):
            raise Unsupported("slice of a symbolic sequence")
        return x

    a, b = bound(i.start, ZERO), bound(i.stop, c.n)
    n = sub(b, a)
    if not eng.ctx.quick(le(ZERO, n)):
        n = ir.max_(n, ZERO)
    return Seq([Comp(n, lambda t: c.at(add(a, t)), c.shares)], o.kind)


def parts_dom(parts) -> Node:
    nodes = []
    for p in parts:
        if isinstance(p, Item):
            nodes.append(NLeaf(1))
        elif isinstance(p, Comp):
            nodes.append(NLeaf(p.n) if p.single() else NComp(p.n, lambda t, p=p: parts_dom(p.at(t))))
        else:
            raise Unsupported("a list under construction")
    return nodes[0] if len(nodes) == 1 else NSeq(nodes)


def _walk(parts, path):
    if len(parts) > 1:
        parts, path = [parts[path[0]]], path[1:]
    p = parts[0]
    if isinstance(p, Item):
        return p.value
    if p.single():
        return p.at(path[0])[0].value
    return _walk(p.at(path[0]), path[1:])


def setitem(eng, o, i, v):
    if isinstance(o, SDict):
        return dict_set(eng, o, i, v)
    if isinstance(o, Seq) and o.is_concrete() and is_concrete(i):
        eng.touch(o)
        j = to_native(i)
        parts = list(o.parts)
        parts[j] = Item(v)
        o.parts = parts
        return
    if isinstance(o, Abstract):
        return o.setitem(eng, i, v)
    if isinstance(o, dict) and is_concrete(i):
        raise Unsupported("mutation of a module-level dictionary")
    raise Unsupported(f"item assignment on {type(o).__name__}")


def _neg_index(i, size):
    if isinstance(i, NUM):
        i = int(i)
        return add(size, const(i)) if i < 0 else const(i)
    i = lift(i)
    if is_const(i) and cval(i) < 0:
        return add(size, i)
    return i


def is_int_index(i):
    return isinstance(i, (int, onp.integer)) and not isinstance(i, bool) or (isinstance(i, Term) and i.sort == "I")


def slice_bounds(eng, s: slice, size, what="slice"):
    if s.step is not None and not (is_concrete(s.step) and to_native(s.step) == 1):
        if is_concrete(s.step) and to_native(s.step) == -1 and s.start is None and s.stop is None:
            return "rev", None
        raise Unsupported("slice with a step")
    a = ZERO if s.start is None else _neg_index(s.start, size)
    b = size if s.stop is None else _neg_index(s.stop, size)
    if a is ZERO and b is size:
        return None
    eng.require(and_(le(ZERO, a), le(a, b), le(b, size)), f"{what} bounds are in range")
    return a, b


def index_arr(eng, arr: Arr, idx):
    if isinstance(arr, WriteArr):
        raise Unsupported("read of an array while a loop fills it")
    if not isinstance(idx, tuple):
        idx = (idx,)
    idx = list(idx)
    n_real = sum(1 for i in idx if i is not None and i is not Ellipsis)
    if Ellipsis in [i if not isinstance(i, (Arr, Term)) else 0 for i in idx]:
        p = next(j for j, i in enumerate(idx) if i is Ellipsis)
        idx[p : p + 1] = [slice(None)] * (arr.ndim - n_real)
    else:
        idx += [slice(None)] * (arr.ndim - n_real)
    if sum(1 for i in idx if i is not None) != arr.ndim:
        raise PyExc(IndexError)
    out_doms, plan = [], []
    adv = [(j, i) for j, i in enumerate(idx) if isinstance(i, (Arr, onp.ndarray, jax.Array, Seq, list))]
    adv_axes = None
    ax = 0
    for j, i in enumerate(idx):
        if i is None:
            out_doms.append(NLeaf(1))
            continue
        d = arr.doms[ax]
        if is_int_index(i):
            t = _neg_index(i, d.size())
            ok = and_(le(ZERO, t), lt(t, d.size()))
            eng.require(ok, "array index in range")
            if ok is FALSE:
                raise PyExc(IndexError)
            plan.append(("fix", t))
        elif isinstance(i, slice):
            ab = slice_bounds(eng, i, d.size())
            if ab is None:
                plan.append(("keep", len(out_doms)))
                out_doms.append(d)
            elif ab[0] == "rev":
                plan.append(("rev", len(out_doms), d.size()))
                out_doms.append(NLeaf(d.size()))
            else:
                plan.append(("slice", len(out_doms), ab[0]))
                out_doms.append(_slice_dom(d, ab, eng))
        elif any(j == q for q, _ in adv):
            ia = to_arr(i)
            if ia.kind == "b":
                raise Unsupported("boolean mask")
            for paths, facts in ia.generics():
                with eng.assuming(*facts):
                    t = ia.at_path(*paths)
                    eng.require(and_(le(ZERO, t), lt(t, d.size())), "gathered index in range")
            if adv_axes is None:
                arrs = [to_arr(x) for _, x in adv]
                nd = max(a.ndim for a in arrs)
                b = zipmap(lambda *ts: ts[0], *arrs)
                adv_axes = (len(out_doms), nd, b.doms)
                if adv[-1][0] - adv[0][0] != len(adv) - 1:
                    raise Unsupported("separated advanced indices")
                out_doms.extend(b.doms)
            plan.append(("adv", ia))
        elif isinstance(i, Term) and i.sort == "B" or isinstance(i, bool):
            raise Unsupported("boolean index")
        else:
            raise Unsupported(f"array index {type(i).__name__}")
        ax += 1

    def fn(*paths):
        src = []
        for p in plan:
            if p[0] == "fix":
                src.append(p[1])
            elif p[0] == "keep":
                src.append(Ix(out_doms[p[1]], paths[p[1]]))
            elif p[0] == "slice":
                src.append(add(p[2], out_doms[p[1]].offset(paths[p[1]])))
            elif p[0] == "rev":
                src.append(sub(sub(p[2], ONE), paths[p[1]][0]))
            else:
                s0, nd, bd = adv_axes
                ia = p[1]
                ii = []
                for q in range(ia.ndim):
                    axq = nd - ia.ndim + q
                    if is_one(ia.doms[q]) and not is_one(bd[axq]):
                        ii.append(ZERO)
                    else:
                        ii.append(Ix(bd[axq], paths[s0 + axq]))
                src.append(ia.get(*ii))
        return arr.get(*src)

    return norm(Arr(out_doms, fn, arr.kind))


def _slice_dom(d, ab, eng):
    return NLeaf(eng.ctx.simp(sub(ab[1], ab[0])))


def at_update(eng, at: AtIdx, how, v, **kw):
    for k, x in kw.items():
        if k not in ("indices_are_sorted", "unique_indices") or eng.truth(x) is not False:
            # promises to the compiler about the indices: must hold
            if k in ("indices_are_sorted", "unique_indices"):
                raise Unsupported(f"scatter with {k}")
            raise Unsupported(f"scatter option {k}")
    arr, idx = at.arr, at.idx
    if isinstance(idx, Seq):
        idx = tuple(seq_items(idx)) if idx.kind == "tuple" else idx
    if not isinstance(idx, tuple):
        idx = (idx,)
    val = to_arr(v)
    if arr.kind in INT_KINDS and val.kind == "f":
        # JAX converts the update to the operand's type
        val = val.map(lambda t: app("to_int", [t], "I"), "i")
    comb = {"set": lambda old, new: new, "add": lambda old, new: add(old, new), "multiply": lambda old, new: mul(old, new), "max": ir.max_, "min": ir.min_}[how]
    if len(idx) == 1 and isinstance(idx[0], slice) and (arr.ndim == 1 or isinstance(arr, WriteArr)):
        size = arr.doms[0].size()
        ab = slice_bounds(eng, idx[0], size, "slice written")
        a, b = (ZERO, size) if ab is None else ab
        ln = eng.ctx.simp(sub(b, a))
        if val.ndim == 0:
            t = val.at_path()
            val = Arr([NLeaf(ln)], lambda p: t, val.kind)
        if isinstance(arr, WriteArr):
            if how != "set":
                raise Unsupported("read of an array while a loop fills it")
            return WriteArr(arr, arr.gen, arr.writes + [(a, NLeaf(ln), val)])
        if val.ndim != 1:
            raise Unsupported("slice assignment of rank > 1")
        if not eng.ctx.quick(eq(val.doms[0].size(), ln)):
            eng.require(eq(val.doms[0].size(), ln), "value assigned to a slice has its length")
        if a is ZERO and b is size and how == "set":
            return Arr([NLeaf(size)], lambda p: val.get(p[0]), join_kind([arr.kind, val.kind]))

        def fn(p):
            i = p[0]
            old = arr.get(i)
            c = and_(le(a, i), lt(i, b))
            cs = eng.ctx.simp(c)
            if cs is FALSE or vals.ENG.ctx.quick(not_(c)):
                return old
            with vals.ENG.assuming(c):
                new = val.get(sub(i, a))
            return ite(c, comb(old, new), old)

        return Arr([NLeaf(size)], fn, arr.kind)
    if isinstance(arr, WriteArr) and not isinstance(arr, GenArr):
        raise Unsupported("scattered write inside a symbolic loop")
    # all axes indexed by arrays or integers
    if len(idx) == arr.ndim and all(is_int_index(i) for i in idx):
        ts = [_neg_index(i, d.size()) for i, d in zip(idx, arr.doms)]
        for t, d in zip(ts, arr.doms):
            eng.require(and_(le(ZERO, t), lt(t, d.size())), "index written is in range")
        new = val.at_path() if val.ndim == 0 else None
        if new is None:
            raise Unsupported("scatter value")

        def fn(*paths):
            ii = [d.offset(p) for d, p in zip(arr.doms, paths)]
            old = arr.at_path(*paths)
            return ite(and_(*[eq(i, t) for i, t in zip(ii, ts)]), comb(old, new), old)

        return Arr(arr.doms, fn, arr.kind)
    if len(idx) == arr.ndim and all(isinstance(i, (Arr, onp.ndarray, jax.Array)) or is_int_index(i) for i in idx) and how == "add":
        ias = [to_arr(i) for i in idx]
        bc = zipmap(lambda *ts: ts[0], *ias, val)
        for ia, d in zip(ias, arr.doms):
            for paths, facts in ia.generics():
                with eng.assuming(*facts):
                    t = ia.at_path(*paths)
                    eng.require(and_(le(ZERO, t), lt(t, d.size())), "scattered index in range")

        def fn(*paths):
            ii = [d.offset(p) for d, p in zip(arr.doms, paths)]

            def term(*src):
                ixs = [Ix(d, p) for d, p in zip(bc.doms, src)]
                v = _bget(val, bc, ixs)
                return mul(v, *[ir.ind(eq(_bget(ia, bc, ixs), i)) for ia, i in zip(ias, ii)])

            return add(arr.at_path(*paths), reduce_over(bc.doms, "sum", term))

        return Arr(arr.doms, fn, join_kind([arr.kind, val.kind]))
    raise Unsupported(f"at[...].{how} with these indices")


def _bget(a: Arr, bc: Arr, ixs):
    off = len(ixs) - a.ndim
    return a.get(*[ZERO if is_one(d) and not is_one(bc.doms[off + j]) else ixs[off + j] for j, d in enumerate(a.doms)])


def reduce_over(doms, kind, f):
    """Reduce f(*paths) over all domains."""
    def go(k, acc):
        if k == len(doms):
            return f(*acc)
        return doms[k].reduce(kind, lambda p: go(k + 1, acc + [p]))

    return go(0, [])


# ------------------------------------------------------------------ reductions, contractions


def axis_of(axis, n):
    """Position of an axis among n."""
    axis = pynum(norm(axis)) if not isinstance(axis, int) else axis
    if not isinstance(axis, int):
        raise Unsupported(f"axis {axis}")
    if not -n <= axis < n:
        raise PyExc(ValueError)
    return axis % n


def reduce_arr(eng, a, kind, axis=None, keepdims=False):
    if isinstance(a, (Seq, tuple, list)):
        a = to_arr(a)
    a = to_arr(a)
    if isinstance(a, WriteArr):
        raise Unsupported("read of an array while a loop fills it")
    if a.ndim == 0:
        if axis is not None:
            raise PyExc(ValueError)
        return a.at_path()
    if axis is None:
        axes = list(range(a.ndim))
    else:
        ax = axis if isinstance(axis, (tuple, list)) else (axis,)
        ax = seq_items(axis) if isinstance(axis, Seq) else ax
        axes = [axis_of(to_native(x), a.ndim) for x in ax]
    keep = [i for i in range(a.ndim) if i not in axes]
    conv = _num_bool if kind in ("sum", "prod", "max", "min") else (lambda t: t)

    def fn(*paths):
        if keepdims:
            paths = [p for i, p in enumerate(paths) if i not in axes]

        def term(*red):
            full = [None] * a.ndim
            for i, p in zip(keep, paths):
                full[i] = p
            for i, p in zip(axes, red):
                full[i] = p
            return conv(a.at_path(*full))

        return reduce_over([a.doms[i] for i in axes], kind, term)

    doms = [a.doms[i] if i in keep else NLeaf(1) for i in range(a.ndim)] if keepdims else [a.doms[i] for i in keep]
    k = a.kind
    if kind in ("any", "all"):
        k = "b"
    elif k == "b":
        k = "i"
    return norm(Arr(doms, fn, k))


def einsum(eng, spec, *ops):
    spec = spec.replace(" ", "")
    arrs = [to_arr(o) for o in ops]
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = "".join(sorted(set(c for c in ins if c.isalpha() and ins.count(c) == 1)))
        out = letters
    ins = ins.split(",")
    if len(ins) != len(arrs):
        raise PyExc(ValueError)
    if "..." in spec:
        extra = [a.ndim - len(i.replace("...", "")) if "..." in i else 0 for i, a in zip(ins, arrs)]
        if "->" not in spec or min(extra) < 0 or max(extra) > 4:
            raise Unsupported("einsum with ellipsis")
        letters = "".join(c for c in "ABCDEFGHIJ" if c not in spec)[: max(extra)]
        ins = [i.replace("...", letters[len(letters) - e :]) for i, e in zip(ins, extra)]
        out = out.replace("...", letters)
    dom = {}
    for s, a in zip(ins, arrs):
        if len(s) != a.ndim:
            raise PyExc(ValueError)
        for c, d in zip(s, a.doms):
            if c in dom:
                eng.require(eq(dom[c].size(), d.size()), "einsum dimensions match")
                if isinstance(dom[c], NLeaf) and not isinstance(d, NLeaf):
                    dom[c] = d
            else:
                dom[c] = d
    summed = [c for c in dom if c not in out]

    def fn(*paths):
        env = {c: p for c, p in zip(out, paths)}

        def term(*red):
            e = dict(env)
            e.update(zip(summed, red))
            return mul(*[a.get(*[Ix(dom[c], e[c]) for c in s]) for s, a in zip(ins, arrs)], ONE)

        return reduce_over([dom[c] for c in summed], "sum", term)

    return norm(Arr([dom[c] for c in out], fn, join_kind([a.kind for a in arrs])))


def matmul(eng, a, b):
    a, b = to_arr(a), to_arr(b)
    sa = {1: "k", 2: "ik", 3: "bik"}.get(a.ndim)
    sb = {1: "k", 2: "kj", 3: "bkj"}.get(b.ndim)
    if sa is None or sb is None:
        raise PyExc(ValueError) if 0 in (a.ndim, b.ndim) else Unsupported("matmul rank")
    out = ("b" if 3 in (a.ndim, b.ndim) else "") + ("i" if a.ndim >= 2 else "") + ("j" if b.ndim >= 2 else "")
    return einsum(eng, f"{sa},{sb}->{out}", a, b)


def dot(eng, a, b):
    a, b = to_arr(a), to_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise(mul, norm(a), norm(b))
    if a.ndim <= 2 and b.ndim <= 2:
        return matmul(eng, a, b)
    raise Unsupported("dot rank")


# ------------------------------------------------------------------ shape manipulation


def shape_tuple(eng, s):
    if isinstance(s, Seq):
        return tuple(seq_items(s))
    if isinstance(s, (tuple, list)):
        return tuple(s)
    if isinstance(s, onp.ndarray):
        return tuple(int(x) for x in s)
    return (s,)


def compose_dom(outer: Node, inner: Node) -> Node:
    """Domain of the row-major flattening of (outer, inner)."""
    if isinstance(outer, NLeaf):
        if isinstance(inner, NLeaf) and is_const(inner.n) and cval(inner.n) == 1:
            return outer
        return NComp(outer.n, lambda k: inner)
    if isinstance(outer, NComp):
        return NComp(outer.n, lambda k: compose_dom(outer.at(k), inner))
    return NSeq([compose_dom(n, inner) for n in outer.nodes])


def split_path(outer: Node, inner: Node, path):
    if isinstance(outer, NLeaf):
        if isinstance(inner, NLeaf) and is_const(inner.n) and cval(inner.n) == 1:
            return (path[0],), (ZERO,)
        return (path[0],), tuple(path[1:])
    if isinstance(outer, NComp):
        a, b = split_path(outer.at(path[0]), inner, path[1:])
        return (path[0],) + a, b
    a, b = split_path(outer.nodes[path[0]], inner, path[1:])
    return (path[0],) + a, b


def merge_axes(a: Arr, i: int) -> Arr:
    """Flatten axes i and i+1."""
    if isinstance(a.doms[i], NLeaf) and is_const(a.doms[i].n) and cval(a.doms[i].n) == 1:
        doms = a.doms[:i] + a.doms[i + 1 :]
        return Arr(doms, lambda *p: a.at_path(*p[:i], (ZERO,), *p[i:]), a.kind)
    dom = compose_dom(a.doms[i], a.doms[i + 1])

    def fn(*paths):
        x, y = split_path(a.doms[i], a.doms[i + 1], paths[i])
        return a.at_path(*paths[:i], x, y, *paths[i + 1 :])

    return Arr(a.doms[:i] + [dom] + a.doms[i + 2 :], fn, a.kind)


def split_axis(a: Arr, i: int, sizes) -> Arr:
    """Replace axis i by axes of the given sizes."""

    def fn(*paths):
        t = ZERO
        for s, p in zip(sizes, paths[i : i + len(sizes)]):
            t = add(mul(t, s), p[0])
        args = [Ix(d, p) for d, p in zip(a.doms[:i], paths[:i])] + [t]
        args += [Ix(d, p) for d, p in zip(a.doms[i + 1 :], paths[i + len(sizes) :])]
        return a.get(*args)

    return Arr(a.doms[:i] + [NLeaf(s) for s in sizes] + a.doms[i + 1 :], fn, a.kind)


def reshape(eng, a, shape):
    a = to_arr(a)
    shape = [lift(pynum(s)) for s in shape]
    neg = [i for i, s in enumerate(shape) if is_const(s) and cval(s) == -1]
    src = [d.size() for d in a.doms]

    def equal(x, y):
        return x is y or eng.ctx.quick(eq(x, y)) or bool(eng.ctx.prove(eq(x, y), 3))

    if len(neg) > 1:
        raise PyExc(ValueError)
    if neg:
        # cancel equal sizes; the rest of the source goes to the unknown axis
        rest = list(src)
        for i, s in enumerate(shape):
            if i in neg:
                continue
            for r in rest:
                if equal(r, s):
                    rest.remove(r)
                    break
            else:
                tot = mul(*rest, ONE)
                q = vals._quotient(tot, s)
                if q is None or not equal(mul(q, s), tot):
                    raise Unsupported("reshape with -1")
                rest = [q]
        shape[neg[0]] = eng.ctx.simp(mul(*rest, ONE))
    total_s, total_t = mul(*src, ONE), mul(*shape, ONE)
    # align greedily
    cur = a
    i = 0  # position in cur.doms
    t = 0
    while t < len(shape):
        if i < cur.ndim and equal(cur.doms[i].size(), shape[t]):
            i += 1
            t += 1
            continue
        if is_const(shape[t]) and cval(shape[t]) == 1:
            cur = _insert_axis(cur, i)
            i += 1
            t += 1
            continue
        done = False
        # merge several source axes into shape[t]
        prod = ONE
        for j in range(i, cur.ndim):
            prod = mul(prod, cur.doms[j].size())
            if j > i and equal(prod, shape[t]):
                for _ in range(j - i):
                    cur = merge_axes(cur, i)
                i += 1
                t += 1
                done = True
                break
        if done:
            continue
        # split one source axis into several target axes
        if i < cur.ndim:
            prod = ONE
            for j in range(t, len(shape)):
                prod = mul(prod, shape[j])
                if j > t and equal(prod, cur.doms[i].size()):
                    cur = split_axis(cur, i, shape[t : j + 1])
                    i += j + 1 - t
                    t = j + 1
                    done = True
                    break
        if done:
            continue
        eng.require(eq(total_s, total_t), "reshape keeps the number of elements")
        raise Unsupported("reshape")
    while i < cur.ndim:
        if is_one(cur.doms[i]):
            cur = _drop_axis(cur, i)
        else:
            eng.require(eq(total_s, total_t), "reshape keeps the number of elements")
            raise Unsupported("reshape")
    return cur


def _insert_axis(a, i):
    return Arr(a.doms[:i] + [NLeaf(1)] + a.doms[i:], lambda *p: a.at_path(*p[:i], *p[i + 1 :]), a.kind)


def _drop_axis(a, i):
    return Arr(a.doms[:i] + a.doms[i + 1 :], lambda *p: a.at_path(*p[:i], (ZERO,), *p[i:]), a.kind)


def flatten(eng, a):
    a = to_arr(a)
    if a.ndim == 0:
        return _insert_axis(a, 0)
    while a.ndim > 1:
        a = merge_axes(a, 0)
    return a


def transpose(eng, a, axes=None):
    a = to_arr(a)
    axes = list(reversed(range(a.ndim))) if axes is None else [axis_of(to_native(x), a.ndim) for x in axes]
    if sorted(axes) != list(range(a.ndim)):
        raise PyExc(ValueError)

    def fn(*paths):
        src = [None] * a.ndim
        for p, ax in zip(paths, axes):
            src[ax] = p
        return a.at_path(*src)

    return Arr([a.doms[ax] for ax in axes], fn, a.kind)


def concat_parts(eng, parts, axis=0):
    """Concatenation of a (possibly symbolic) sequence of arrays."""

    def other_axes(a, b):
        if a.ndim != b.ndim:
            raise PyExc(ValueError)
        for i in range(a.ndim):
            if i != axis_of(axis, a.ndim) and a is not b:
                eng.require(eq(a.doms[i].size(), b.doms[i].size()), "concatenate: the other axes agree")

    def tree(parts):
        """-> (Node, ndim info, getter(path, rest paths))"""
        nodes, getters = [], []
        first = None
        kinds = []
        for p in parts:
            if isinstance(p, Item):
                a = to_arr(p.value)
                if isinstance(a, WriteArr):
                    raise Unsupported("read of an array while a loop fills it")
                if a.ndim == 0:
                    raise PyExc(ValueError)
                nodes.append(a.doms[axis_of(axis, a.ndim)])
                getters.append(lambda path, rest, a=a: a.get(*(list(rest[:axis]) + [Ix(a.doms[axis], path)] + list(rest[axis:]))))
                if first is not None:
                    other_axes(a, first)
                first = first or a
                kinds.append(a.kind)
            elif isinstance(p, Comp):
                s = fresh("k")
                eng.generic[s] = [le(ZERO, s), lt(s, p.n)]
                with eng.assuming(le(ZERO, s), lt(s, p.n)):
                    n0, g0, f0, k0 = tree(p.at(s))
                f1 = f0.sub({s: ZERO}) if f0.ndim > 1 else f0
                first = first or f1
                with eng.assuming(le(ZERO, s), lt(s, p.n)):
                    other_axes(f0, first)
                kinds.extend(k0)
                nodes.append(NComp(p.n, lambda t, n0=n0, s=s: n0.sub({s: t})))

                def g(path, rest, g0=g0, s=s):
                    with eng_now().under({s: path[0]}):
                        v = g0(path[1:], rest)
                    return subst(v, {s: path[0]})

                getters.append(g)
            else:
                raise Unsupported("a list under construction")
        if len(nodes) == 1:
            return nodes[0], getters[0], first, kinds
        return NSeq(nodes), lambda path, rest: getters[path[0]](path[1:], rest), first, kinds

    if not parts:
        raise PyExc(ValueError)
    if not any(isinstance(p, Item) for p in parts):
        eng.require(lt(ZERO, parts_len(parts)), "concatenate: at least one array")
    node, get, first, kinds = tree(parts)
    if first.ndim == 0:
        raise PyExc(ValueError)
    axis = axis_of(axis, first.ndim)
    others = [d for i, d in enumerate(first.doms) if i != axis]
    doms = others[:axis] + [node] + others[axis:]

    def fn(*paths):
        rest = [Ix(d, p) for i, (d, p) in enumerate(zip(doms, paths)) if i != axis]
        return get(paths[axis], rest)

    return Arr(doms, fn, join_kind(kinds))


def eng_now():
    return vals.ENG


def stack_arrays(eng, xs, axis=0):
    arrs = [to_arr(x) for x in xs]
    if not arrs:
        return Arr([NLeaf(0)], lambda p: ZERO)
    nd = arrs[0].ndim
    for a in arrs[1:]:
        if a.ndim != nd:
            raise Unsupported("stack of arrays of different rank")
        for d1, d2 in zip(a.doms, arrs[0].doms):
            if d1.size() is not d2.size():
                eng.require(eq(d1.size(), d2.size()), "stacked arrays have equal shapes")
    axis = axis_of(axis, nd + 1)
    d0 = arrs[0].doms
    doms = d0[:axis] + [NLeaf(len(arrs))] + d0[axis:]

    def fn(*paths):
        i = paths[axis][0]
        rest = [Ix(d, p) for j, (d, p) in enumerate(zip(doms, paths)) if j != axis]
        if is_const(i):
            return arrs[int(cval(i))].get(*rest)
        r = arrs[-1].get(*rest)
        for q in range(len(arrs) - 2, -1, -1):
            r = ite(eq(i, const(q)), arrs[q].get(*rest), r)
        return r

    return Arr(doms, fn, join_kind([a.kind for a in arrs]))


def stack_seq(eng, seq, axis=0):
    if isinstance(seq, (tuple, list)) or isinstance(seq, Seq) and seq.is_concrete():
        return stack_arrays(eng, seq_items(seq), axis)
    if isinstance(seq, Seq) and len(seq.parts) == 1 and isinstance(seq.parts[0], Comp) and seq.parts[0].single():
        c = seq.parts[0]
        k = fresh("k")
        eng.generic[k] = [le(ZERO, k), lt(k, c.n)]
        with eng.assuming(le(ZERO, k), lt(k, c.n)):
            v = c.at(k)[0].value
            if isinstance(v, Seq):
                v = stack_seq(eng, v)
        a = batch_value(eng, c.n, k, to_arr(v) if is_arrayish(v) else v)
        if axis_of(axis, a.ndim) != 0:
            return move_axis(a, 0, axis_of(axis, a.ndim))
        return a
    if isinstance(seq, Seq) and axis == 0:
        return concat_parts(eng, _flat_numbers(eng, seq.parts))
    raise Unsupported("stack of a symbolic sequence")


def _flat_numbers(eng, parts):
    """A list of numbers, as arrays to concatenate."""
    out = []
    for p in parts:
        if isinstance(p, Item):
            if not isnum(p.value):
                raise Unsupported("stack of a symbolic sequence")
            out.append(Item(stack_arrays(eng, [p.value])))
        elif isinstance(p, Comp) and p.single():
            k = fresh("k")
            eng.generic[k] = [le(ZERO, k), lt(k, p.n)]
            with eng.assuming(le(ZERO, k), lt(k, p.n)):
                v = p.at(k)[0].value
            if not isnum(v):
                raise Unsupported("stack of a symbolic sequence")
            out.append(Item(batch_value(eng, p.n, k, v)))
        elif isinstance(p, Comp):
            out.append(Comp(p.n, lambda t, p=p: _flat_numbers(eng, p.at(t))))
        else:
            raise Unsupported("a list under construction")
    return out


def move_axis(a: Arr, src, dst):
    order = [i for i in range(a.ndim) if i != src]
    order.insert(dst, src)
    return transpose(None, a, order)


def batch_value(eng, n, k, v):
    """Stack v(k) for k < n along a new leading axis."""
    if isnum(v):
        t = lift(pynum(v))
        return Arr([NLeaf(n)], lambda p: subst(t, {k: p[0]}), kind_of(v))
    if isinstance(v, Arr):
        for d in v.doms:
            s = d.size()
            if ir.occurs(k, s):
                raise Unsupported("vmap result of varying shape")

        def fn(p, *rest):
            with eng_now().under({k: p[0]}):
                t = v.at_path(*rest)
            return subst(t, {k: p[0]})

        return Arr([NLeaf(n)] + v.doms, fn, v.kind)
    if isinstance(v, tuple):
        xs = [batch_value(eng, n, k, x) for x in v]
        return type(v)(*xs) if hasattr(v, "_fields") else tuple(xs)
    if isinstance(v, Seq):
        return Seq(_batch_parts(eng, n, k, v.parts), v.kind)
    if isinstance(v, Obj):
        return Obj(v.cls, {f: batch_value(eng, n, k, x) for f, x in v.fields.items()})
    if isinstance(v, Abstract) and hasattr(v, "batch"):
        return v.batch(eng, n, k)
    if v is None:
        return None
    return Batched(n, lambda r: subval(v, {k: r}))


def _batch_parts(eng, n, k, parts):
    out = []
    for p in parts:
        if isinstance(p, Item):
            out.append(Item(batch_value(eng, n, k, p.value)))
        elif isinstance(p, Comp):
            if ir.occurs(k, p.n):
                raise Unsupported("vmap result of varying length")
            out.append(Comp(p.n, lambda t, p=p: _batch_parts(eng, n, k, p.at(t))))
        else:
            raise Unsupported("vmap result")
    return out


def row(eng, v, r):
    """Slice r of a batched value along the leading axis."""
    if isinstance(v, Arr):
        if v.ndim == 0:
            raise PyExc(ValueError)
        d0 = v.doms[0]
        path = coerce(d0, r)
        return norm(Arr(v.doms[1:], lambda *p: v.at_path(path, *p), v.kind))
    if isinstance(v, (onp.ndarray, jax.Array)):
        return row(eng, to_arr(v), r)
    if isinstance(v, Batched):
        return v.at(r)
    if isinstance(v, tuple):
        xs = [row(eng, x, r) for x in v]
        return type(v)(*xs) if hasattr(v, "_fields") else tuple(xs)
    if isinstance(v, Seq):
        return Seq(parts_map(v.parts, lambda x: row(eng, x, r)), v.kind)
    if isinstance(v, Obj):
        st = static_fields(v.cls)
        return Obj(v.cls, {f: (x if f in st else row(eng, x, r)) for f, x in v.fields.items()})
    if isinstance(v, Abstract) and hasattr(v, "row"):
        return v.row(eng, r)
    if v is None:
        return None
    raise Unsupported(f"vmap over {type(v).__name__}")


def leading(eng, v):
    if isinstance(v, Arr):
        if v.ndim == 0:
            raise PyExc(ValueError)
        return [v.doms[0].size()]
    if isinstance(v, (onp.ndarray, jax.Array)):
        return [const(v.shape[0])]
    if isinstance(v, Batched):
        return [v.n]
    if isinstance(v, tuple):
        return [s for x in v for s in leading(eng, x)]
    if isinstance(v, Seq):
        if v.is_concrete():
            return [s for x in v.items() for s in leading(eng, x)]
        out = []
        for idx, x in flatten_entries(v.parts):
            for s in leading(eng, x):
                if not any(ir.occurs(i, s) for i, _ in idx):
                    out.append(s)
        return out
    if isinstance(v, Obj):
        st = static_fields(v.cls)
        return [s for f, x in v.fields.items() if f not in st for s in leading(eng, x)]
    if isinstance(v, Abstract) and hasattr(v, "leading"):
        return v.leading(eng)
    if v is None:
        return []
    raise Unsupported(f"vmap over {type(v).__name__}")


_static_cache = {}


def static_fields(cls):
    """Fields of a jax_dataclasses pytree that are static metadata."""
    if cls not in _static_cache:
        try:
            hints = typing.get_type_hints(cls, include_extras=True)
        except Exception:
            hints = {}
        names = {f.name for f in dataclasses.fields(cls)}
        out = set()
        for n, h in hints.items():
            if n in names and typing.get_origin(h) is typing.Annotated:
                out.add(n)
        for f in dataclasses.fields(cls):
            if f.metadata.get("__jax_dataclasses_static_field__") or f.metadata.get("static"):
                out.add(f.name)
        _static_cache[cls] = out
    return _static_cache[cls]


def do_vmap(eng, f, in_axes, out_axes, args, kw):
    axes = in_axes
    if axes == 0:
        axes = (0,) * len(args)
    axes = tuple(seq_items(axes)) if isinstance(axes, Seq) else axes
    if not isinstance(axes, tuple):
        raise Unsupported("vmap axes")
    if len(axes) != len(args) or any(a not in (0, None) for a in axes) or (out_axes != 0):
        raise Unsupported("vmap axes")
    sizes = []
    for a, ax in zip(args, axes):
        if ax == 0:
            sizes.extend(leading(eng, a))
    for a in kw.values():
        sizes.extend(leading(eng, a))
    if not sizes:
        raise PyExc(ValueError)
    n = sizes[0]
    for s in sizes[1:]:
        if s is not n:
            eng.require(eq(s, n), "vmap: leading axes agree")
    r = fresh("r")
    rng = [le(ZERO, r), lt(r, n)]
    eng.generic[r] = rng
    fr = Frame(r, n, len(eng.frames) + 1)
    eng.frames.append(fr)
    old = eng.ctx
    eng.ctx = old.extend(*rng)
    try:
        v = eng.call(f, [row(eng, a, r) if ax == 0 else a for a, ax in zip(args, axes)], {k: row(eng, a, r) for k, a in kw.items()})
        out = batch_value(eng, n, r, v)
    finally:
        eng.ctx = old
        eng.frames.pop()
    if fr.touched:
        raise Unsupported("mutation inside vmap")
    return out


# ------------------------------------------------------------------ attributes of values


def getattr_value(eng, o, name):
    if isinstance(o, Arr) or isinstance(o, Term) and o.sort in ("I", "R", "B"):
        return arr_attr(eng, o, name)
    if isinstance(o, At):
        raise Unsupported("at")
    if isinstance(o, AtIdx):
        if name in ("set", "add", "multiply", "mul", "min", "max"):
            how = {"mul": "multiply"}.get(name, name)
            return Fn(lambda v, **kw: at_update(eng, o, how, v, **kw), "at." + name)
        if name == "get":
            return Fn(lambda: index_arr(eng, o.arr, o.idx))
        raise Unsupported("at[]." + name)
    if isinstance(o, Seq):
        return seq_attr(eng, o, name)
    if isinstance(o, SDict):
        return dict_attr(eng, o, name)
    if isinstance(o, SSet):
        raise Unsupported("set." + name)
    if isinstance(o, Bucket):
        if name in ("append", "extend"):
            def append(x):
                eng.touch(o.d)
                o.d.parts = o.d.parts + [Item(BucketApp(o.key, x))]
                if not eng.frames:
                    normalise_dict(eng, o.d)

            def extend(xs):
                for p in iter_parts(eng, xs):
                    if not isinstance(p, Item):
                        raise Unsupported("bucket.extend")
                    append(p.value)

            return Fn(append if name == "append" else extend, name)
        raise Unsupported("bucket." + name)
    if isinstance(o, tuple) and not is_concrete(o):
        if hasattr(o, "_fields") and (name in o._fields):
            return getattr(o, name)
        if name == "_replace":
            return Fn(lambda **kw: o._replace(**kw))
        if name == "index":
            raise Unsupported("tuple.index")
    if isinstance(o, (Closure, Bound, Partial, Fn)):
        if name in ("__name__", "__qualname__"):
            return getattr(o, "name", "fn")
        raise Unsupported(f"function attribute {name}")
    return NotImplemented


def unsupported(text):
    raise Unsupported(text)


def arr_attr(eng, o, name):
    if isinstance(o, Term):
        if name == "shape":
            return ()
        if name == "ndim":
            return 0
        if name == "size":
            return 1
        if name == "dtype":
            return DType(kind_of(o))
        if name in ("item", "copy", "block_until_ready"):
            return Fn(lambda *a: o)
        if name == "astype":
            def scalar_astype(dt):
                k = dtype_kind(dt)
                if k == kind_of(o) or k == "f":
                    return _num_bool(o)
                raise Unsupported("astype")

            return Fn(scalar_astype)
        if name in ("sum", "max", "min", "prod", "squeeze", "mean", "any", "all") and (name not in ("any", "all") or kind_of(o) == "b"):
            return Fn(lambda: o)
        if name in ("T", "real"):
            return o
        if name == "flatten" or name == "ravel":
            return Fn(lambda: flatten(eng, o))
        if name == "reshape":
            return Fn(lambda *s: norm(reshape(eng, o, shape_tuple(eng, s[0] if len(s) == 1 else s))))
        raise Unsupported(f"scalar attribute {name}")
    if name == "shape":
        return o.shape
    if name == "ndim":
        return o.ndim
    if name == "size":
        return pyint(mul(*[d.size() for d in o.doms], ONE))
    if name == "dtype":
        return DType(o.kind)
    if name == "T":
        return transpose(eng, o)
    if name == "at":
        return At(o)
    if name in ("flatten", "ravel"):
        return Fn(lambda order="C": flatten(eng, o) if order == "C" else unsupported("order of elements"))
    if name == "reshape":
        return Fn(lambda *s: norm(reshape(eng, o, shape_tuple(eng, s[0] if len(s) == 1 else s))))
    if name == "transpose":
        return Fn(lambda *s: transpose(eng, o, None if not s else shape_tuple(eng, s[0] if len(s) == 1 else s)))
    if name in ("sum", "max", "min", "prod", "any", "all"):
        return Fn(lambda axis=None, keepdims=False: reduce_arr(eng, o, name, axis, keepdims))
    if name == "dot":
        return Fn(lambda b: dot(eng, o, b))
    if name in ("copy", "block_until_ready"):
        return Fn(lambda *a, **kw: o)
    if name == "mean":
        return Fn(lambda *a, **kw: MODELS[id(jnp.mean)](eng, o, *a, **kw))
    if name == "astype":
        def astype(dt, **kw):
            k = dtype_kind(dt)
            if k == o.kind or o.kind in ("i", "b") and k == "f" or o.kind == "b" and k == "i":
                return Arr(o.doms, o.at_path, k) if o.kind != "b" or k == "b" else o.map(_num_bool, k)
            raise Unsupported("astype")

        return Fn(astype)
    if name == "squeeze":
        def squeeze(axis=None):
            a = o
            axes = range(a.ndim) if axis is None else [axis_of(axis, a.ndim)]
            for ax in sorted(axes, reverse=True):
                if is_one(a.doms[ax]):
                    a = _drop_axis(a, ax)
                elif not eng.ctx.quick(lt(ONE, a.doms[ax].size())):
                    raise Unsupported("squeeze of an axis of unknown length")
                elif axis is not None:
                    raise PyExc(ValueError)
            return norm(a)

        return Fn(squeeze)
    if name == "__len__":
        return Fn(lambda: o.shape[0])
    if name == "clip":
        return Fn(lambda *a, **kw: MODELS[id(jnp.clip)](eng, o, *a, **kw))
    raise Unsupported(f"array attribute {name}")


def dtype_kind(dt):
    if isinstance(dt, DType):
        return dt.k
    if dt is None:
        return "f"
    if dt in (int,):
        return "i"
    if dt is bool:
        return "b"
    if dt is float:
        return "f"
    try:
        d = onp.dtype(dt)
    except TypeError:
        raise Unsupported("dtype")
    if d.kind == "b":
        return "b"
    # 32 and 64 bits count as unlimited
    if d.itemsize < 4:
        vals.engine().fail("numbers keep their range and precision", f"dtype {d}")
    if d.kind == "i":
        return "i"
    if d.kind == "u":
        if d.itemsize < 4:
            return "i"
        raise Unsupported("unsigned integers")
    if d.kind == "f" or d.itemsize < 4:
        return "f"
    raise Unsupported(f"dtype {d}")


def seq_attr(eng, o: Seq, name):
    if name == "append" and o.kind == "list":
        def append(x):
            if getattr(o, "owner", None) is not None:
                whole, i = o.owner
                if not eng.frames:
                    raise Unsupported("append to one of a symbolic number of lists")
                if any(h is not whole for p in original_parts(whole) for c in getattr(p, "shares", ()) for h in vals.HOLDERS.get(c, ())):
                    raise Unsupported("append to a list that is in several collections")
                eng.touch(whole)
                whole.parts = whole.parts + [Item(BucketApp(i, x))]
                return
            eng.touch(o)
            o.parts = o.parts + [Item(x)]

        return Fn(append, "append")
    if name == "extend" and o.kind == "list":
        return Fn(lambda xs: eng.seq_extend(o, xs), "extend")
    if name == "copy":
        return Fn(lambda: Seq(o.parts, o.kind))
    if name == "index" and o.is_concrete():
        def index(x):
            for i, y in enumerate(o.items()):
                t = eng.truth(value_eq(eng, y, x))
                if t is True:
                    return i
                if isinstance(t, Term):
                    raise Unsupported("list.index")
            raise PyExc(ValueError)

        return Fn(index)
    if name == "insert" and o.is_concrete():
        def insert(i, x):
            eng.touch(o)
            parts = list(o.parts)
            parts.insert(to_native(i), Item(x))
            o.parts = parts

        return Fn(insert)
    if name == "pop" and o.is_concrete() and not eng.frames:
        def pop(i=-1):
            parts = list(o.parts)
            v = parts.pop(to_native(i)).value
            o.parts = parts
            return v

        return Fn(pop)
    raise Unsupported(f"{o.kind}.{name}")


def dict_attr(eng, o: SDict, name):
    if name == "keys":
        def keys():
            s = o.keys()
            s.src = o
            return s

        return Fn(keys, "keys")
    if name == "values":
        return Fn(o.values, "values")
    if name == "items":
        return Fn(o.items_, "items")
    if name == "get":
        return Fn(lambda k, d=None: dict_lookup(eng, o, k, d, True), "get")
    if name == "copy":
        return Fn(lambda: SDict(o.parts, o.kind))
    if name == "setdefault":
        def setdefault(k, dflt=None):
            if isinstance(dflt, Seq) and dflt.is_concrete() and not dflt.parts:
                if o.factory is None:
                    eng.touch(o)
                    o.parts = o.parts + [Item(BucketInit(k))]
                return Bucket(o, k)
            if dflt is None and eng.frames and o.depth < eng.depth:
                eng.touch(o)
                o.parts = o.parts + [Item((k, None))]
                return None
            found = contains(eng, o, k)
            if found is True:
                return dict_lookup(eng, o, k)
            if found is False:
                dict_set(eng, o, k, dflt)
                return dflt
            raise Unsupported("setdefault")

        return Fn(setdefault, "setdefault")
    if name == "update":
        def update(other=None, **kw):
            if other is not None and getattr(other, "inserted", None) is not None and eng.frames and o.depth < eng.depth:
                eng.touch(o)
                o.parts = o.parts + other.inserted
            elif isinstance(other, Seq) and eng.frames and o.depth < eng.depth:
                eng.touch(o)
                o.parts = o.parts + other.parts
            elif other is not None:
                if isinstance(other, Seq) and not other.is_concrete():
                    raise Unsupported("dict.update")
                for p in (other.parts if isinstance(other, SDict) else SDict([Item(x) for x in other.items()]).parts):
                    if not isinstance(p, Item):
                        raise Unsupported("dict.update")
                    dict_set(eng, o, *p.value)
            for k, v in kw.items():
                dict_set(eng, o, k, v)

        return Fn(update, "update")
    raise Unsupported(f"dict.{name}")


from . import library, linalg  # noqa: E402,F401
