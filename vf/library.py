"""Contracts of the library functions the repository calls (Python builtins, NumPy, JAX).

These are assumed, not verified; conformance of the executable ones is tested by vf/conformance.py.
"""
from __future__ import annotations

import builtins
import collections
import dataclasses
import functools
import inspect
import math
import operator
import typing

import frozendict as _fd
import jax
import jax_dataclasses as jdc
import numpy as onp
from jax import flatten_util
from jax import numpy as jnp

from . import ir, vals
from .interp import LAZY, MODELS, Bound, Closure, CtxManager, Partial, PyExc, StarSeq, is_concrete, model, star, to_native
from .ir import ONE, ZERO, Term, add, and_, app, const, cval, eq, fresh, is_const, ite, le, lift, lt, mk_sum, mul, not_, or_, sub, sym
from .models import (
    DType, batch_value, binop, concat_parts, const_array, contains, do_vmap, dot, dtype_kind, einsum, elementwise,
    flatten, is_arrayish, isnum, iter_parts, kind_of, matmul, merge, norm, pynum, reduce_arr, reshape, row,
    seq_items, seq_slice, shape_tuple, stack_arrays, stack_seq, static_fields, to_arr, transpose, value_eq, _num_bool,
    _insert_axis, _drop_axis, axis_of, index_arr, move_axis, at_update, AtIdx,
)
from .prove import axiom
from .vals import Abstract, Arr, Batched, Comp, Fn, Item, Ix, NComp, NLeaf, Obj, SDict, SSet, Seq, Unsupported, is_one, parts_map, pyint, subval, zipmap


def both(*names, np=True):
    out, in_jax = [], []
    for n in names:
        for m in (jnp, onp):
            o = m
            try:
                for part in n.split("."):
                    o = getattr(o, part)
            except AttributeError:
                continue
            if m is onp and not np:
                continue
            out.append(o)
            if m is jnp:
                in_jax.append(o)
    register = model(*out)

    def deco(f):
        params = inspect.signature(f).parameters
        known = set(params) | {"precision", "copy"} | ({"dtype"} if set(names) & TYPED else set())

        @functools.wraps(f)
        def checked(eng, *a, **kw):
            if any(k not in known for k in kw):
                raise Unsupported(f"option {sorted(set(kw) - known)} of {names[0]}")
            if any(isinstance(x, Seq) and x.kind == "generator" for x in a):
                raise PyExc(TypeError)
            return f(eng, *a, **kw)

        register(checked)
        if not set(names) & SEQUENCES:

            def on_arrays(eng, *a, **kw):
                for x in a if set(names) & SEVERAL else a[:1]:
                    if isinstance(x, (Seq, list, tuple)):
                        raise PyExc(TypeError)
                return checked(eng, *a, **kw)

            model(*in_jax)(on_arrays)
        if set(names) <= CREATORS:

            def created(eng, *a, **kw):
                r = checked(eng, *a, **kw)
                if isinstance(r, Arr):
                    # a new NumPy array, not yet shared: may be written in place
                    r.own = True
                return r

            model(*[o for o in out if getattr(onp, names[0], None) is o])(created)
        return f

    return deco


TYPED = {"zeros", "ones", "full", "empty", "zeros_like", "ones_like", "full_like", "empty_like", "arange", "eye", "asarray", "array"}
# jnp functions that accept Python sequences; all others raise
SEQUENCES = {
    "array", "asarray", "ascontiguousarray", "atleast_1d", "einsum", "full", "zeros", "ones", "empty", "ndim", "shape", "hstack", "vstack", "concatenate",
    "stack", "select", "eye", "arange", "result_type",
}
# those whose arguments are all arrays
SEVERAL = {"where", "dot", "matmul", "vdot", "outer", "maximum", "minimum", "add", "subtract", "multiply", "divide", "logical_and", "logical_or", "power", "meshgrid"}
CREATORS = {"zeros", "ones", "full", "empty", "zeros_like", "ones_like", "full_like", "empty_like"}


def get(path):
    o = {"jax": jax, "jnp": jnp, "onp": onp, "jdc": jdc}[path.split(".")[0]]
    for p in path.split(".")[1:]:
        try:
            o = getattr(o, p)
        except AttributeError:
            return None
    return o


def all_concrete(*xs):
    return all(is_concrete(x) for x in xs)


# ------------------------------------------------------------------ builtins


@model(builtins.len)
def _len(eng, x):
    if isinstance(x, Seq):
        return pyint(eng.ctx.simp(x.length()))
    if isinstance(x, SDict):
        return pyint(eng.ctx.simp(vals.parts_len(x.parts)))
    if isinstance(x, Arr):
        return x.shape[0]
    if isinstance(x, Abstract):
        return x.length(eng)
    if isinstance(x, SSet):
        raise Unsupported("len of a set")
    if not hasattr(x, "__len__"):
        raise Unsupported(f"length of {type(x).__name__}")
    return len(x)


@model(builtins.range)
def _range(eng, *a):
    if all_concrete(*a):
        return range(*[to_native(x) for x in a])
    if len(a) in (1, 2):
        lo = lift(a[0]) if len(a) == 2 else ZERO
        n = sub(lift(a[-1]), lo)
        if len(a) == 2:
            n = eng.ctx.simp(n)
        if not eng.ctx.quick(le(ZERO, n)) and eng.ctx.prove(le(ZERO, n)).ok is not True:
            n = ite(le(ZERO, n), n, ZERO)
        return Seq([Comp(n, lambda t: [Item(add(lo, t))])], "range")
    step = pynum(a[2]) if not isinstance(a[2], Term) else pyint(a[2])
    if isinstance(step, int) and step == -1:
        lo, n = lift(a[0]), eng.ctx.simp(sub(lift(a[0]), lift(a[1])))
        if not eng.ctx.quick(le(ZERO, n)):
            n = ite(le(ZERO, n), n, ZERO)
        return Seq([Comp(n, lambda t: [Item(sub(lo, t))])], "range")
    if isinstance(step, int) and step > 0:
        lo, hi = lift(a[0]), lift(a[1])
        n = _exact(eng.ctx.simp(sub(hi, lo)), step)
        if n is not None and eng.ctx.quick(le(ZERO, n)):
            return Seq([Comp(n, lambda t: [Item(add(lo, ir.scale(t, step)))])], "range")
    raise Unsupported("range with a step")


def _exact(t, d):
    """t / d if every coefficient is divisible by d"""
    items = ir.poly_terms(t)
    return ir._from_items({m: c / d for m, c in items}) if all((c / d).denominator == 1 for m, c in items) else None


def _enum(parts, base):
    out = []
    for p in parts:
        if isinstance(p, Item):
            out.append(Item((pyint(base), p.value)))
            base = add(base, ONE)
        elif isinstance(p, Comp):
            def sz(t, p=p):
                return vals.parts_len(p.at(t))

            def fn(t, p=p, base=base, sz=sz):
                s = fresh("k")
                return _enum(p.at(t), add(base, mk_sum([(s, t)], sz(s))))

            out.append(Comp(p.n, fn, p.shares))
            s = fresh("k")
            base = add(base, mk_sum([(s, p.n)], sz(s)))
        else:
            raise Unsupported("a list under construction")
    return out


@model(builtins.enumerate)
def _enumerate(eng, x, start=0):
    return Seq(_enum(iter_parts(eng, x), lift(start)), "generator")


def _zip_parts(eng, lists, inner=False):
    if all(all(isinstance(p, Item) for p in l) for l in lists):
        if inner and len({len(l) for l in lists}) != 1:
            raise Unsupported("zip of differently structured sequences")
        return [Item(tuple(p.value for p in t)) for t in zip(*lists)]
    if len({len(l) for l in lists}) == 1:
        out = []
        for ps in zip(*lists):
            if all(isinstance(p, Item) for p in ps):
                out.append(Item(tuple(p.value for p in ps)))
            elif all(isinstance(p, Comp) for p in ps):
                n = ps[0].n
                if not all(p.n is n or eng.ctx.quick(eq(p.n, n)) for p in ps[1:]):
                    raise Unsupported("zip of sequences of different length")
                out.append(Comp(n, lambda t, ps=ps: _zip_parts(eng, [p.at(t) for p in ps], True), tuple(c for p in ps for c in p.shares)))
            else:
                raise Unsupported("zip of differently structured sequences")
        return out
    raise Unsupported("zip of differently structured sequences")


@star
@model(builtins.zip)
def _zip(eng, *xs, strict=False):
    if any(isinstance(x, StarSeq) for x in xs):
        return _unzip(eng, xs)
    lists = [iter_parts(eng, x) for x in xs]
    if strict and len({len(l) for l in lists}) > 1 and all(isinstance(p, Item) for l in lists for p in l):
        raise PyExc(ValueError)
    return Seq(_zip_parts(eng, lists), "generator")


def _unzip(eng, xs):
    """zip(*rows) for a symbolic number of rows of one fixed length."""
    (x,) = xs if len(xs) == 1 else (None,)
    if x is None or len(x.seq.parts) != 1 or not isinstance(x.seq.parts[0], Comp) or not x.seq.parts[0].single():
        raise Unsupported("zip of a symbolic number of sequences")
    c = x.seq.parts[0]
    width = lambda v: len(v) if isinstance(v, tuple) else len(v.parts) if isinstance(v, Seq) and v.is_concrete() else None
    n = width(c.at(fresh("k"))[0].value)
    if n is None:
        raise Unsupported("zip of a symbolic number of sequences")
    eng.require(lt(ZERO, c.n), "zip: at least one sequence")
    return Seq([Item(Seq([Comp(c.n, lambda k, i=i: [Item(seq_items(c.at(k)[0].value)[i])])], "tuple")) for i in range(n)], "generator")


@model(builtins.map)
def _map(eng, f, *xs):
    if len(xs) == 1:
        def over(parts):
            return _map_parts(eng, f, parts)

        return Seq(over(iter_parts(eng, xs[0])), "generator")
    return Seq(_map_parts(eng, Fn(lambda t: eng.call(f, list(t), {})), _zip_parts(eng, [iter_parts(eng, x) for x in xs])), "generator")


def _map_parts(eng, f, parts):
    out = []
    for p in parts:
        if isinstance(p, Item):
            out.append(Item(eng.call(f, [p.value], {})))
        elif isinstance(p, Comp):
            k = fresh("k")
            rng = [le(ZERO, k), lt(k, p.n)]
            eng.generic[k] = rng
            from .interp import Frame

            fr = Frame(k, p.n, len(eng.frames) + 1)
            eng.frames.append(fr)
            old = eng.ctx
            eng.ctx = old.extend(*rng)
            try:
                body = _map_parts(eng, f, p.at(k))
            finally:
                eng.ctx = old
                eng.frames.pop()
            if fr.touched:
                raise Unsupported("mutation inside map")
            out.append(Comp(p.n, lambda t, body=body, k=k: [b.sub({k: t}) for b in body]))
        else:
            raise Unsupported("a list under construction")
    return out


@model(builtins.reversed)
def _reversed(eng, x):
    parts = iter_parts(eng, x)
    if all(isinstance(p, Item) for p in parts):
        return Seq(list(reversed(parts)), "generator")
    return seq_slice(eng, Seq(parts, "generator"), slice(None, None, -1))


@model(builtins.list)
def _list(eng, x=()):
    s = Seq(list(iter_parts(eng, x)), "list")
    s.made_at_merge = eng.merge
    return s


@model(builtins.tuple)
def _tuple(eng, x=()):
    parts = iter_parts(eng, x)
    if all(isinstance(p, Item) for p in parts):
        return tuple(p.value for p in parts)
    return Seq(list(parts), "tuple")


@model(builtins.next)
def _next(eng, x, *d):
    if not isinstance(x, Seq) or x.kind != "generator":
        raise Unsupported("next")
    if getattr(x, "used", False) or x.depth < eng.depth or eng.merge:
        raise Unsupported("an iterator used more than once")
    parts = x.parts
    if not parts and d:
        return d[0]
    if parts and isinstance(parts[0], Comp) and eng.ctx.quick(lt(ZERO, parts[0].n)):
        c = parts[0]
        first, rest = c.at(ZERO), Comp(sub(c.n, ONE), lambda t: c.at(add(t, ONE)))
        parts = list(first) + [rest] + list(parts[1:])
    if parts and isinstance(parts[0], Item):
        x.parts = list(parts[1:])
        return parts[0].value
    raise Unsupported("next")


@model(builtins.iter)
def _iter(eng, x):
    if isinstance(x, Seq) and x.kind == "generator":
        return x
    return Seq(list(iter_parts(eng, x)), "generator")


@model(builtins.set, builtins.frozenset)
def _set(eng, x=()):
    return SSet(x if isinstance(x, Seq) else Seq(list(iter_parts(eng, x)), "list"))


@model(builtins.dict, _fd.frozendict)
def _dict(eng, x=None, **kw):
    if isinstance(x, SDict):
        d = SDict(x.parts)
    elif x is None:
        d = SDict([])
    elif isinstance(x, (dict,)):
        d = SDict([Item((k, v)) for k, v in x.items()])
    elif isinstance(x, Abstract) and hasattr(x, "as_dict"):
        d = x.as_dict(eng)
    else:
        from .models import normalise_dict

        d = SDict(list(iter_parts(eng, x)))
        normalise_dict(eng, d)
    for k, v in kw.items():
        d.parts.append(Item((k, v)))
    d.made_at_merge = eng.merge
    return d


def _fromkeys(eng, xs, v):
    from .models import normalise_dict

    d = SDict(parts_map(iter_parts(eng, xs), lambda k: (k, v)))
    d.inserted = d.parts if v is None else None
    normalise_dict(eng, d)
    return d


@model(collections.defaultdict, typing.DefaultDict)
def _defaultdict(eng, factory=None, *a):
    if a:
        raise Unsupported("defaultdict with contents")
    d = SDict([])
    if factory is not None and factory is not list:
        raise Unsupported("defaultdict factory")
    d.factory = factory
    d.made_at_merge = eng.merge
    return d


@model(collections.OrderedDict)
def _od(eng, *a):
    return _dict(eng, *a)


@model(builtins.isinstance)
def _isinstance(eng, x, t):
    if isinstance(x, Abstract):
        return x.isinstance(eng, t)
    if isinstance(x, Obj):
        return issubclass(x.cls, t)
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, Term):
        py = {"I": int, "R": float, "B": bool}.get(x.sort)
        if jnp.ndarray in ts or onp.ndarray in ts or any(getattr(q, "__module__", "").startswith(("jax", "numpy")) for q in ts):
            raise Unsupported("isinstance of a scalar")
        return any(issubclass(py, q) for q in ts if isinstance(q, type)) if py else False
    if isinstance(x, Arr):
        if any(q in (jnp.ndarray, onp.ndarray) for q in ts):
            return True
        return False
    if isinstance(x, Seq):
        return any(q in (list, tuple) and q.__name__ == x.kind for q in ts)
    if isinstance(x, SDict):
        return dict in ts
    return isinstance(x, t)


@model(builtins.issubclass)
def _issubclass(eng, x, t):
    if isinstance(x, Abstract):
        return x.issubclass(eng, t)
    return issubclass(x, t)


@model(builtins.type)
def _type(eng, x):
    if isinstance(x, Obj):
        return x.cls
    if isinstance(x, Abstract):
        return x.getattr("__class__")
    if isinstance(x, (Term, Arr, Seq, SDict)):
        raise Unsupported("type of a symbolic value")
    return type(x)


@model(builtins.hasattr)
def _hasattr(eng, x, name):
    if isinstance(x, Arr):
        return hasattr(jnp.zeros(1), name)
    if isinstance(x, Abstract) and hasattr(x, "hasattr"):
        return x.hasattr(name)
    try:
        eng.getattr(x, name)
        return True
    except PyExc as e:
        return False


@model(builtins.getattr)
def _getattr(eng, x, name, *d):
    if d and isinstance(x, Abstract) and hasattr(x, "hasattr"):
        c = x.hasattr(name)
        if isinstance(c, Term):
            with eng.assuming(c):
                v = eng.getattr(x, name)
            return eng.merge_values(c, v, d[0])
    try:
        return eng.getattr(x, name)
    except PyExc:
        if d:
            return d[0]
        raise


@model(object.__setattr__)
def _osetattr(eng, o, name, v):
    eng.setattr(o, name, v)


@model(builtins.callable)
def _callable(eng, x):
    return isinstance(x, (Closure, Bound, Partial, Fn)) or callable(x)


@model(builtins.float)
def _float(eng, x=0):
    if isinstance(x, Arr):
        x = norm(reshape(eng, x, ()))
    return x


@model(builtins.int)
def _int(eng, x=0):
    x = _float(eng, x)
    if isinstance(x, Term):
        if x.sort == "R":
            raise Unsupported("float to int conversion")
        return ir.ind(x) if x.sort == "B" else x
    return int(x)


@model(builtins.bool)
def _bool(eng, x=False):
    return eng.truth(x)


@model(builtins.abs)
def _abs(eng, x):
    if isinstance(x, (Term, Arr)):
        return elementwise(ir.abs_, x)
    return abs(x)


@model(builtins.hash)
def _hash(eng, x):
    if isinstance(x, Abstract) and hasattr(x, "hash"):
        return x.hash(eng)
    if isinstance(x, Obj) and x.cls.__module__.startswith("jaxfg") and not x.fields:
        # equal for all objects of the class
        from .models import KeyVal

        return KeyVal(sym(f"hash_of_any_{x.cls.__name__}", "Key"))
    raise Unsupported("hash")


@model(builtins.id)
def _id(eng, x):
    return _object_hash(eng, x)


@model(object.__hash__)
def _object_hash(eng, x):
    if isinstance(x, Abstract) and hasattr(x, "hash"):
        return x.hash(eng)
    if isinstance(x, Obj) and x in eng.identities:
        return eng.identities[x]
    raise Unsupported("identity of an object")


@model(builtins.max)
def _max(eng, *xs, **kw):
    return _fold(eng, xs, kw, ir.max_, max)


@model(builtins.min)
def _min(eng, *xs, **kw):
    return _fold(eng, xs, kw, ir.min_, min)


def _fold(eng, xs, kw, f, native):
    if kw:
        raise Unsupported("max with options")
    if len(xs) == 1:
        xs = seq_items(xs[0]) if isinstance(xs[0], (Seq, tuple, list)) else [row(eng, xs[0], const(i)) for i in range(int(to_native(xs[0].shape[0])))]
    if all_concrete(*xs):
        return native(*[to_native(x) for x in xs])
    r = lift(pynum(xs[0]))
    for x in xs[1:]:
        r = f(r, lift(pynum(x)))
    return r


@model(builtins.sum)
def _pysum(eng, xs, start=0):
    import ast

    parts = iter_parts(eng, xs)

    def go(parts):
        t = 0
        for p in parts:
            if isinstance(p, Item):
                t = binop(eng, ast.Add(), t, p.value)
            elif isinstance(p, Comp):
                k = fresh("k")
                eng.generic[k] = [le(ZERO, k), lt(k, p.n)]
                with eng.assuming(*eng.generic[k]):
                    b = go(p.at(k))
                    if not isnum(b):
                        raise Unsupported("sum of arrays")
                t = binop(eng, ast.Add(), t, mk_sum([(k, p.n)], lift(pynum(b))))
            else:
                raise Unsupported("sum of a list under construction")
        return t

    return binop(eng, ast.Add(), start, go(parts))


def _pyany(eng, xs, isany):
    acc = None
    for p in iter_parts(eng, xs):
        if not isinstance(p, Item):
            if isinstance(p, Comp) and p.single():
                k = fresh("k")
                eng.generic[k] = [le(ZERO, k), lt(k, p.n)]
                with eng.assuming(*eng.generic[k]):
                    t = lift(eng.truth(p.at(k)[0].value))
                t = ir.mk_red("any" if isany else "all", [(k, p.n)], t)
            else:
                raise Unsupported("any/all of a symbolic sequence")
        else:
            t = eng.truth(p.value)
        if not isinstance(t, Term):
            if t == isany:
                return isany
            continue
        acc = t if acc is None else (or_ if isany else and_)(acc, t)
    return acc if acc is not None else (not isany)


model(builtins.any)(lambda eng, xs: _pyany(eng, xs, True))
model(builtins.all)(lambda eng, xs: _pyany(eng, xs, False))


@model(builtins.sorted)
def _sorted(eng, xs, **kw):
    if all_concrete(xs) and not kw:
        return Seq([Item(x) for x in sorted(to_native(xs))], "list")
    if not kw and isinstance(xs, SDict):
        xs = xs.keys()
    if not kw and (isinstance(xs, tuple) or isinstance(xs, Seq) and xs.is_concrete()):
        items = seq_items(xs)
        if all_concrete(*items):
            return Seq([Item(x) for x in sorted(to_native(x) for x in items)], "list")
        if len(items) == 2 and all(isnum(x) for x in items):
            a, b = (lift(pynum(x)) for x in items)
            return Seq([Item(ir.min_(a, b)), Item(ir.max_(a, b))], "list")
    raise Unsupported("sorted")


@model(builtins.divmod)
def _divmod(eng, a, b):
    import ast

    return (binop(eng, ast.FloorDiv(), a, b), binop(eng, ast.Mod(), a, b))


@model(builtins.print)
def _print(eng, *a, **kw):
    return None


model(functools.partial)(lambda eng, f, *a, **kw: Partial(f, list(a), kw))
model(functools.reduce)(lambda eng, f, xs, *init: _reduce(eng, f, xs, init))
model(typing.cast)(lambda eng, t, x: x)


def _reduce(eng, f, xs, init):
    items = seq_items(xs)
    acc = init[0] if init else items.pop(0)
    for x in items:
        acc = eng.call(f, [acc, x], {})
    return acc


@model(operator.matmul)
def _opmm(eng, a, b):
    import ast

    return binop(eng, ast.MatMult(), a, b)


# ------------------------------------------------------------------ dataclasses


@model(jdc.copy_and_mutate)
def _cam(eng, o, validate=True):
    return CtxManager(Obj(o.cls, dict(o.fields), o.tag))


@model(jdc.replace, dataclasses.replace)
def _replace(eng, o, **kw):
    if isinstance(o, Abstract) and hasattr(o, "replace"):
        return o.replace(eng, **kw)
    if not isinstance(o, Obj):
        raise Unsupported("replace")
    for k in kw:
        if k not in o.fields:
            raise PyExc(TypeError)
    return Obj(o.cls, {**o.fields, **kw})


# ------------------------------------------------------------------ array constructors


def filled(shape, t, kind):
    return norm(Arr([NLeaf(pynum(s)) for s in shape], lambda *p: t, kind))


@both("zeros")
def _zeros(eng, shape, dtype=None, **kw):
    k = dtype_kind(dtype)
    return filled(shape_tuple(eng, shape), const(0) if k != "b" else ir.FALSE, k)


@both("empty")
def _empty(eng, shape, dtype=None, **kw):
    raise Unsupported("empty")


@both("ones")
def _ones(eng, shape, dtype=None, **kw):
    k = dtype_kind(dtype)
    return filled(shape_tuple(eng, shape), const(1) if k != "b" else ir.TRUE, k)


@both("full")
def _full(eng, shape, fill_value, dtype=None):
    return typed(filled(shape_tuple(eng, shape), lift(pynum(fill_value)), kind_of(fill_value)), dtype)


def like(a, t, k, dtype):
    a = to_arr(a)
    if a.kind == "b" or a.kind == "i" and k == "f":
        raise Unsupported("array like one of another kind")
    return norm(typed(Arr(a.doms, lambda *p: t, a.kind), dtype))


@both("zeros_like")
def _zl(eng, a, dtype=None):
    return like(a, ZERO, "i", dtype)


@both("ones_like")
def _ol(eng, a, dtype=None):
    return like(a, ONE, "i", dtype)


@both("full_like")
def _fl(eng, a, fill_value, dtype=None):
    return like(a, lift(pynum(fill_value)), kind_of(fill_value), dtype)


@both("asarray", "array", "ascontiguousarray")
def _asarray(eng, a, dtype=None, **kw):
    if isinstance(a, Seq) and not a.is_concrete():
        a = stack_seq(eng, a)
        if dtype is None:
            return a
    return norm(typed(to_arr(a), dtype))


def typed(r, dtype):
    """Array r converted to dtype."""
    if dtype is None:
        return r
    k = dtype_kind(dtype)
    if k == r.kind:
        return r
    if r.kind == "b":
        return r.map(_num_bool, k)
    if r.kind == "i" and k == "f":
        return Arr(r.doms, r.at_path, k)
    raise Unsupported(f"conversion of an array of kind {r.kind} to {k}")


@both("arange")
def _arange(eng, *a, dtype=None, **kw):
    lo, hi = (ZERO, lift(a[0])) if len(a) == 1 else (lift(a[0]), lift(a[1]))
    if len(a) > 2:
        step = pynum(a[2])
        n = _exact(eng.ctx.simp(sub(hi, lo)), step) if isinstance(step, int) and step > 0 and hi.sort == lo.sort == "I" else None
        if n is None:
            raise Unsupported("arange with a step")
        eng.require(le(ZERO, n), "arange has a non-negative length")
        return typed(Arr([NLeaf(n)], lambda p: add(lo, ir.scale(p[0], step)), "i"), dtype)
    if hi.sort != "I" or lo.sort != "I":
        raise Unsupported("arange of non-integers")
    n = eng.ctx.simp(sub(hi, lo))
    eng.require(le(ZERO, n), "arange has a non-negative length")
    return typed(Arr([NLeaf(n)], lambda p: add(lo, p[0]), "i"), dtype)


@both("eye", "identity")
def _eye(eng, n, m=None, dtype=None):
    n = pynum(n)
    return Arr([NLeaf(n), NLeaf(n if m is None else pynum(m))], lambda p, q: ir.ind(eq(p[0], q[0])), dtype_kind(dtype))


@both("concatenate")
def _concatenate(eng, xs, axis=0, **kw):
    return concat_parts(eng, iter_parts(eng, xs), axis)


def _rank(eng, parts):
    """Rank of the arrays of a sequence."""
    for p in parts:
        if isinstance(p, Comp):
            k = fresh("k")
            with eng.assuming(le(ZERO, k), lt(k, p.n)):
                return _rank(eng, p.at(k))
        return to_arr(p.value).ndim
    raise PyExc(ValueError)


@both("hstack")
def _hstack(eng, xs, **kw):
    parts = iter_parts(eng, xs)
    n = _rank(eng, parts)
    return stack_seq(eng, xs, 0) if n == 0 else concat_parts(eng, parts, 0 if n == 1 else 1)


@both("vstack")
def _vstack(eng, xs, **kw):
    parts = iter_parts(eng, xs)
    n = _rank(eng, parts)
    if n == 0:
        raise Unsupported("vstack of numbers")
    return stack_seq(eng, xs, 0) if n == 1 else concat_parts(eng, parts, 0)


@both("stack")
def _stack(eng, xs, axis=0, **kw):
    if isinstance(xs, (tuple, list)) and not xs or isinstance(xs, Seq) and not xs.parts:
        raise PyExc(ValueError)
    return stack_seq(eng, xs, axis)


@both("swapaxes")
def _swapaxes(eng, a, axis1, axis2):
    a = to_arr(a)
    order = list(range(a.ndim))
    axis1, axis2 = axis_of(axis1, a.ndim), axis_of(axis2, a.ndim)
    order[axis1], order[axis2] = order[axis2], order[axis1]
    return transpose(eng, a, order)


@both("moveaxis")
def _moveaxis(eng, a, source, destination):
    a = to_arr(a)
    if not isinstance(source, int) or not isinstance(destination, int):
        raise Unsupported("moveaxis")
    return move_axis(a, axis_of(source, a.ndim), axis_of(destination, a.ndim))


@both("tile")
def _tile(eng, a, reps):
    a = to_arr(a)
    reps = shape_tuple(eng, reps)
    if a.ndim == 1 and len(reps) == 1:
        n = lift(pynum(reps[0]))
        if is_const(n) and cval(n) == 1:
            return a
        return Arr([NComp(n, lambda k: a.doms[0])], lambda p: a.at_path(p[1:]), a.kind)
    if len(reps) == a.ndim + 1 and all(is_concrete(r) and to_native(r) == 1 for r in reps[1:]):
        return Arr([NLeaf(pynum(reps[0]))] + a.doms, lambda p, *r: a.at_path(*r), a.kind)
    if a.ndim == 0 and len(reps) == 1:
        t = a.at_path()
        return Arr([NLeaf(pynum(reps[0]))], lambda p: t, a.kind)
    if len(reps) == a.ndim:
        rs = [lift(pynum(r)) for r in reps]
        one = [is_const(r) and cval(r) == 1 for r in rs]
        doms = [d if o else NComp(r, lambda k, d=d: d) for d, r, o in zip(a.doms, rs, one)]
        return Arr(doms, lambda *ps: a.at_path(*[p if o else p[1:] for p, o in zip(ps, one)]), a.kind)
    raise Unsupported("tile")


@both("repeat")
def _repeat(eng, a, repeats, axis=None, **kw):
    a = to_arr(a)
    n = lift(pynum(repeats)) if isnum(repeats) else None
    if n is None or a.ndim != 1 and axis is None:
        raise Unsupported("repeat")
    ax = 0 if axis is None else axis_of(axis, a.ndim)
    from .models import compose_dom, split_path

    inner = NLeaf(n)
    dom = compose_dom(a.doms[ax], inner)

    def fn(*paths):
        x, _ = split_path(a.doms[ax], inner, paths[ax])
        return a.at_path(*paths[:ax], x, *paths[ax + 1 :])

    return Arr(a.doms[:ax] + [dom] + a.doms[ax + 1 :], fn, a.kind)


@both("broadcast_to")
def _bt(eng, a, shape):
    a = to_arr(a)
    shape = shape_tuple(eng, shape)
    doms = [NLeaf(pynum(s)) for s in shape]
    off = len(shape) - a.ndim
    for j, d in enumerate(a.doms):
        if not is_one(d):
            eng.require(eq(d.size(), doms[off + j].size()), "broadcast_to: sizes agree")
            doms[off + j] = d
    return norm(Arr(doms, lambda *p: a.get(*[ZERO if is_one(d) else Ix(doms[off + j], p[off + j]) for j, d in enumerate(a.doms)]), a.kind))


@both("meshgrid")
def _meshgrid(eng, *xs, indexing="xy", **kw):
    arrs = [to_arr(x) for x in xs]
    if kw or len(arrs) > 2 and indexing != "ij":
        raise Unsupported("meshgrid")
    order = list(range(len(arrs)))
    if indexing == "xy" and len(arrs) == 2:
        order = [1, 0]
    doms = [arrs[i].doms[0] for i in order]
    return Seq([Item(Arr(doms, lambda *p, i=i: arrs[i].at_path(p[order.index(i)]), arrs[i].kind)) for i in range(len(arrs))], "list")


# ------------------------------------------------------------------ element-wise


def unary(names, f, kind=None):
    both(*names)(lambda eng, x, **kw: elementwise(f, x, kind=kind))


def binary(names, f, kind=None):
    both(*names)(lambda eng, a, b, **kw: elementwise(f, a, b, kind=kind))


unary(("sqrt",), ir.sqrt, "f")
unary(("abs", "absolute", "fabs"), ir.abs_)
unary(("square",), lambda t: mul(t, t))
unary(("negative",), ir.neg)
unary(("reciprocal",), ir.inv)
model(get("jax.lax.rsqrt"))(lambda eng, x: elementwise(lambda t: ir.inv(ir.sqrt(t)), x, kind="f"))
unary(("log",), lambda t: app("log", [t], "R"), "f")
unary(("exp",), lambda t: app("exp", [t], "R"), "f")
unary(("sin",), lambda t: app("sin", [t], "R"), "f")
unary(("cos",), lambda t: app("cos", [t], "R"), "f")
for _n in ("sqrt", "log", "exp", "sin", "cos"):
    model(getattr(math, _n))(lambda eng, x, f=MODELS[id(getattr(onp, _n))]: f(eng, x))
unary(("logical_not",), not_, "b")
unary(("isnan",), lambda t: app("isnan", [t], "B"), "b")
unary(("isfinite",), lambda t: app("isfinite", [t], "B"), "b")
unary(("sign",), lambda t: ite(lt(ZERO, t), ONE, ite(lt(t, ZERO), const(-1), ZERO)))
unary(("conj", "real"), lambda t: t)
binary(("add",), add)
binary(("subtract",), sub)
binary(("multiply",), mul)
binary(("divide", "true_divide"), ir.div, "f")
binary(("maximum", "fmax"), ir.max_)
binary(("minimum", "fmin"), ir.min_)
binary(("less",), lt, "b")
binary(("less_equal",), le, "b")
binary(("greater",), ir.gt, "b")
binary(("greater_equal",), ir.ge, "b")
binary(("equal",), lambda a, b: __import__("vf.models", fromlist=["x"]).term_eq(a, b), "b")
binary(("not_equal",), lambda a, b: not_(__import__("vf.models", fromlist=["x"]).term_eq(a, b)), "b")
binary(("logical_and",), lambda a, b: and_(tob(a), tob(b)), "b")
binary(("logical_or",), lambda a, b: or_(tob(a), tob(b)), "b")
binary(("hypot",), lambda a, b: ir.sqrt(add(mul(a, a), mul(b, b))), "f")
binary(("power", "float_power"), lambda a, b: __import__("vf.models", fromlist=["x"])._pow(a, b), "f")
binary(("arctan2",), lambda a, b: app("atan2", [a, b], "R"), "f")


def tob(t):
    t = lift(t)
    return t if t.sort == "B" else ir.ne(t, ZERO)


@both("where")
def _where(eng, c, a=None, b=None):
    if a is None:
        raise Unsupported("where with one argument")
    return elementwise(lambda c, x, y: ite(tob(c), x, y), c, a, b, kind=vals.join_kind([kind_of(a), kind_of(b)]))


model(get("jax.lax.select"))(lambda eng, c, a, b: _where(eng, c, a, b))


@both("select")
def _select(eng, condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(seq_items(condlist), seq_items(choicelist)))):
        r = _where(eng, c, v, r)
    return r


@both("take")
def _take(eng, a, indices, axis=None, **kw):
    a = to_arr(a)
    if axis is None:
        a, axis = flatten(eng, a), 0
    axis = axis_of(axis, a.ndim)
    return index_arr(eng, a, tuple([slice(None)] * axis + [indices]))


def _slices(eng, what, starts, sizes, shape):
    # start indices outside the array would be moved: they must not occur
    out = []
    for s, n, d in zip(starts, sizes, shape):
        s, n, d = (lift(pynum(norm(to_arr(x)))) for x in (s, n, d))
        eng.require(and_(le(ZERO, s), le(add(s, n), d)), f"{what}: the slice is inside the array")
        out.append(slice(s, add(s, n)))
    return tuple(out)


@model(get("jax.lax.dynamic_slice_in_dim"))
def _dsid(eng, operand, start_index, slice_size, axis=0):
    a = to_arr(operand)
    axis = axis_of(axis, a.ndim)
    (s,) = _slices(eng, "dynamic_slice_in_dim", [start_index], [slice_size], [a.doms[axis].size()])
    return index_arr(eng, a, tuple([slice(None)] * axis + [s]))


@model(get("jax.lax.slice"))
def _lax_slice(eng, operand, start_indices, limit_indices, strides=None):
    a = to_arr(operand)
    if strides is not None:
        raise Unsupported("lax.slice with strides")
    starts, limits = seq_items(start_indices), seq_items(limit_indices)
    if not len(starts) == len(limits) == a.ndim:
        raise PyExc(TypeError)
    sizes = [sub(lift(pynum(norm(to_arr(l)))), lift(pynum(norm(to_arr(s))))) for s, l in zip(starts, limits)]
    for n in sizes:
        eng.require(le(ZERO, n), "slice: the limit is not before the start")
    return index_arr(eng, a, _slices(eng, "slice", starts, sizes, [d.size() for d in a.doms]))


@model(get("jax.lax.dynamic_slice"))
def _ds(eng, operand, start_indices, slice_sizes):
    a = to_arr(operand)
    return index_arr(eng, a, _slices(eng, "dynamic_slice", seq_items(start_indices), seq_items(slice_sizes), [d.size() for d in a.doms]))


@model(get("jax.lax.dynamic_update_slice"))
def _dus(eng, operand, update, start_indices):
    a, u = to_arr(operand), to_arr(update)
    starts = seq_items(start_indices) if isinstance(start_indices, (Seq, tuple, list)) else [row(eng, start_indices, const(i)) for i in range(a.ndim)]
    idx = _slices(eng, "dynamic_update_slice", starts, [d.size() for d in u.doms], [d.size() for d in a.doms])
    return at_update(eng, AtIdx(a, idx), "set", u)


@model(get("jax.lax.dynamic_update_slice_in_dim"))
def _dusid(eng, operand, update, start_index, axis):
    if to_arr(operand).ndim != 1:
        raise Unsupported("dynamic_update_slice_in_dim")
    return _dus(eng, operand, update, (start_index,))


@model(get("jax.ops.segment_sum"))
def _segment_sum(eng, data, segment_ids, num_segments=None, **kw):
    if num_segments is None or kw:
        raise Unsupported("segment_sum")
    d = to_arr(data)
    if d.ndim != 1:
        raise Unsupported("segment_sum of rank > 1")
    n = lift(pynum(num_segments))
    return at_update(eng, AtIdx(Arr([NLeaf(n)], lambda p: ZERO, d.kind), segment_ids), "add", d)


@both("clip")
def _clip(eng, a, a_min=None, a_max=None, min=None, max=None, **kw):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None:
        r = elementwise(ir.max_, r, lo)
    if hi is not None:
        r = elementwise(ir.min_, r, hi)
    return r


# ------------------------------------------------------------------ reductions, linear algebra

for _n, _k in (("sum", "sum"), ("prod", "prod"), ("max", "max"), ("amax", "max"), ("min", "min"), ("amin", "min"), ("any", "any"), ("all", "all")):
    both(_n)(lambda eng, a, axis=None, keepdims=False, k=_k, **kw: reduce_arr(eng, a, k, axis, keepdims))


@both("mean")
def _mean(eng, a, axis=None, **kw):
    a = to_arr(a)
    s = reduce_arr(eng, a, "sum", axis)
    n = mul(*[d.size() for i, d in enumerate(a.doms) if axis is None or i == axis_of(axis, a.ndim)], ONE)
    return elementwise(ir.div, s, n, kind="f")


@both("count_nonzero")
def _cnz(eng, a, **kw):
    return reduce_arr(eng, elementwise(lambda t: ir.ind(tob(t)), a), "sum")


@both("tensordot")
def _tensordot(eng, a, b, axes=2, **kw):
    a, b = to_arr(a), to_arr(b)
    axes = pynum(axes) if isnum(axes) else axes
    if isinstance(axes, int):
        left, right = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        left, right = ([axis_of(x, n) for x in (seq_items(s) if not isnum(s) else [s])] for s, n in zip(seq_items(axes), (a.ndim, b.ndim)))
    if len(left) != len(right) or len(left) > min(a.ndim, b.ndim):
        raise PyExc(ValueError)
    names = iter("abcdefghijklmnop")
    sa = [next(names) for _ in range(a.ndim)]
    sb = [sa[left[right.index(q)]] if q in right else next(names) for q in range(b.ndim)]
    out = [x for q, x in enumerate(sa) if q not in left] + [x for q, x in enumerate(sb) if q not in right]
    return einsum(eng, f"{''.join(sa)},{''.join(sb)}->{''.join(out)}", a, b)


both("einsum")(lambda eng, spec, *ops, **kw: einsum(eng, spec, *ops))
both("dot")(lambda eng, a, b, **kw: dot(eng, a, b))
both("matmul")(lambda eng, a, b, **kw: matmul(eng, a, b))


@both("vdot", "inner")
def _vdot(eng, a, b, **kw):
    return dot(eng, flatten(eng, a), flatten(eng, b))


@both("outer")
def _outer(eng, a, b, **kw):
    return einsum(eng, "i,j->ij", flatten(eng, a), flatten(eng, b))


both("transpose")(lambda eng, a, axes=None: transpose(eng, a, axes))
both("reshape")(lambda eng, a, shape=None, newshape=None, **kw: norm(reshape(eng, a, shape_tuple(eng, shape if shape is not None else newshape))))
both("ravel")(lambda eng, a, **kw: flatten(eng, a))


@both("expand_dims")
def _ed(eng, a, axis):
    a = to_arr(a)
    return _insert_axis(a, axis_of(axis, a.ndim + 1))


@both("squeeze")
def _sq(eng, a, axis=None):
    if isinstance(a, Term):
        return a
    return eng.call(eng.getattr(a, "squeeze"), [] if axis is None else [axis], {})


@both("diag")
def _diag(eng, a, *k):
    a = to_arr(a)
    if a.ndim == 1:
        return Arr([a.doms[0], a.doms[0]], lambda p, q: mul(a.at_path(p), ir.ind(eq(a.doms[0].offset(p), a.doms[0].offset(q)))), a.kind)
    return Arr([a.doms[0]], lambda p: a.get(Ix(a.doms[0], p), Ix(a.doms[0], p)), a.kind)


@both("shape")
def _shape(eng, a):
    return to_arr(a).shape


@both("ndim")
def _ndim(eng, a):
    return to_arr(a).ndim


@both("atleast_1d")
def _al1(eng, a):
    a = to_arr(a)
    return a if a.ndim else _insert_axis(a, 0)


@both("trace")
def _trace(eng, a, **kw):
    return reduce_arr(eng, _diag(eng, a), "sum")


@both("linalg.norm")
def _norm(eng, x, ord=None, axis=None, **kw):
    x = to_arr(x)
    if kw or x.ndim == 0:
        raise Unsupported("norm")
    if ord is None or ord == 2 and x.ndim == 1 or ord == "fro":
        s = reduce_arr(eng, x.map(lambda t: mul(t, t)), "sum", axis)
        return elementwise(ir.sqrt, s, kind="f")
    if x.ndim == 1 and ord == onp.inf:
        return reduce_arr(eng, x.map(ir.abs_), "max", axis)
    if x.ndim == 1 and ord == 1:
        return reduce_arr(eng, x.map(ir.abs_), "sum", axis)
    raise Unsupported("norm of this order")


def mat_fun(name, sort="R"):
    """Function of a square matrix, as an uninterpreted function of (size, entries)."""

    def f(eng, a, *rest, **kw):
        a = to_arr(a)
        if a.ndim == 3:
            n = a.doms[0].size()
            k = fresh("k")
            with eng.assuming(le(ZERO, k), lt(k, n)):
                eng.generic[k] = [le(ZERO, k), lt(k, n)]
                return batch_value(eng, n, k, f(eng, row(eng, a, k)))
        if a.ndim != 2:
            raise Unsupported(name)
        eng.require(eq(a.doms[0].size(), a.doms[1].size()), f"{name}: matrix is square")
        n = a.doms[0].size()
        lam = a.lam()
        if name == "det":
            return app("det", [n, lam], "R")
        return Arr(a.doms, lambda p, q: app(name, [n, lam, a.doms[0].offset(p), a.doms[1].offset(q)], "R"), "f")

    return f


both("linalg.det")(mat_fun("det"))
both("linalg.inv")(mat_fun("matinv"))
both("linalg.cholesky")(mat_fun("chol"))


@both("linalg.solve")
def _solve(eng, a, b):
    return matmul(eng, mat_fun("matinv")(eng, a), b)


@model(get("jax.scipy.linalg.solve_triangular"))
def _solve_triangular(eng, a, b, trans=0, lower=False, **kw):
    if kw or trans != 0:
        raise Unsupported("solve_triangular")
    a = to_arr(a)
    for (p, q), facts in a.generics():
        i, j = a.doms[0].offset(p), a.doms[1].offset(q)
        with eng.assuming(*facts, lt(i, j) if lower else lt(j, i)):
            eng.require(eq(a.at_path(p, q), ZERO), "solve_triangular: the matrix is triangular")
    return _solve(eng, a, b)


@both("linalg.slogdet")
def _slogdet(eng, a):
    d = mat_fun("det")(eng, a)
    return (elementwise(lambda t: ite(lt(ZERO, t), ONE, ite(lt(t, ZERO), const(-1), ZERO)), d), elementwise(lambda t: app("log", [ir.abs_(t)], "R"), d))


# dtypes used as conversion functions
for _n in ("float16", "float32", "float64", "int8", "int16", "int32", "int64"):
    both(_n)(lambda eng, x=0, n=_n, **kw: _asarray(eng, x, dtype=n))
model(jnp.bfloat16)(lambda eng, x=0: _asarray(eng, x, dtype=jnp.bfloat16))


# ------------------------------------------------------------------ jax transformations

for _p in ("jax.jit", "jdc.jit"):
    model(get(_p))(lambda eng, f=None, **kw: f if f is not None else Fn(lambda g: g))
model(get("jax.lax.stop_gradient"))(lambda eng, x: x)
model(get("jax.device_put"))(lambda eng, x, *a: x)
model(get("jax.block_until_ready"))(lambda eng, x: x)
model(get("jax.named_scope"))(lambda eng, *a: CtxManager(None))


@model(get("jax.vmap"))
def _vmap(eng, f, in_axes=0, out_axes=0, **kw):
    if kw:
        raise Unsupported("vmap options")
    return Fn(lambda *a, **k: do_vmap(eng, f, in_axes, out_axes, list(a), k), "vmap")


@model(get("jax.lax.cond"))
def _cond(eng, pred, tf, ff, *ops, operand=None, **kw):
    if kw:
        raise Unsupported("cond options")
    if not ops and operand is not None:
        ops = (operand,)
    p = eng.truth(norm(pred) if isinstance(pred, Arr) else pred)
    if isinstance(p, Term):
        p = eng.ctx.simp(p)
        if is_const(p):
            p = cval(p)
        elif eng.ctx.quick(p):
            p = True
        elif eng.ctx.quick(not_(p)):
            p = False
    if not isinstance(p, Term):
        return eng.call(tf if p else ff, list(ops), {})
    outs = []
    for c, f in ((p, tf), (not_(p), ff)):
        eng.merge += 1
        old = eng.ctx
        eng.ctx = old.extend(c)
        try:
            outs.append(eng.call(f, list(ops), {}))
        finally:
            eng.ctx = old
            eng.merge -= 1
    return merge(eng, p, *outs)


def tree_map_value(eng, f, *vs):
    v = vs[0]
    if v is None:
        return None
    if isinstance(v, tuple):
        xs = [tree_map_value(eng, f, *t) for t in zip(*vs)]
        return type(v)(*xs) if hasattr(v, "_fields") else tuple(xs)
    if isinstance(v, Seq) and v.is_concrete():
        return Seq([Item(tree_map_value(eng, f, *[w.items()[i] for w in vs])) for i in range(len(v.parts))], v.kind)
    if isinstance(v, Seq) and all(isinstance(w, Seq) for w in vs):
        zipped = _zip_parts(eng, [w.parts for w in vs])
        return Seq(_map_parts(eng, Fn(lambda t: tree_map_value(eng, f, *t)), zipped), v.kind)
    if isinstance(v, Obj):
        st = static_fields(v.cls)
        return Obj(v.cls, {n: (x if n in st else tree_map_value(eng, f, *[w.fields[n] for w in vs])) for n, x in v.fields.items()})
    if is_arrayish(v):
        return eng.call(f, list(vs), {})
    if isinstance(v, Abstract) and hasattr(v, "tree_map"):
        return v.tree_map(eng, f, *vs)
    raise Unsupported(f"tree_map over {type(v).__name__}")


@star
@model(get("jax.tree_map"), jax.tree_util.tree_map, get("jax.tree.map"))
def _tree_map(eng, f, *trees, **kw):
    if kw:
        raise Unsupported("tree_map options")
    if len(trees) == 1 and isinstance(trees[0], StarSeq):
        return tree_map_seq(eng, f, trees[0].seq)
    if any(isinstance(t, StarSeq) for t in trees):
        raise Unsupported("tree_map over a symbolic number of trees")
    return tree_map_value(eng, f, *trees)


def tree_map_seq(eng, f, seq: Seq):
    """tree_map(f, *trees) for a sequence of trees of symbolic length."""
    sample = first_leaf(eng, seq.parts)
    if isinstance(sample, Obj):
        st = static_fields(sample.cls)
        return Obj(
            sample.cls,
            {n: tree_map_seq(eng, f, Seq(parts_map(seq.parts, lambda o, n=n: o.fields[n]), "tuple")) for n in sample.fields if n not in st}
            | {n: sample.fields[n] for n in st if n in sample.fields},
        )
    if isinstance(sample, Abstract) and hasattr(sample, "tree_map_seq"):
        return sample.tree_map_seq(eng, f, seq)
    if is_arrayish(sample):
        return eng.call(f, [StarSeq(seq)], {})
    raise Unsupported("tree_map over a symbolic number of trees")


def first_leaf(eng, parts):
    p = parts[0]
    while isinstance(p, Comp):
        k = fresh("k")
        eng.generic[k] = [le(ZERO, k), lt(k, p.n)]
        p = p.at(k)[0]
    return p.value


def leaves(eng, v):
    if v is None:
        return []
    if isinstance(v, tuple):
        return [x for y in v for x in leaves(eng, y)]
    if isinstance(v, Seq) and v.is_concrete():
        return [x for y in v.items() for x in leaves(eng, y)]
    if isinstance(v, Obj):
        st = static_fields(v.cls)
        return [x for n, y in v.fields.items() if n not in st for x in leaves(eng, y)]
    if is_arrayish(v):
        return [v]
    raise Unsupported(f"tree_leaves of {type(v).__name__}")


@model(get("jax.tree_leaves"), jax.tree_util.tree_leaves, get("jax.tree.leaves"))
def _tree_leaves(eng, t):
    if isinstance(t, Abstract) and hasattr(t, "tree_leaves"):
        return t.tree_leaves(eng)
    return Seq([Item(x) for x in leaves(eng, t)], "list")


@model(get("jax.tree_flatten"), jax.tree_util.tree_flatten, get("jax.tree.flatten"))
def _tree_flatten(eng, t):
    return _tree_leaves(eng, t), _tree_structure(eng, t)


@model(get("jax.tree_structure"), jax.tree_util.tree_structure, get("jax.tree.structure"))
def _tree_structure(eng, t):
    if isinstance(t, Abstract) and hasattr(t, "tree_structure"):
        return t.tree_structure(eng)
    raise Unsupported("tree_structure")


@both("result_type", "promote_types")
def _result_type(eng, *xs):
    return DType(vals.join_kind([x.k if isinstance(x, DType) else (kind_of(x) if is_arrayish(x) else dtype_kind(x)) for x in xs]))


@model(typing.get_type_hints)
def _get_type_hints(eng, f, *a, **kw):
    f = f.func if isinstance(f, Bound) else f
    if a or kw or not (callable(f) or isinstance(f, type)) or isinstance(f, (Abstract, Closure, Fn)):
        raise Unsupported("get_type_hints")
    return SDict([Item((k, v)) for k, v in typing.get_type_hints(f).items()], "dict")

LAZY.update(MODELS[id(f)] for f in (builtins.isinstance, builtins.iter, builtins.next, builtins.id, builtins.type, builtins.hasattr, builtins.getattr, builtins.bool, builtins.callable) if id(f) in MODELS)
