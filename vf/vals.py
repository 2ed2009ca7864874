"""Symbolic values of the interpreter.

Arrays are functions from index paths to terms.  Every axis has a domain: a tree of blocks
(leaf of n positions | a block per k<n | a fixed sequence of blocks), so that concatenations and
flattenings of arrays of symbolic length keep their structure.  A plain axis is a single leaf.
Lists, tuples and dictionaries of symbolic length are trees of the same shape.
"""
from __future__ import annotations

import itertools
import weakref
from typing import Any, Callable, Dict, List, Optional, Sequence, Tuple

from . import ir
from .ir import ONE, TRUE, ZERO, Term, add, and_, const, cval, eq, fresh, is_const, le, lift, lt, mk_red, mk_sum, mul, sub, subst


class Unsupported(Exception):
    """The code uses something the verifier has no model for."""


class PathAbort(Exception):
    """The current path is infeasible or already decided."""


# the engine in charge (set by interp.Engine)
class _NoEngine:
    pass


ENG: Any = _NoEngine()


def set_engine(e):
    global ENG
    ENG = e


def engine():
    return ENG


# ------------------------------------------------------------------ domains


class Node:
    pass


class NLeaf(Node):
    def __init__(self, n):
        self.n = lift(n)

    def size(self):
        return self.n

    def offset(self, path):
        return path[0]

    def locate(self, e, ctx):
        return (e,)

    def reduce(self, kind, f):
        s = fresh("i")
        try:
            body = f((s,))
        except Unsupported:
            with ENG.assuming(le(ZERO, s), lt(s, self.n)):
                body = f((s,))
        return mk_red(kind, [(s, self.n)], body)

    def generics(self):
        s = fresh("i")
        yield (s,), [le(ZERO, s), lt(s, self.n)]

    def sub(self, m):
        return NLeaf(subst(self.n, m))

    def __repr__(self):
        return f"<{self.n}>"


class NComp(Node):
    """One sub-block per k < n."""

    def __init__(self, n, fn: Callable[[Term], Node]):
        self.n, self.fn = lift(n), fn
        self._memo: Dict[int, Node] = {}

    def at(self, k: Term) -> Node:
        r = self._memo.get(k.id)
        if r is None:
            r = self._memo[k.id] = self.fn(k)
        return r

    def size(self):
        s = fresh("k")
        return mk_sum([(s, self.n)], self.at(s).size())

    def prefix(self, k: Term):
        s = fresh("k")
        return mk_sum([(s, k)], self.at(s).size())

    def offset(self, path):
        return add(self.prefix(path[0]), self.at(path[0]).offset(path[1:]))

    def locate(self, e, ctx):
        for t in self._candidates(e):
            rest = ctx.simp(sub(e, self.prefix(t)))
            n = self.at(t).size()
            if ctx.quick(and_(le(ZERO, t), lt(t, self.n))) and ctx.quick(and_(le(ZERO, rest), lt(rest, n))):
                p = self.at(t).locate(rest, ctx)
                if p is not None:
                    return (t,) + p
        return None

    def _candidates(self, e):
        s = fresh("k")
        size = self.at(s).size()
        seen = []

        def cand(t):
            if t.sort == "I" and t not in seen:
                seen.append(t)

        # e contains the prefix sum up to t
        body = mk_sum([(s, fresh("n"))], size)
        for m, c in ir.poly_terms(e):
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "red":
                kind, bs, b = ir.red_open(m[0][0])
                if kind == "sum" and len(bs) == 1:
                    cand(bs[0][1])
        # constant block size: divide
        if not ir.occurs(s, size):
            q = _quotient(e, size)
            if q is not None:
                cand(q)
        # first block
        cand(ZERO)
        if body.op == "poly":
            # several prefix sums: try the range of any of them, and quotients of its summands
            for m, c in ir.poly_terms(e):
                for a, _ in m:
                    if a.op == "red":
                        cand(ir.red_open(a)[1][0][1])
        return seen

    def reduce(self, kind, f):
        s = fresh("k")
        try:
            body = self.at(s).reduce(kind, lambda p: f((s,) + p))
        except Unsupported:
            with ENG.assuming(le(ZERO, s), lt(s, self.n)):
                body = self.at(s).reduce(kind, lambda p: f((s,) + p))
        return mk_red(kind, [(s, self.n)], body)

    def generics(self):
        s = fresh("k")
        for p, facts in self.at(s).generics():
            yield (s,) + p, [le(ZERO, s), lt(s, self.n)] + facts

    def sub(self, m):
        return NComp(subst(self.n, m), lambda k: self.at(k).sub(m))

    def __repr__(self):
        s = ir.sym("k")
        return f"[k<{self.n}: {self.at(s)}]"


class NSeq(Node):
    def __init__(self, nodes):
        self.nodes = list(nodes)

    def size(self):
        return add(*[n.size() for n in self.nodes], ZERO)

    def offset(self, path):
        return add(*[n.size() for n in self.nodes[: path[0]]], self.nodes[path[0]].offset(path[1:]))

    def locate(self, e, ctx):
        base = ZERO
        for i, n in enumerate(self.nodes):
            rest = ctx.simp(sub(e, base))
            if ctx.quick(and_(le(ZERO, rest), lt(rest, n.size()))):
                p = n.locate(rest, ctx)
                return None if p is None else (i,) + p
            base = add(base, n.size())
        return None

    def reduce(self, kind, f):
        rs = [n.reduce(kind, lambda p, i=i: f((i,) + p)) for i, n in enumerate(self.nodes)]
        if kind == "sum":
            return add(*rs, ZERO)
        if not rs:
            raise Unsupported("reduction of an empty array")
        r = rs[0]
        for x in rs[1:]:
            r = {"max": ir.max_, "min": ir.min_, "prod": mul, "any": ir.or_, "all": and_}[kind](r, x)
        return r

    def generics(self):
        for i, n in enumerate(self.nodes):
            for p, facts in n.generics():
                yield (i,) + p, facts

    def sub(self, m):
        return NSeq([n.sub(m) for n in self.nodes])

    def __repr__(self):
        return "{" + ", ".join(map(repr, self.nodes)) + "}"


def _quotient(e: Term, d: Term) -> Optional[Term]:
    """e = q*d + rest with q collected from the monomials divisible by d (a monomial)."""
    if is_const(d):
        if cval(d) == 0:
            return None
        items = {m: c / cval(d) for m, c in ir.poly_terms(e) if (c / cval(d)).denominator == 1 and m}
        return ir._from_items(items)
    items = ir.poly_terms(d)
    if len(items) != 1:
        return None
    (dm, dc), = items
    out = {}
    for m, c in ir.poly_terms(e):
        md = dict(m)
        if all(md.get(a, 0) >= k for a, k in dm) and (c / dc).denominator == 1:
            for a, k in dm:
                md[a] -= k
            mm = tuple((a, k) for a, k in sorted(md.items(), key=lambda x: x[0].id) if k)
            out[mm] = out.get(mm, 0) + c / dc
    return ir._from_items(out)


def same_dom(a: Node, b: Node, ctx) -> bool:
    if a is b:
        return True
    if isinstance(a, NLeaf) and isinstance(b, NLeaf):
        return a.n is b.n or ctx.quick(eq(a.n, b.n)) or bool(ctx.prove(eq(a.n, b.n), 4))
    if isinstance(a, NComp) and isinstance(b, NComp):
        if not (a.n is b.n or ctx.quick(eq(a.n, b.n))):
            return False
        s = fresh("k")
        return same_dom(a.at(s), b.at(s), ctx.extend(le(ZERO, s), lt(s, a.n)))
    if isinstance(a, NSeq) and isinstance(b, NSeq):
        return len(a.nodes) == len(b.nodes) and all(same_dom(x, y, ctx) for x, y in zip(a.nodes, b.nodes))
    return False


class Unresolved(Unsupported):
    """The block of an array that an index lies in is not known."""


class Ix:
    """An index given as a path in a particular domain."""

    def __init__(self, dom: Node, path):
        self.dom, self.path = dom, path

    def term(self):
        return self.dom.offset(self.path)


def ixterm(i) -> Term:
    return i.term() if isinstance(i, Ix) else lift(i)


# ------------------------------------------------------------------ arrays


def pyint(t):
    """Concrete ints stay Python ints."""
    if isinstance(t, Term) and is_const(t) and t.sort == "I":
        return int(cval(t))
    return t


class Arr:
    def __init__(self, doms: Sequence, fn: Callable, kind: str = "f", jax=True):
        self.doms = [d if isinstance(d, Node) else NLeaf(d) for d in doms]
        self._fn = fn
        self._memo: Dict[tuple, Term] = {}
        self.kind = kind  # f, i, b
        self.jax = jax
        self.own = False  # a NumPy array with one reference, which may be written in place

    @property
    def ndim(self):
        return len(self.doms)

    @property
    def shape(self):
        return tuple(pyint(d.size()) for d in self.doms)

    def at_path(self, *paths) -> Term:
        # the element may have been simplified with the facts in force
        key = (ENG.ctx.sig,) + tuple(tuple(p.id if isinstance(p, Term) else ("s", p) for p in path) for path in paths)
        r = self._memo.get(key)
        if r is None:
            r = self._memo[key] = lift(self._fn(*paths))
        return r

    def get(self, *idx) -> Term:
        assert len(idx) == len(self.doms), (len(idx), len(self.doms))
        try:
            paths = [coerce(d, i) for d, i in zip(self.doms, idx)]
        except Unresolved:
            if not ENG.discover:
                return self.cases(idx)
            # first look at a loop body, with unknown values of its variables
            return fresh("unresolved", {"b": "B", "i": "I"}.get(self.kind, "R"))
        return self.at_path(*paths)

    def cases(self, idx) -> Term:
        """The element if an index may lie in any of the parts of a concatenation."""
        for ax, (d, i) in enumerate(zip(self.doms, idx)):
            try:
                coerce(d, i)
            except Unresolved:
                if not isinstance(d, NSeq) or not 1 < len(d.nodes) < 6:
                    raise
                break
        ENG.unsure = f"cannot resolve index {str(i)[:300]} in {d}"
        i, base, out = ixterm(i), ZERO, []
        for k, n in enumerate(d.nodes):
            here = and_(le(base, i), lt(i, add(base, n.size())))
            with ENG.assuming(here):
                path = coerce(n, sub(i, base))
                out.append((here, self._at(idx, ax, (k,) + path)))
            base = add(base, n.size())
        r = out[-1][1]
        for c, t in reversed(out[:-1]):
            r = ir.ite(c, t, r)
        return r

    def _at(self, idx, ax, path):
        return self.at_path(*[path if k == ax else coerce(d, i) for k, (d, i) in enumerate(zip(self.doms, idx))])

    def map(self, f, kind=None):
        return Arr(self.doms, lambda *p: f(self.at_path(*p)), kind or self.kind)

    def sub(self, m):
        def fn(*p):
            with ENG.under(m):
                t = self.at_path(*p)
            return subst(t, m)

        return Arr([d.sub(m) for d in self.doms], fn, self.kind)

    def lam(self) -> Term:
        """The array as a function term."""
        ss = [fresh("a") for _ in self.doms]
        with ENG.assuming(*[f for s, d in zip(ss, self.doms) for f in (le(ZERO, s), lt(s, d.size()))]):
            b = self.get(*ss)
        for s in reversed(ss):
            b = ir.lam(s, b)
        return b

    def generics(self):
        for combo in itertools.product(*[list(d.generics()) for d in self.doms]):
            yield [p for p, _ in combo], [f for _, fs in combo for f in fs]

    def __repr__(self):
        try:
            p, _ = next(self.generics())
            return f"Arr{self.shape}({self.at_path(*p)})"
        except Exception as e:  # noqa
            return f"Arr{self.doms}"


def coerce(dom: Node, i):
    ctx = ENG.ctx
    if isinstance(i, Ix):
        if i.dom is dom or same_dom(i.dom, dom, ctx):
            return i.path
        i = i.term()
    i = lift(i)
    if isinstance(dom, NLeaf):
        return (i,)
    p = dom.locate(ctx.simp(i), ctx)
    if p is None:
        # axioms about any term of the index may help
        p = dom.locate(ctx.simp(i), ctx.extend(ir.app("mention", [ctx.simp(i)], "B")))
    if p is None:
        raise Unresolved(f"cannot resolve index {str(i)[:300]} in {dom}")
    return p


def scalar(t, kind=None) -> Arr:
    t = lift(t)
    if kind is None:
        kind = {"B": "b", "I": "i"}.get(t.sort, "f")
    return Arr([], lambda: t, kind)


def flat_arr(n, fn, kind="f"):
    """1-D array from a function of the index term."""
    return Arr([NLeaf(n)], lambda p: fn(p[0]), kind)


def arr2(n, m, fn, kind="f"):
    return Arr([NLeaf(n), NLeaf(m)], lambda p, q: fn(p[0], q[0]), kind)


def is_one(d: Node) -> bool:
    s = d.size() if isinstance(d, NLeaf) else None
    return s is not None and is_const(s) and cval(s) == 1


def zipmap(f, *arrs, kind=None) -> Arr:
    """Broadcasting element-wise operation."""
    nd = max(a.ndim for a in arrs)
    doms = []
    for ax in range(nd):
        best = None
        sizes = []
        for a in arrs:
            j = ax - (nd - a.ndim)
            if j < 0:
                continue
            d = a.doms[j]
            if is_one(d):
                continue
            sizes.append(d)
            if best is None or (isinstance(best, NLeaf) and not isinstance(d, NLeaf)):
                best = d
        if best is None:
            best = NLeaf(1)
        for d in sizes:
            if d is not best:
                s1, s2 = d.size(), best.size()
                if s1 is not s2:
                    ENG.require(eq(s1, s2), "array shapes match")
        doms.append(best)

    def fn(*paths):
        ts = []
        for a in arrs:
            idx = []
            for j, d in enumerate(a.doms):
                ax = j + nd - a.ndim
                if is_one(d) and not is_one(doms[ax]):
                    idx.append(ZERO)
                else:
                    idx.append(Ix(doms[ax], paths[ax]))
            ts.append(a.get(*idx))
        return f(*ts)

    return Arr(doms, fn, kind or join_kind([a.kind for a in arrs]))


def join_kind(kinds):
    for k in ("f", "i", "b"):
        if k in kinds:
            return k
    return "f"


# ------------------------------------------------------------------ sequences


class Item:
    def __init__(self, value):
        self.value = value

    def sub(self, m):
        return Item(subval(self.value, m))


class Comp:
    """For k < n, the nodes fn(k)."""

    def __init__(self, n, fn: Callable[[Term], list], source=()):
        self.n, self.fn = lift(n), fn
        self._memo: Dict[int, list] = {}
        self.source = source  # whose elements these are, if they are lists of another sequence

    @property
    def shares(self):
        return self.source or (self,)

    def at(self, k: Term):
        k = lift(k)
        r = self._memo.get(k.id)
        if r is None:
            r = self._memo[k.id] = self.fn(k)
        return r

    def sub(self, m):
        return Comp(subst(self.n, m), lambda k: [x.sub(m) for x in self.at(k)])

    def single(self):
        """True if every k gives exactly one item."""
        r = self.at(fresh("k"))
        return len(r) == 1 and isinstance(r[0], Item)


class Prefix:
    """Contents of a mutable sequence before the current loop iteration (opaque)."""

    def __init__(self, base):
        self.base = base
        self.length: Optional[Term] = None

    def sub(self, m):
        return self


def parts_len(parts) -> Term:
    out = ZERO
    for p in parts:
        if isinstance(p, Item):
            out = add(out, ONE)
        elif isinstance(p, Comp):
            s = fresh("k")
            out = add(out, mk_sum([(s, p.n)], parts_len(p.at(s))))
        elif isinstance(p, Prefix) and p.length is not None:
            out = add(out, p.length)
        else:
            raise Unsupported("length of a list under construction")
    return out


def parts_map(parts, f):
    out = []
    for p in parts:
        if isinstance(p, Item):
            out.append(Item(f(p.value)))
        elif isinstance(p, Comp):
            out.append(Comp(p.n, lambda k, p=p: parts_map(p.at(k), f), p.shares))
        else:
            raise Unsupported("a list under construction")
    return out


# Comp -> sequences that contain its elements
HOLDERS = weakref.WeakKeyDictionary()


class Seq:
    """list / tuple / keys view / ... with parts."""

    def __init__(self, parts, kind="list"):
        self.parts = list(parts)
        self.kind = kind
        self.depth = ENG.depth if hasattr(ENG, "depth") else 0
        if kind != "generator":
            for p in self.parts:
                for c in getattr(p, "shares", ()):
                    HOLDERS.setdefault(c, weakref.WeakSet()).add(self)

    def length(self):
        return parts_len(self.parts)

    def is_concrete(self):
        return all(isinstance(p, Item) for p in self.parts)

    def items(self):
        return [p.value for p in self.parts]

    def sub(self, m):
        s = Seq([p.sub(m) for p in self.parts], self.kind)
        s.derived = True
        return s

    def __repr__(self):
        return f"{self.kind}{self.parts if not self.is_concrete() else self.items()}"


class SDict:
    """Insertion-ordered dictionary; entries are Items of (key, value) pairs."""

    def __init__(self, parts, kind="dict"):
        self.parts = list(parts)
        self.kind = kind
        self.depth = ENG.depth if hasattr(ENG, "depth") else 0
        self.factory = None
        self.log: Optional[list] = None  # pending effects inside a loop
        self.tag = None  # names the mapping of a frozen dictionary

    def sub(self, m):
        d = SDict([p.sub(m) for p in self.parts], self.kind)
        d.factory = self.factory
        d.derived = True
        d.tag = None if self.tag is None else subst(self.tag, m)
        return d

    def keys(self):
        return Seq(parts_map(self.parts, lambda kv: kv[0]), "keys")

    def values(self):
        return Seq(parts_map(self.parts, lambda kv: kv[1]), "values")

    def items_(self):
        return Seq(parts_map(self.parts, lambda kv: kv), "items")


class SSet:
    def __init__(self, seq):
        self.seq = seq

    def sub(self, m):
        return SSet(self.seq.sub(m))


class Obj:
    """Instance of a real (data)class with symbolic fields."""

    def __init__(self, cls, fields: Dict[str, Any], tag=None):
        self.cls = cls
        self.fields = dict(fields)
        self.tag = tag
        self.depth = ENG.depth if hasattr(ENG, "depth") else 0

    def sub(self, m):
        return Obj(self.cls, {k: subval(v, m) for k, v in self.fields.items()}, self.tag)

    def __repr__(self):
        return f"{self.cls.__name__}({', '.join(self.fields)})"


class Abstract:
    """An object known only through its contract: attributes answered by a handler class."""

    kind = "abstract"

    def getattr(self, name):
        raise Unsupported(f"{type(self).__name__}.{name}")

    def sub(self, m):
        return self


class Batched:
    """Result of vmap: for every r < n a value."""

    def __init__(self, n, fn):
        self.n, self.fn = lift(n), fn
        self._memo = {}

    def at(self, r):
        r = lift(r)
        if r.id not in self._memo:
            self._memo[r.id] = self.fn(r)
        return self._memo[r.id]

    def sub(self, m):
        return Batched(subst(self.n, m), lambda r: subval(self.at(r), m))


class Fn:
    """A callable implemented by the verifier."""

    def __init__(self, fn, name="fn"):
        self.fn, self.name = fn, name

    def sub(self, m):
        return self

    def __repr__(self):
        return f"<{self.name}>"


class Poison:
    """Variable whose value after a loop is not modelled."""

    def __init__(self, why):
        self.why = why

    def sub(self, m):
        return self


def subval(v, m):
    """Substitute symbols inside a value."""
    if isinstance(v, Term):
        return subst(v, m)
    if hasattr(v, "sub") and not isinstance(v, type):
        return v.sub(m)
    if isinstance(v, tuple):
        return type(v)(*[subval(x, m) for x in v]) if hasattr(v, "_fields") else tuple(subval(x, m) for x in v)
    if isinstance(v, slice):
        return slice(subval(v.start, m), subval(v.stop, m), subval(v.step, m))
    return v
