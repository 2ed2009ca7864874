"""Value structures of variables: trees with any number of leaves.

The leaves of a structure, in flattening order, are three runs of any length (at least one leaf):
vectors, scalars and matrices of any shape.  ravel_pytree, tree_leaves and tree_map are used by their documentation (row
major, leaves in flattening order).  jacfwd is evaluated by running the function on a symbolic argument
and differentiating the elements of the result; the derivative of an unknown function is the term D.
"""
import jax
from jax import flatten_util

from . import ir, library
from .interp import model
from .ir import ONE, ZERO, Term, add, app, const, eq, fresh, ind, is_app, is_const, ite, lam, le, lt, mk_sum, mul, sym
from .models import flatten, is_arrayish, norm, pynum, require_parts, reshape, to_arr
from .vals import Abstract, Arr, Comp, Fn, Item, Ix, NComp, NLeaf, NSeq, Seq, Unsupported, engine, subval

RANKS = (1, 0, 2)


class Structure:
    """Tree structure with leaf shapes, of the type named by a term."""

    def __init__(self, ty):
        self.ty = ty

    def count(self, g):
        return app(f"leaves{g}", [self.ty], "I")

    def dims(self, g, l):
        return [app(f"dim{g}{a}", [self.ty, l], "I") for a in range(RANKS[g])]

    def value(self, fn):
        """Tree with elements fn(g, l, indices)."""
        return Tree(self, [
            Comp(self.count(g), lambda l, g=g: [Item(norm(Arr([NLeaf(d) for d in self.dims(g, l)], lambda *p: fn(g, l, [x[0] for x in p]))))])
            for g in range(len(RANKS))
        ])

    def named(self, name):
        return self.value(lambda g, l, idx: app(name, [const(g), l, *idx], "R"))

    def sub(self, m):
        return Structure(ir.subst(self.ty, m))

    def total(self):
        out = ZERO
        for g in range(len(RANKS)):
            l = fresh("l")
            out = add(out, mk_sum([(l, self.count(g))], mul(*self.dims(g, l), ONE)))
        return out

    def offset(self, g, l, idx):
        """Position of an element in the flattened value."""
        out = ZERO
        for h in range(g + 1):
            k = fresh("l")
            out = add(out, mk_sum([(k, l if h == g else self.count(h))], mul(*self.dims(h, k), ONE)))
        t = ZERO
        for d, i in zip(self.dims(g, l), idx):
            t = add(mul(t, d), i)
        return add(out, t)

    def flat(self, fn):
        """Flattened tree with elements fn(g, l, indices)."""

        def shape(g, l):
            ds = [NLeaf(d) for d in self.dims(g, l)] or [NLeaf(1)]
            for outer in reversed(ds[:-1]):
                ds = ds[:-2] + [NComp(outer.n, lambda k, inner=ds[-1]: inner)]
            return ds[0]

        dom = NSeq([NComp(self.count(g), lambda l, g=g: shape(g, l)) for g in range(len(RANKS))])
        return Arr([dom], lambda p: fn(p[0], p[1], list(p[2 : 2 + RANKS[p[0]]])))


def _nonneg(args, t):
    return [le(ZERO, t)]


def _some_leaf(args, t):
    return [le(ZERO, t), lt(ZERO, add(*[app(f"leaves{g}", args, "I") for g in range(len(RANKS))]))]


from .prove import axiom  # noqa: E402

for _g, _r in enumerate(RANKS):
    axiom(f"leaves{_g}")(_some_leaf)
    for _a in range(_r):
        axiom(f"dim{_g}{_a}")(_nonneg)


class Tree(Abstract):
    def __init__(self, structure, parts):
        self.structure, self.parts = structure, parts

    def sub(self, m):
        return Tree(self.structure.sub(m), [p.sub(m) for p in self.parts])

    def tree_leaves(self, eng):
        return Seq(list(self.parts), "list")

    def tree_map(self, eng, f, *vs):
        if not all(isinstance(v, Tree) and v.structure.ty is self.structure.ty for v in vs):
            raise Unsupported("tree_map over different structures")
        zipped = library._zip_parts(eng, [v.parts for v in vs])
        return Tree(self.structure, library._map_parts(eng, Fn(lambda t: eng.call(f, list(t), {})), zipped))

    def isinstance(self, eng, t):
        raise Unsupported("type of a value")

    def require_equal(self, eng, got, what):
        if not isinstance(got, Tree):
            return eng.fail(what, f"expected a value, got {got}")
        eng.require(eq(got.structure.ty, self.structure.ty), f"{what}: structure")
        require_parts(eng, got.parts, self.parts, what)


# ------------------------------------------------------------------ values as terms


def value_term(v) -> Term:
    """The whole value as one term."""
    if is_arrayish(v):
        a = to_arr(v)
        return a.lam() if a.ndim else a.at_path()
    return app("value", [_part_term(p) for p in value_parts(v)], "Value")


def value_parts(v):
    if isinstance(v, Tree):
        return v.parts
    if isinstance(v, Seq):
        return v.parts
    if isinstance(v, tuple):
        return [Item(x) for x in v]
    raise Unsupported(f"a {type(v).__name__} in a value")


def _part_term(p):
    if isinstance(p, Item):
        return value_term(p.value)
    k = fresh("k")
    eng = engine()
    eng.generic[k] = [le(ZERO, k), lt(k, p.n)]
    with eng.assuming(*eng.generic[k]):
        t = app("items", [_part_term(q) for q in p.at(k)], "Value")
    return app("many", [p.n, lam(k, t)], "Value")


def _over(v, f, prefix=()):
    """Same structure with every leaf array replaced: f(array, prefix)."""
    if is_arrayish(v):
        return norm(f(to_arr(v), prefix))

    def parts(ps, prefix):
        out = []
        for i, p in enumerate(ps):
            if isinstance(p, Item):
                out.append(Item(_over(p.value, f, prefix + (const(i),))))
            else:
                out.append(Comp(p.n, lambda k, p=p, i=i: parts(p.at(k), prefix + (const(i), k))))
        return out

    new = parts(value_parts(v), prefix)
    if isinstance(v, Tree):
        return Tree(v.structure, new)
    if isinstance(v, Seq):
        return Seq(new, v.kind)
    return type(v)(*[p.value for p in new]) if hasattr(v, "_fields") else tuple(p.value for p in new)


def element(v, idx):
    """Element of a value at a full index."""
    idx = list(idx)
    if is_arrayish(v):
        return to_arr(v).get(*idx)
    ps = value_parts(v)
    while True:
        p = ps[int(ir.cval(idx.pop(0)))]
        if isinstance(p, Item):
            return element(p.value, idx)
        ps = p.at(idx.pop(0))


# ------------------------------------------------------------------ flattening


@model(flatten_util.ravel_pytree)
def _ravel(eng, tree):
    one = is_arrayish(tree)
    parts = [Item(tree)] if one else _leaf_parts(tree)
    flat = library._concatenate(eng, Seq(library._map_parts(eng, Fn(lambda a: flatten(eng, a)), parts), "list"))
    dom = flat.doms[0]
    single = len(parts) == 1

    def unflatten(x):
        x = to_arr(x)
        if x.ndim != 1:
            return eng.fail("unflatten is given a vector", f"rank {x.ndim}")
        eng.require(eq(x.doms[0].size(), dom.size()), "unflatten is given a vector of the flattened length")

        def leaf(a, prefix):
            # path of the element in the concatenation
            path = [int(ir.cval(prefix[0]))] if not single else []
            path += [p if not is_const(p) else p for i, p in enumerate(prefix[1:]) if i % 2 == 0]
            inner = flatten(eng, a)

            def fn(*ps):
                flatpath = tuple(q for p in ps for q in p) if a.ndim else (ZERO,)
                return x.get(Ix(dom, tuple(path) + flatpath))

            return Arr(a.doms, fn, a.kind)

        if one:
            return norm(leaf(to_arr(tree), (ZERO,)))
        return _over(tree, leaf)

    return flat, Fn(unflatten, "unflatten")


def _leaf_parts(tree):
    if isinstance(tree, Tree):
        return tree.parts
    raise Unsupported("flattening of this value")


# ------------------------------------------------------------------ derivatives


def is_marked(t, name):
    return any(is_app(s, name) for s in ir.subterms(t))


def diff(t, name, point, j, elem):
    """Derivative of t with respect to the argument `name` in direction j, at the point."""
    if not is_marked(t, name):
        return ZERO
    if t.op == "poly":
        out = ZERO
        for m, c in ir.poly_terms(t):
            for i, (a, k) in enumerate(m):
                if not is_marked(a, name):
                    continue
                rest = [b if q != i else ir.power(a, k - 1) for q, (b, e) in enumerate(m) for b in ([ir.power(b, e)] if q != i else [b])]
                rest = [at_point(r, name, elem) for r in rest]
                out = add(out, mul(const(c * k), *rest, diff(a, name, point, j, elem)))
        return out
    if is_app(t, name):
        idx = t.args[1]
        if len(idx) != len(j):
            return ZERO
        return mul(ONE, *[ind(eq(a, b)) for a, b in zip(idx, j)])
    if t.op == "red":
        kind, bs, body = ir.red_open(t)
        if kind == "sum" and not any(is_marked(n, name) for _, n in bs):
            return mk_sum(bs, diff(body, name, point, j, elem))
    if t.op == "ite" and not is_marked(t.args[0], name):
        c, a, b = t.args
        return ite(c, diff(a, name, point, j, elem), diff(b, name, point, j, elem))
    return app("D", [t, point, *j], "R")


def at_point(t, name, elem):
    if not is_marked(t, name):
        return t
    return ir.transform(t, lambda s: elem(s.args[1]) if is_app(s, name) else s)


@model(library.get("jax.jacfwd"), library.get("jax.jacrev"), library.get("jax.jacobian"))
def _jacobian(eng, f, argnums=0, **kw):
    if kw or not isinstance(argnums, int):
        raise Unsupported("options of jacfwd")

    def run(*args):
        depth = getattr(eng, "diff_depth", 0)
        name = f"arg{depth}"
        x = args[argnums]
        point = value_term(x)
        marked = _over(x, lambda a, prefix: Arr(a.doms, lambda *p: app(name, [*prefix, *[d.offset(q) for d, q in zip(a.doms, p)]], "R"), a.kind))
        eng.diff_depth = depth + 1
        try:
            out = eng.call(f, [marked if i == argnums else a for i, a in enumerate(args)], {})
        finally:
            eng.diff_depth = depth

        def wrt(o, _):
            def leaf(a, prefix):
                def fn(*ps):
                    po, pa = ps[: o.ndim], ps[o.ndim :]
                    j = [*prefix, *[d.offset(q) for d, q in zip(a.doms, pa)]]
                    return diff(o.at_path(*po), name, point, j, lambda idx: element(x, idx))

                return Arr(o.doms + a.doms, fn, "f")

            return _over(x, leaf)

        return _map_leaves(out, wrt)

    return Fn(run, "jacobian")


def _map_leaves(v, f):
    """Like _over, for a function whose results are values."""
    if is_arrayish(v):
        return f(to_arr(v), ())

    def parts(ps):
        return [Item(_map_leaves(p.value, f)) if isinstance(p, Item) else Comp(p.n, lambda k, p=p: parts(p.at(k))) for p in ps]

    new = parts(value_parts(v))
    if isinstance(v, Tree):
        return Tree(v.structure, new)
    if isinstance(v, Seq):
        return Seq(new, v.kind)
    return tuple(p.value for p in new)
