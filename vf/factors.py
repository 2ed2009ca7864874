"""Factors, noise models and stacked factor graphs as the verifier sees them.

A graph is made from factors 0 .. N-1.  Factor k has
  td(k)        tree structure once its variables are replaced by canonical ones; fixes its class, the
               number nv(td) and the types vt(td, i) of its variables, and its number of leaves
  shapes(k)    shapes of its leaves; with td they fix the residual dimension rd(td, shapes)
  fvar(k, i)   its variables
  res(k, x, r), jac(k, x, i, r, c)     residual and Jacobians at the values x
  white(k, w, r), whitej(k, J, w, r, c)  its noise model
None of these depends on the variables themselves, only on their values.
"""
from . import ir, models, prove, structure, vals
from .interp import Bound, StarSeq
from .ir import ONE, ZERO, Term, add, and_, app, eq, fresh, implies, is_app, lam, le, lt, mk_sum, mul, sub, sym
from .models import require_equal, to_arr
from .structure import BASE, SymVal, Var, VarType, dim_of, ld, pd, tyof
from .vals import Abstract, Arr, Batched, Comp, Fn, Item, NComp, NLeaf, Obj, Seq, Unsupported, engine, flat_arr

N = sym("factors")


def td(k):
    return app("td", [k], "TreeDef")


def shapes(k):
    return app("shapes", [k], "Shapes")


def nv(t):
    return app("nv", [t], "I")


def vt(t, i):
    return app("vt", [t, i], "Ty")


def rd(t, s):
    return app("rd", [t, s], "I")


def fvar(k, i):
    return app("fvar", [k, i], "Var")


prove.NONNEG.update(("nv", "rd", "leafsize", "leaves"))


@prove.axiom("nv")
def _nv(args, t):
    return [le(ONE, t)]


@prove.axiom("rd")
def _rd(args, t):
    return [le(ONE, t)]


for _f in ("leaves", "leafsize"):
    prove.axiom(_f)(lambda args, t: [le(ZERO, t)])


@ir.rule("tyof")
def _tyof(args):
    (v,) = args
    if is_app(v, "fvar"):
        return vt(td(v.args[1][0]), v.args[1][1])
    return None


class TreeDef(Abstract):
    def __init__(self, t):
        self.t = t

    def as_term(self):
        return self.t

    @staticmethod
    def from_term(t):
        return TreeDef(t)

    def sub(self, m):
        return TreeDef(ir.subst(self.t, m))

    def eq(self, eng, other):
        return eq(self.t, other.t) if isinstance(other, TreeDef) and other.t.sort == self.t.sort else False


class LeafAttr(Abstract):
    """Shape (or another attribute) of leaf l of factor k; () for a leaf without it."""

    def __init__(self, name, k, l):
        self.name, self.k, self.l = name, k, l

    def sub(self, m):
        return LeafAttr(self.name, ir.subst(self.k, m), ir.subst(self.l, m))

    def seq_key(self, s, n):
        if self.l is not s or n is not app("leaves", [td(self.k)], "I"):
            return None
        return shapes(self.k) if self.name == "shape" else app("leaves_" + self.name, [self.k], "Leaves_" + self.name)

    def merge(self, eng, c, other):
        if other == () and c is app("has_" + self.name, [td(self.k), self.l], "B"):
            return self
        raise Unsupported("choice between attributes of leaves")


class Leaf(Abstract):
    def __init__(self, k, l):
        self.k, self.l = k, l

    def sub(self, m):
        return Leaf(ir.subst(self.k, m), ir.subst(self.l, m))

    def hasattr(self, name):
        return app("has_" + name, [td(self.k), self.l], "B")

    def getattr(self, name):
        if name in ("shape", "ndim", "size", "dtype"):
            engine().require(self.hasattr(name), f"leaf has the attribute {name}")
            return LeafAttr(name, self.k, self.l)
        return super().getattr(name)


class Hinted(str):
    """Kind of the container that build_variable_value_tuple makes, as named by the factor's type hint; carried along by maps over it."""


def hinted(eng, values):
    if isinstance(values, tuple):
        values = Seq([Item(x) for x in values], "tuple")
    if not isinstance(values, Seq):
        raise Unsupported(f"values of type {type(values).__name__}")
    if values.kind != "tuple" and not isinstance(values.kind, Hinted):
        eng.fail("build_variable_value_tuple gets a tuple", f"a {values.kind}")
    return Seq(values.parts, Hinted("tuple"))


def values_key(eng, k, values):
    """The values passed to factor k, as a term."""
    t = td(k)
    if not isinstance(getattr(values, "kind", None), Hinted):
        eng.fail("factor gets its values in the container its type hint names", f"{values}: not made by build_variable_value_tuple")
    if isinstance(values, tuple):
        values = Seq([Item(x) for x in values], "tuple")
    if not isinstance(values, Seq):
        raise Unsupported(f"values of type {type(values).__name__}")
    eng.require(eq(values.length(), nv(t)), "factor gets one value per variable")
    i = fresh("i")
    eng.generic[i] = [le(ZERO, i), lt(i, nv(t))]
    with eng.assuming(*eng.generic[i]):
        x = models.seq_index(eng, values, i)
        if not isinstance(x, SymVal):
            raise Unsupported("factor applied to another kind of value")
        eng.require(eq(x.ty, vt(t, i)), "value has the type of the variable at its position")
        b = app("flatval", [x.flat.lam()], "Val")
    return app("vals", [nv(t), lam(i, b)], "Vals")


class Factor(Abstract):
    def __init__(self, k, anon=False):
        self.k, self.anon = k, anon

    def sub(self, m):
        return Factor(ir.subst(self.k, m), self.anon)

    def __repr__(self):
        return f"Factor({self.k}{', anonymous' if self.anon else ''})"

    @property
    def dim(self):
        return rd(td(self.k), shapes(self.k))

    def variables(self):
        t, k = td(self.k), self.k
        return Seq([Comp(nv(t), lambda i: [Item(Var(app("canonical", [vt(t, i)], "Var") if self.anon else fvar(k, i)))])], "tuple")

    def residual(self, eng, values):
        key = values_key(eng, self.k, values)
        return flat_arr(self.dim, lambda r: app("res", [self.k, key, r], "R"))

    def jacobians(self, eng, values):
        key, k, t = values_key(eng, self.k, values), self.k, td(self.k)
        n = self.dim

        def block(i):
            return [Item(Arr([NLeaf(n), NLeaf(ld(vt(t, i)))], lambda r, c: app("jac", [k, key, i, r[0], c[0]], "R")))]

        return Seq([Comp(nv(t), block)], "tuple")

    def getattr(self, name):
        from jaxfg.core import FactorBase

        if name == "variables":
            return self.variables()
        if name == "noise_model":
            return Noise(self.k)
        if name == "__class__":
            return FactorClass(td(self.k))
        if name == "compute_residual_vector":
            return Fn(lambda variable_values: self.residual(engine(), variable_values), name)
        if name == "compute_residual_jacobians":
            return Fn(lambda variable_values: self.jacobians(engine(), variable_values), name)
        if name == "build_variable_value_tuple":
            return Fn(lambda variable_values: hinted(engine(), variable_values), name)
        if name in ("anonymize_variables", "get_residual_dim", "get_variable_values_from_assignments"):
            return Bound(FactorBase.__dict__[name], self)
        raise Unsupported(f"factor attribute {name}")

    def isinstance(self, eng, t):
        from jaxfg.core import FactorBase

        if t in (FactorBase, object):
            return True
        raise Unsupported("isinstance of a factor")

    def replace(self, eng, **kw):
        if set(kw) != {"variables"}:
            raise Unsupported("replace of a factor's fields")
        want = Factor(self.k, True)
        require_equal(eng, kw["variables"], want.variables(), "replaced variables are the canonical ones")
        return want

    def tree_structure(self, eng):
        return TreeDef(td(self.k) if self.anon else app("fulltd", [self.k], "FullTreeDef"))

    def tree_leaves(self, eng):
        return Seq([Comp(app("leaves", [td(self.k)], "I"), lambda l: [Item(Leaf(self.k, l))])], "list")

    def tree_map_seq(self, eng, f, seq):
        c = seq.parts[0]
        if len(seq.parts) != 1 or not isinstance(c, Comp) or not c.single():
            raise Unsupported("tree_map over these factors")
        r = fresh("r")
        eng.generic[r] = [le(ZERO, r), lt(r, c.n)]
        first = c.at(ZERO)[0].value
        eng.require(lt(ZERO, c.n), "at least one factor is stacked")
        with eng.assuming(*eng.generic[r]):
            x = c.at(r)[0].value
            if not x.anon:
                return eng.fail("stacked factors have the same tree structure", "their variables differ")
            eng.require(eq(td(x.k), td(first.k)), "stacked factors have the same tree structure")
            eng.require(eq(shapes(x.k), shapes(first.k)), "stacked factors have leaves of the same shape")
        # the mapped function stacks leaves of any rank
        l = fresh("l")
        for rank in range(3):
            size = app("leafsize", [td(first.k), shapes(first.k), l], "I")

            def leaf(q):
                k = c.at(q)[0].value.k
                return Arr([NLeaf(size)] * rank, lambda *ix: app(f"leaf{rank}", [k, l, *[p[0] for p in ix]], "R"))

            got = eng.call(f, [StarSeq(Seq([Comp(c.n, lambda q: [Item(leaf(q))])], "tuple"))], {})
            want = Arr([NLeaf(c.n)] + [NLeaf(size)] * rank, lambda p, *ix: app(f"leaf{rank}", [c.at(p[0])[0].value.k, l, *[q[0] for q in ix]], "R"))
            require_equal(eng, got, want, f"leaves of rank {rank} are stacked along a new first axis")
        return Stack(c.n, lambda q: c.at(q)[0].value.k)


class FactorClass(Abstract):
    def __init__(self, t):
        self.t = t

    def as_term(self):
        return app("facclass", [self.t], "Class")

    @staticmethod
    def from_term(t):
        return models.KeyVal(t)

    def sub(self, m):
        return FactorClass(ir.subst(self.t, m))

    def eq(self, eng, other):
        return eq(self.as_term(), other.as_term()) if isinstance(other, FactorClass) else False

    def getattr(self, name):
        from jaxfg.core import FactorBase

        def method(self_, *args, **kw):
            if not isinstance(self_, Factor):
                raise Unsupported("method of a factor class on another object")
            engine().require(eq(td(self_.k), self.t), "method belongs to the factor's class")
            return engine().call(self_.getattr(name), list(args), kw)

        if name in ("compute_residual_vector", "compute_residual_jacobians", "get_residual_dim", "build_variable_value_tuple", "anonymize_variables"):
            return Fn(method, name)
        if name in ("__name__", "__qualname__"):
            return "Factor"
        raise Unsupported(f"factor class attribute {name}")


class Noise(Abstract):
    def __init__(self, k):
        self.k = k

    def sub(self, m):
        return Noise(ir.subst(self.k, m))

    @property
    def dim(self):
        return rd(td(self.k), shapes(self.k))

    def getattr(self, name):
        k = self.k
        if name == "get_residual_dim":
            return Fn(lambda: self.dim, name)
        if name == "__class__":
            return NoiseClass(td(k))
        if name == "whiten_residual_vector":

            def whiten(residual_vector):
                w = to_arr(residual_vector)
                if w.ndim != 1:
                    return engine().fail("residual passed to the noise model is a vector", f"rank {w.ndim}")
                engine().require(eq(w.doms[0].size(), self.dim), "residual has the dimension of the noise model")
                t = w.lam()
                return flat_arr(self.dim, lambda r: app("white", [k, t, r], "R"))

            return Fn(whiten, name)
        if name == "whiten_jacobian":

            def whitenj(jacobian, residual_vector):
                J, w = to_arr(jacobian), to_arr(residual_vector)
                if J.ndim != 2 or w.ndim != 1:
                    return engine().fail("Jacobian passed to the noise model is a matrix, the residual a vector", f"rank {J.ndim}, {w.ndim}")
                engine().require(eq(J.doms[0].size(), self.dim), "Jacobian has one row per residual entry")
                engine().require(eq(w.doms[0].size(), self.dim), "residual has the dimension of the noise model")
                tJ, tw = J.lam(), w.lam()
                return Arr(J.doms, lambda r, c: app("whitej", [k, tJ, tw, r[0], J.doms[1].offset(c)], "R"))

            return Fn(whitenj, name)
        raise Unsupported(f"noise model attribute {name}")


class NoiseClass(Abstract):
    def __init__(self, t):
        self.t = t

    def sub(self, m):
        return NoiseClass(ir.subst(self.t, m))

    def getattr(self, name):
        def method(self_, *args, **kw):
            if not isinstance(self_, Noise):
                raise Unsupported("method of a noise model class on another object")
            engine().require(eq(td(self_.k), self.t), "method belongs to the noise model's class")
            return engine().call(self_.getattr(name), list(args), kw)

        if name in ("whiten_residual_vector", "whiten_jacobian", "get_residual_dim"):
            return Fn(method, name)
        raise Unsupported(f"noise model class attribute {name}")


class Stack(Abstract):
    """Factors fn(0) .. fn(n-1) with their leaves stacked."""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def sub(self, m):
        s = fresh("q")
        k = ir.subst(self.fn(s), m)
        return type(self)(ir.subst(self.n, m), lambda q: ir.subst(k, {s: q}))

    def leading(self, eng):
        return [self.n]

    def row(self, eng, r):
        return Factor(self.fn(r), True)

    @property
    def first(self):
        return Factor(self.fn(ZERO), True)

    def tree_map(self, eng, f, *vs):
        """Only functions that select one row of every leaf."""
        if len(vs) != 1:
            raise Unsupported("tree_map over several stacks")
        l, a, rows = fresh("l"), fresh("a"), []
        size = app("leafsize", [td(self.fn(ZERO)), shapes(self.fn(ZERO)), l], "I")
        for rank in (1, 2):
            arr = Arr([NLeaf(self.n)] + [NLeaf(size)] * (rank - 1), lambda r, *ix: app("leafrow", [r[0], *[q[0] for q in ix]], "R"))
            got = eng.call(f, [arr], {})
            t = models.norm(got) if rank == 1 else got.get(a) if isinstance(got, Arr) and got.ndim == 1 else None
            if not is_app(t, "leafrow") or list(t.args[1][1:]) != [a][: rank - 1]:
                raise Unsupported("tree_map over stacked leaves")
            rows.append(t.args[1][0])
        if rows[0] is not rows[1]:
            raise Unsupported("tree_map over stacked leaves")
        return self.row(eng, rows[0])

    def getattr(self, name):
        if name == "noise_model":
            return NoiseStack(self.n, self.fn)
        if name in ("variables", "__class__", "build_variable_value_tuple"):
            return self.first.getattr(name)
        if name == "get_residual_dim":
            from jaxfg.core import FactorBase

            return Bound(FactorBase.__dict__[name], self)
        raise Unsupported(f"stacked factor attribute {name}")

    def require_equal(self, eng, got, what):
        if type(got) is not type(self):
            return eng.fail(what, f"expected stacked factors, got {got}")
        eng.require(eq(got.n, self.n), f"{what}: number of factors")
        r = fresh("r")
        eng.generic[r] = [le(ZERO, r), lt(r, self.n)]
        with eng.assuming(*eng.generic[r]):
            eng.require(eq(got.fn(r), self.fn(r)), f"{what}: stacked in order")


class NoiseStack(Stack):
    def row(self, eng, r):
        return Noise(self.fn(r))

    def getattr(self, name):
        if name in ("__class__", "get_residual_dim"):
            return Noise(self.fn(ZERO)).getattr(name)
        k0, fn = self.fn(ZERO), self.fn
        d = NLeaf(rdim(k0))
        if name == "sqrt_precision_matrix":
            engine().require(noise_kind(k0, "Gaussian"), "field belongs to the noise model")
            return Arr([NLeaf(self.n), d, d], lambda r, a, b: app("sqrtP", [fn(r[0]), a[0], b[0]], "R"))
        if name == "sqrt_precision_diagonal":
            engine().require(noise_kind(k0, "DiagonalGaussian"), "field belongs to the noise model")
            return Arr([NLeaf(self.n), d], lambda r, a: app("sqrtp", [fn(r[0]), a[0]], "R"))
        raise Unsupported(f"stacked noise model attribute {name}")

    def isinstance(self, eng, t):
        from jaxfg import noises

        if t in (object, noises.NoiseModelBase):
            return True
        if isinstance(t, tuple):
            return ir.or_(*[ir.as_bool(self.isinstance(eng, q)) if not isinstance(q, Term) else q for q in t])
        if t in (noises.Gaussian, noises.DiagonalGaussian, noises.HuberWrapper):
            return noise_kind(self.fn(ZERO), t.__name__)
        raise Unsupported("isinstance of a noise model")


def noise_kind(k, name):
    """Factor k has a noise model of this class; its tree structure fixes which."""
    return app("noise:" + name, [td(k)], "B")


for _a in ("Gaussian", "DiagonalGaussian", "HuberWrapper"):
    prove.axiom("noise:" + _a)(lambda args, t, a=_a: [ir.not_(and_(t, app("noise:" + b, args, "B"))) for b in ("Gaussian", "DiagonalGaussian", "HuberWrapper") if b != a])


# ------------------------------------------------------------------ graphs


def factor_list(kind="list"):
    return Seq([Comp(N, lambda k: [Item(Factor(k))])], kind)


class Member:
    """A list of n factors k(0) .. k(n-1) with the same tree structure and leaf shapes."""

    def __init__(self, name):
        self.n = sym(name + "_size")
        self.t, self.s = sym(name + "_tree", "TreeDef"), sym(name + "_shapes", "Shapes")
        MEMBERS[name] = self
        self.name = name

    def fn(self, r):
        return app("member:" + self.name, [r], "I")

    def seq(self):
        return Seq([Comp(self.n, lambda r: [Item(Factor(self.fn(r)))])], "list")


MEMBERS = {}


def _member_of(k):
    return MEMBERS.get(k.args[0][7:]) if k.op == "app" and k.args[0].startswith("member:") else None


@ir.rule("td")
def _td(args):
    m = _member_of(args[0])
    return m.t if m is not None else None


@ir.rule("shapes")
def _shapes(args):
    m = _member_of(args[0])
    return m.s if m is not None else None


def rdim(k):
    return rd(td(k), shapes(k))


def stack_spec(n, fn, S):
    """FactorStack of the factors fn(0) .. fn(n-1) for the layout of S."""
    from jaxfg.core import FactorStack

    def indices(i):
        ty = vt(td(fn(ZERO)), i)
        return [Item(Arr([NLeaf(n), NLeaf(pd(ty))], lambda r, c: add(structure.index(S, False, fvar(fn(r[0]), i)), c[0]), "i"))]

    return Obj(
        FactorStack,
        dict(
            num_factors=n,
            factor=Stack(n, fn),
            value_indices=Seq([Comp(nv(td(fn(ZERO))), indices)], "tuple"),
            storage_layout=structure.layout(S, False),
        ),
    )


def coords_spec(n, fn, S, offset):
    """Coordinates of the Jacobian blocks, one array pair per variable."""
    from jaxfg.sparse import SparseCooCoordinates

    k0 = fn(ZERO)

    def one(i):
        ty = vt(td(k0), i)
        dom = NComp(n, lambda r: NComp(rdim(k0), lambda a: NLeaf(ld(ty))))
        rows = Arr([dom], lambda p: add(offset, mul(p[0], rdim(k0)), p[1]), "i")
        cols = Arr([dom], lambda p: add(structure.index(S, True, fvar(fn(p[0]), i)), p[2]), "i")
        return [Item(Obj(SparseCooCoordinates, dict(rows=rows, cols=cols)))]

    return Seq([Comp(nv(td(k0)), one)], "list")


def values_at(k, value):
    """The values of factor k's variables, in its order; value(v) is a vector."""
    i = fresh("i")
    engine().generic[i] = [le(ZERO, i), lt(i, nv(td(k)))]
    with engine().assuming(*engine().generic[i]):
        b = app("flatval", [value(fvar(k, i)).lam()], "Val")
    return app("vals", [nv(td(k)), lam(i, b)], "Vals")


def residual_at(k, value):
    key = values_at(k, value)
    return flat_arr(rdim(k), lambda a: app("res", [k, key, a], "R"))


def jacobian_at(k, i, value):
    key = values_at(k, value)
    return Arr([NLeaf(rdim(k)), NLeaf(ld(vt(td(k), i)))], lambda a, c: app("jac", [k, key, i, a[0], c[0]], "R"))


def whitened_at(k, value):
    w = residual_at(k, value).lam()
    return flat_arr(rdim(k), lambda a: app("white", [k, w, a], "R"))


class Grouping:
    """Grouping T of the factors 0 .. N-1."""

    def __init__(self, T):
        self.T = T
        self.n = app("gn", [T], "I")

    def cnt(self, g):
        return app("gcnt", [self.T, g], "I")

    def mem(self, g, r):
        return app("gmem", [self.T, g, r], "I")

    def start(self, g):
        """First residual row of group g."""
        w = fresh("g")
        return mk_sum([(w, g)], mul(self.cnt(w), rdim(self.mem(w, ZERO))))

    def rows(self):
        return NComp(self.n, lambda g: NComp(self.cnt(g), lambda r: NLeaf(rdim(self.mem(g, ZERO)))))


def grouping():
    """The factors grouped by tree structure and leaf shapes."""
    k = fresh("k")
    T = app("grouping", [N, lam(k, app("tuple", [td(k), shapes(k)], "Key"))], "Key")
    models._group_flat(engine(), N, k, models.BucketApp((TreeDef(td(k)), models.KeyVal(shapes(k))), Factor(k)))
    return Grouping(T)


def variable_set():
    """All variables of the factors, in order of first use."""
    k, i = fresh("k"), fresh("i")
    parts = models.ordered_set(engine(), [(k, N), (i, nv(td(k)))], fvar(k, i), Var(fvar(k, i)))
    return parts[0].at(ZERO)[0].value[0].v.args[1][0]


def graph_spec(G, S):
    from jaxfg.core import StackedFactorGraph
    from jaxfg.sparse import SparseCooCoordinates

    def dom(g):
        k0 = G.mem(g, ZERO)
        return NComp(nv(td(k0)), lambda i: NComp(G.cnt(g), lambda r: NComp(rdim(k0), lambda a: NLeaf(ld(vt(td(k0), i))))))

    d = NComp(G.n, dom)
    rows = Arr([d], lambda p: add(G.start(p[0]), mul(p[2], rdim(G.mem(p[0], ZERO))), p[3]), "i")
    cols = Arr([d], lambda p: add(structure.index(S, True, fvar(G.mem(p[0], p[2]), p[1])), p[4]), "i")
    return Obj(
        StackedFactorGraph,
        dict(
            factor_stacks=Seq([Comp(G.n, lambda g: [Item(stack_spec(G.cnt(g), lambda r: G.mem(g, r), S))])], "list"),
            jacobian_coords=Obj(SparseCooCoordinates, dict(rows=rows, cols=cols)),
            storage_layout=structure.layout(S, False),
            local_storage_layout=structure.layout(S, True),
            residual_dim=G.start(G.n),
        ),
    )


def _group(eng, factors, S, what):
    """(n, fn) of a list of factors that satisfies the precondition of stacking."""
    parts = eng.iter_parts(factors)
    if len(parts) != 1 or not isinstance(parts[0], Comp) or not parts[0].single():
        raise Unsupported("list of factors")
    c, r, i = parts[0], fresh("r"), fresh("i")
    eng.require(lt(ZERO, c.n), f"{what}: at least one factor")
    fn = lambda q: c.at(q)[0].value.k
    eng.generic[r] = [le(ZERO, r), lt(r, c.n)]
    B = BASE.get(S.id)
    with eng.assuming(*eng.generic[r]):
        if not isinstance(c.at(r)[0].value, Factor) or c.at(r)[0].value.anon:
            raise Unsupported("list of factors")
        eng.require(eq(td(fn(r)), td(fn(ZERO))), f"{what}: factors have the same tree structure")
        eng.require(eq(shapes(fn(r)), shapes(fn(ZERO))), f"{what}: leaves have the same shapes")
        eng.generic[i] = [le(ZERO, i), lt(i, nv(td(fn(r))))]
        with eng.assuming(*eng.generic[i]):
            eng.require(structure.mem(B, fvar(fn(r), i)), f"{what}: the layout has the factors' variables")
    return c.n, fn


def stack_stub(eng, factors, storage_layout, use_onp):
    S, local = structure.structure_of(storage_layout)
    if local:
        return eng.fail("FactorStack.make: layout of values", "layout of deltas")
    return stack_spec(*_group(eng, factors, S, "FactorStack.make"), S)


def coords_stub(eng, factors, local_storage_layout, row_offset):
    S, local = structure.structure_of(local_storage_layout)
    if not local:
        return eng.fail("compute_jacobian_coords: layout of deltas", "layout of values")
    return coords_spec(*_group(eng, factors, S, "compute_jacobian_coords"), S, models.pynum(row_offset) if not isinstance(row_offset, Term) else row_offset)
