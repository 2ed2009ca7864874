"""C19: entries of the covariance recovered from the square-root information matrix."""
import scipy.sparse

from .. import ir, linalg, models, prove
from ..interp import Text
from ..cholmod import CholFactor, Matrix
from ..ir import ONE, ZERO, add, and_, app, const, div, eq, fresh, implies, ind, is_app, le, lt, mk_sum, mul, not_, or_, sub, sym
from ..linalg import lam2
from ..models import require_equal, require_parts, to_arr
from ..structure import Abs, Var, index, layout, ld, lm, mem, start, structure, tyof
from ..vals import Abstract, Arr, Comp, Fn, Item, NLeaf, Obj, SDict, Seq, Unsupported, arr2, engine, flat_arr
from . import c10
from .c09 import M as COLS, N as ROWS, REQ, sparse_matrix

# the square-root information matrix, dimension DIM
DIM = sym("covariance_dim")


def L(i, j):
    return app("sqrtinfo", [i, j], "R")


def inverse(i, j):
    return app("matinv", [DIM, lam2(L), i, j], "R")


def sigma(i, j):
    return app("covariance", [i, j], "R")


def in_range(*ts):
    return and_(*[and_(le(ZERO, t), lt(t, DIM)) for t in ts])


@prove.axiom("sqrtinfo")
def _lower(args, t):
    i, j = args
    return [implies(lt(i, j), eq(t, ZERO)), implies(and_(eq(i, j), in_range(i)), lt(ZERO, t))]


@prove.axiom("matinv")
def _lower_inverse(args, t):
    n, f, i, j = args
    if n is not DIM or f is not lam2(L):
        return []
    return [implies(and_(lt(i, j), in_range(i, j)), eq(t, ZERO)), implies(and_(eq(i, j), in_range(i)), eq(mul(t, L(i, i)), ONE))]


@ir.rule("covariance")
def _symmetric(args):
    i, j = args
    if i.id > j.id:
        return app("covariance", [j, i], "R")
    return None


@prove.axiom("covariance")
def _congruent(args, t):
    i, j = args
    return [implies(eq(i, j), eq(t, app("covariance", [j, j], "R")))] if i is not j else []


RULES = [False]


def _products(binders, inside):
    """inverse(k, i) inverse(k, j) summed over k is covariance(i, j); L(k, i) covariance(k, j) is inverse(i, j)."""
    for k, n in binders if RULES[0] else []:
        if n is not DIM:
            continue
        fs = [(q, a, e) for q, (a, e) in enumerate(inside) if ir.occurs(k, a)]
        if any(ir.occurs(k, m) for _, m in binders):
            continue
        new = None
        if len(fs) == 1 and fs[0][2] == 2 and is_app(fs[0][1], "matinv") and fs[0][1].args[1][0] is DIM and fs[0][1].args[1][1] is lam2(L):
            _, _, a, i = fs[0][1].args[1]
            if a is k and not ir.occurs(k, i):
                new = sigma(i, i)
        elif len(fs) == 2 and all(e == 1 for _, _, e in fs):
            x, y = fs[0][1], fs[1][1]
            if is_app(x, "matinv") and is_app(y, "matinv") and x.args[1][1] is y.args[1][1] is lam2(L):
                (_, _, a, i), (_, _, b, j) = x.args[1], y.args[1]
                if a is k and b is k and not ir.occurs(k, i) and not ir.occurs(k, j):
                    new = sigma(i, j)
            for x, y in ((x, y), (y, x)):
                if is_app(x, "sqrtinfo") and is_app(y, "covariance") and x.args[1][0] is k:
                    i = x.args[1][1]
                    js = [t for t in y.args[1] if t is not k]
                    if len(js) == 1 and not ir.occurs(k, i) and not ir.occurs(k, js[0]):
                        new = inverse(i, js[0])
        if new is None:
            continue
        hit = {q for q, _, _ in fs}
        others = [p for p in binders if p[0] is not k]
        body = mul(ir._prod([f for q, f in enumerate(inside) if q not in hit]), new)
        return mk_sum(others, body) if others else body
    return None


ir.SUM_HOOKS.append(_products)


# the stored entries of a column: nnz(c) entries in rows entry_row(c, p) with values entry(c, p)


def nnz(c):
    return app("column_nnz", [c], "I")


def entry_row(c, p):
    return app("entry_row", [c, p], "I")


def entry(c, p):
    return app("entry", [c, p], "R")


@prove.axiom("column_nnz")
def _nnz(args, t):
    return [le(ZERO, t)]


@prove.axiom("entry_row")
def _entry_row(args, t):
    c, p = args
    return [implies(and_(le(ZERO, p), lt(p, nnz(c)), in_range(c)), and_(le(c, t), lt(t, DIM)))]


def _stored(binders, inside):
    """Summing over the stored entries of a column is summing over its rows."""
    for p, n in binders:
        if not is_app(n, "column_nnz"):
            continue
        c = n.args[1][0]
        row, val = entry_row(c, p), entry(c, p)
        if sum(e for a, e in inside if a is val) != 1 or any(ir.occurs(p, m) for _, m in binders):
            continue
        r = fresh("r")
        # stored rows are not above the diagonal: a row is below it if it is not on it
        below = ind(lt(c, row))
        rest = mul(*[sub(ONE, ind(eq(row, c))) if a is below else ind(eq(row, c)) if a is ind(le(row, c)) else ir._prod([(a, e)]) for a, e in inside if a is not val], ONE)
        rest = prove.replace_atom(rest, row, r)
        if ir.occurs(p, rest):
            continue
        others = [b for b in binders if b[0] is not p]
        return mk_sum(others + [(r, DIM)], mul(rest, L(r, c)))
    return None


ir.SUM_HOOKS.append(_stored)


class Column(Abstract):
    """A column of a CSC matrix."""

    def __init__(self, c):
        self.c = c

    def getattr(self, name):
        c = self.c
        if name == "indices":
            return flat_arr(nnz(c), lambda p: entry_row(c, p), "i")
        if name == "data":
            return flat_arr(nnz(c), lambda p: entry(c, p))
        if name == "nnz":
            return nnz(c)
        if name in ("tocsc", "copy"):
            return Fn(lambda *a, **kw: self, name)
        if name in ("toarray", "todense"):
            return Fn(lambda: arr2(DIM, ONE, lambda i, j: L(i, c)), name)
        raise Unsupported(f"sparse column attribute {name}")

    def sub(self, m):
        return Column(ir.subst(self.c, m))


class Stored(Abstract):
    """`indices` or `data` of a CSC matrix: column c has the part from indptr[c] to indptr[c + 1]."""

    def __init__(self, name):
        self.name = name

    def getitem(self, eng, i):
        if isinstance(i, slice) and i.step is None and is_app(i.start, "indptr") and is_app(i.stop, "indptr"):
            c = i.start.args[1][0]
            if i.stop.args[1][0] is add(c, ONE):
                eng.require(in_range(c), "column exists")
                return Column(c).getattr(self.name)
        raise Unsupported("part of the stored entries")


class Factor(Matrix):
    """The square-root information matrix, in CSC format."""

    def __init__(self):
        super().__init__(arr2(DIM, DIM, L), "square-root information matrix")

    def getattr(self, name):
        if name == "getcol":
            return Fn(self.column, name)
        if name == "diagonal":
            return Fn(lambda k=0: flat_arr(DIM, lambda i: L(i, i)) if models.pynum(k) == 0 else engine().fail("main diagonal", str(k)), name)
        if name in ("todense", "toarray"):
            return Fn(lambda: self.arr, name)
        if name == "indptr":
            return flat_arr(add(DIM, ONE), lambda i: app("indptr", [i], "I"), "i")
        if name in ("indices", "data"):
            return Stored(name)
        return super().getattr(name)

    def column(self, c):
        c = ir.lift(models.pynum(models.norm(c)))
        engine().require(in_range(c), "column exists")
        return Column(c)

    def getitem(self, eng, i):
        if isinstance(i, tuple) and len(i) == 2:
            if all(models.is_int_index(x) for x in i):
                return models.index_arr(eng, self.arr, i)
            if isinstance(i[0], slice) and i[0] == slice(None) and models.is_int_index(i[1]):
                return self.column(i[1])
        raise Unsupported("sparse matrix indexing")


class Cache(Abstract):
    """Values kept by earlier calls: every one is the covariance at its key.

    A key other than a pair of indices stands for the entry asked for when it was used: reads and
    writes are recorded, and no two entries may have the same key.
    """

    def __init__(self, asked=None, uses=None):
        self.asked, self.uses = asked, uses

    def key(self, eng, k):
        if isinstance(k, Seq):
            k = tuple(k.items())
        if isinstance(k, Text) and self.uses is not None and k.integers() is not None:
            xs, around = k.integers()
            if all(u[1] == around for u in self.uses):
                return xs, around
        xs = k if isinstance(k, tuple) else (k,)
        if not xs or not all(models.isnum(x) or isinstance(x, Arr) and not x.ndim for x in xs):
            raise Unsupported("key of the cache of values")
        xs = tuple(ir.lift(models.pynum(models.norm(x))) for x in xs)
        if any(ir.is_const(x) and ir.cval(x) < 0 for x in xs):
            raise Unsupported("key of the cache of values that is no pair of indices")
        if len(xs) != 2 or not isinstance(k, tuple):
            if self.uses is None or any(x.sort != "I" for x in xs):
                raise Unsupported("key of the cache of values")
        return xs, "pair" if len(xs) == 2 else len(xs)

    def contains(self, eng, k):
        xs, kind = self.key(eng, k)
        return app("cached" if kind == "pair" else f"cached{len(xs)}", list(xs), "B")

    def entry(self, eng, k, use):
        xs, kind = self.key(eng, k)
        if kind == "pair":
            return sigma(*xs)
        # what is in the cache differs between the two calls
        facts = [f for f in eng.ctx.facts if not any(s.op == "app" and str(s.args[0]).startswith("cached") for s in ir.subterms(f))]
        self.uses.append((use, kind, xs, facts))
        return sigma(*self.asked)

    def getitem(self, eng, k):
        eng.require(self.contains(eng, k), "the value read is in the cache")
        return self.entry(eng, k, "read")

    def setitem(self, eng, k, v):
        require_equal(eng, v, self.entry(eng, k, "kept"), "the value kept is the covariance at its key")

    def getattr(self, name):
        eng = engine()
        if name == "get":

            def get(k, default=None):
                if eng.decide(self.contains(eng, k)):
                    return self.getitem(eng, k)
                return default

            return Fn(get, name)
        raise Unsupported(f"cache of values: {name}")


def run(P):
    from jaxfg import core
    from jaxfg.experimental import SparseCovariance

    P.assume("C19: cholesky_AAt(A, ordering_method='natural').L() is the lower triangular L with positive diagonal and L L^T = A A^T; a column of a CSC matrix lists its non-zero entries (scikit-sparse, SciPy, trusted)")
    P.assume("C19: floats are treated as reals; recursion is not deeper than Python allows; the cost matrix is non-singular")
    B = sym("graph_variables", "Set")
    S = structure("graph_order", B)
    linalg.declare_invertible(DIM, L)

    def this(cache=None, lay=None):
        return Obj(SparseCovariance, dict(L=Factor(), L_diag_inv=flat_arr(DIM, lambda i: div(ONE, L(i, i))), local_storage_layout=lay or Obj(core.StorageLayout, {**layout(S, True).fields, "dim": DIM}), _value_cache=cache or Cache()))

    def begin(eng):
        RULES[0] = True
        eng.ctx.assume(le(ZERO, DIM))

    def off_diagonal(c, j):
        k = fresh("k")
        return mk_sum([(k, DIM)], mul(sub(ONE, ind(eq(k, c))), L(k, c), sigma(k, j)))

    def getitem_stub(eng, self, indices):
        i, j = (ir.lift(models.pynum(models.norm(x))) for x in models.seq_items(indices))
        eng.require(in_range(i, j), "covariance[i, j]: indices in range")
        if CALLER[0] is not None:
            c, d = CALLER[0]
            lo, hi = ir.min_(i, j), ir.max_(i, j)
            eng.require(or_(lt(c, lo), and_(eq(c, lo), lt(d, hi))), "recursion goes to a later entry, so it ends")
        return sigma(i, j)

    CALLER = [None]
    SUM = SparseCovariance.__dict__["_sum_over_col"]
    GET = SparseCovariance.__dict__["__getitem__"]

    def sum_stub(eng, self, col, col_l):
        c, j = (ir.lift(models.pynum(models.norm(x))) for x in (col, col_l))
        eng.require(in_range(c, j), "columns exist")
        eng.require(le(c, j), "upper triangle")
        return off_diagonal(c, j)

    # the two identities the algorithm uses
    def lemmas(eng):
        RULES[0] = False
        i, j = sym("i"), sym("j")
        eng.ctx.assume(le(ZERO, DIM))
        with eng.assuming(in_range(i, j)):
            k, h, m = fresh("k"), fresh("h"), fresh("m")
            product = mk_sum([(k, DIM), (m, DIM)], mul(L(k, i), inverse(m, k), inverse(m, j)))
            require_equal(eng, product, inverse(i, j), "sum_k L[k, i] Sigma[k, j] = (L^-1)[i, j]")
            whole = mk_sum([(k, DIM), (h, DIM), (m, DIM)], mul(L(i, h), L(k, h), inverse(m, k), inverse(m, j)))
            require_equal(eng, whole, ind(eq(i, j)), "(L L^T) Sigma = I")

    P.verify("lemma: covariance and square-root information matrix", lemmas, ["L is invertible", "Sigma = L^-T L^-1"], ["L^T Sigma = L^-1", "Sigma is the inverse of L L^T"])

    def triangular(eng):
        # column j of a matrix Z with L Z = I, by induction on the row i
        Z = lambda i, j: app("Z", [i, j], "R")
        i, j, k = sym("i"), sym("j"), fresh("k")
        eng.ctx.assume(in_range(i, j))
        with eng.assuming(le(i, j), in_range(k), implies(lt(k, i), eq(Z(k, j), ZERO))):
            eng.require(eq(mul(L(i, k), Z(k, j)), mul(ind(eq(k, i)), L(i, i), Z(i, j))), "only the term k = i of the product is left")
        product = mk_sum([(k, DIM)], mul(ind(eq(k, i)), L(i, i), Z(i, j)))
        with eng.assuming(eq(product, ind(eq(i, j)))):
            with eng.assuming(lt(i, j)):
                eng.require(eq(Z(i, j), ZERO), "above the diagonal")
            with eng.assuming(eq(i, j)):
                eng.require(eq(mul(Z(i, j), L(i, i)), ONE), "on the diagonal")

    P.verify("lemma: inverse of a lower triangular matrix", triangular, ["L is lower triangular with positive diagonal, L Z = I"], ["Z is lower triangular", "its diagonal has the inverted entries"])

    def get(eng):
        begin(eng)
        i, j = sym("i"), sym("j")
        eng.ctx.assume(in_range(i, j))
        got = eng.call(eng.getattr(this(Cache((i, j), uses)), "__getitem__"), [(i, j)], {})
        require_equal(eng, got, sigma(i, j), "the covariance at these indices")

    uses = []

    P.verify("SparseCovariance.__getitem__", get, ["indices in range", "every cached value is the covariance at its key"],
             ["result is Sigma[i, j]", "values added to the cache are the covariance at their key"], contracts={SUM: sum_stub})

    def keys(eng):
        i, j, a, b = sym("i"), sym("j"), sym("i0"), sym("j0")
        for _, kind, k, facts in [u for u in uses if u[0] == "read"]:
            for _, kind0, k0, facts0 in [u for u in uses if u[0] == "kept" and u[1] == kind]:
                m = {i: a, j: b}
                with eng.assuming(*facts, *[ir.subst(f, m) for f in facts0], *[eq(x, ir.subst(y, m)) for x, y in zip(k, k0)]):
                    eng.require(or_(and_(eq(i, a), eq(j, b)), and_(eq(i, b), eq(j, a))), "entries with the same key are the same entry")

    if uses:
        P.verify("SparseCovariance.__getitem__: keys of the cache", keys, ["indices in range"], ["entries with the same key are the same entry or its transpose"])

    def total(eng):
        begin(eng)
        c, j = sym("c"), sym("j")
        eng.ctx.assume(and_(in_range(c, j), le(c, j)))
        CALLER[0] = (c, j)
        try:
            got = eng.call(eng.getattr(this(), "_sum_over_col"), [c, j], {})
        finally:
            CALLER[0] = None
        require_equal(eng, got, off_diagonal(c, j), "sum of L[k, c] Sigma[k, j] over k != c")

    P.verify("SparseCovariance._sum_over_col", total, ["0 <= c <= j < dim"], ["sum of L[k, c] Sigma[k, j] over k != c", "recursive calls are for later entries"], contracts={GET: getitem_stub})

    def marginal(eng):
        begin(eng)
        n = sym("n_indices")
        eng.ctx.assume(le(ZERO, n))
        idx = Seq([Comp(n, lambda k: [Item(app("wanted", [k], "I"))])], "list")
        got = eng.call(eng.getattr(this(), "_compute_marginal"), [idx], {})
        want = arr2(n, n, lambda a, b: sigma(app("wanted", [a], "I"), app("wanted", [b], "I")))
        require_equal(eng, got, want, "covariance of the given indices, in the given order")

    @prove.axiom("wanted")
    def _wanted(args, t):
        return [implies(and_(le(ZERO, args[0]), lt(args[0], sym("n_indices"))), in_range(t))]

    P.verify("SparseCovariance._compute_marginal", marginal, ["indices in range"], ["entry (a, b) is Sigma[indices[a], indices[b]]"], contracts={GET: getitem_stub})

    lay = layout(S, True)
    answer = arr2(sym("answer_dim"), sym("answer_dim"), lambda a, b: app("answer", [a, b], "R"))
    asked = []

    def marginal_stub(eng, self, indices):
        asked.append(indices)
        return answer

    MARG = SparseCovariance.__dict__["_compute_marginal"]

    def by_variables(eng):
        begin(eng)
        asked.clear()
        n = sym("n_wanted")
        eng.ctx.assume(le(ZERO, n))
        vs = Seq([Comp(n, lambda k: [Item(Var(app("wanted_variable", [k], "Var")))])], "tuple")
        from ..interp import StarSeq

        got = eng.call(eng.getattr(this(lay=lay), "compute_marginal"), [StarSeq(vs)], {})
        require_equal(eng, got, answer, "result of _compute_marginal")
        if len(asked) != 1:
            return eng.fail("_compute_marginal is called once", f"{len(asked)} calls")

        def block(k):
            v = app("wanted_variable", [k], "Var")
            return [Comp(ld(tyof(v)), lambda j: [Item(add(index(S, True, v), j))])]

        require_parts(eng, eng.iter_parts(asked[0]), [Comp(n, block)], "indices of the variables, in the given order")

    @prove.axiom("mem")
    def _wanted_variable(args, t):
        b, v = args
        if b is B and is_app(v, "wanted_variable"):
            return [implies(and_(le(ZERO, v.args[1][0]), lt(v.args[1][0], sym("n_wanted"))), t)]
        return []

    P.verify("SparseCovariance.compute_marginal", by_variables, ["variables of the graph, in any order"],
             ["_compute_marginal of the local storage indices of the variables, in the given order"], contracts={MARG: marginal_stub})

    def dense(eng, use_inverse):
        begin(eng)
        asked.clear()
        RULES[0] = True
        args = [] if use_inverse is None else [use_inverse]
        got = eng.call(eng.getattr(this(lay=Obj(core.StorageLayout, {**lay.fields, "dim": DIM})), "as_dense"), args, {})
        if asked:
            require_equal(eng, got, answer, "result of _compute_marginal")
            return require_parts(eng, eng.iter_parts(asked[0]), [Comp(DIM, lambda k: [Item(k)])], "all indices, in order")
        require_equal(eng, got, arr2(DIM, DIM, sigma), "the covariance")

    for flag in (None, True, False):
        P.verify(f"SparseCovariance.as_dense({'' if flag is None else flag})", lambda eng, flag=flag: dense(eng, flag), ["dim is the dimension of the local storage layout"], ["the whole covariance"], contracts={MARG: marginal_stub})

    class Graph(Abstract):
        def getattr(self, name):
            if name == "local_storage_layout":
                return lay
            if name == "storage_layout":
                return layout(S, False)
            if name == "compute_whitened_residual_vector":
                return Fn(lambda assignments: residual if assignments is point else engine().fail("at the given assignments", repr(assignments)), name)
            if name == "compute_whitened_residual_jacobian":
                return Fn(jacobian, name)
            raise Unsupported(f"graph.{name}")

    class Point(Abstract):
        pass

    point, residual = Point(), flat_arr(ROWS, lambda i: app("residual", [i], "R"))

    def jacobian(assignments, residual_vector):
        if assignments is not point:
            engine().fail("Jacobian at the given assignments", repr(assignments))
        require_equal(engine(), residual_vector, residual, "Jacobian gets the residual at the assignments")
        return sparse_matrix(engine())

    def make(eng):
        c10.DISTINCT[0] = False
        got = eng.call(SparseCovariance.make, [Graph(), point], {})
        if not isinstance(got, Obj) or got.cls is not SparseCovariance:
            return eng.fail("result is a SparseCovariance", repr(got))
        n = COLS
        f = arr2(n, n, c10.gram).lam()

        def chol(i, j):
            return app("chol", [n, f, i, j], "R")

        Lm = got.fields["L"]
        if not isinstance(Lm, Matrix):
            return eng.fail("L is a sparse matrix", repr(Lm))
        require_equal(eng, Lm.arr, arr2(n, n, chol), "L is the Cholesky factor of J^T J, in the order of the local storage layout")
        require_equal(eng, got.fields["L_diag_inv"], flat_arr(n, lambda i: div(ONE, chol(i, i))), "inverted diagonal of L")
        if got.fields["local_storage_layout"] is not lay:
            require_equal(eng, got.fields["local_storage_layout"], lay, "local storage layout of the graph")
        cache = got.fields["_value_cache"]
        if not (isinstance(cache, SDict) and not cache.parts):
            return eng.fail("the cache is new and empty", repr(cache))
        eng.require(ir.TRUE, "the cache is new and empty")

    P.verify("SparseCovariance.make", make, REQ + ["contract of the graph's Jacobian (C06)"], ["L is the Cholesky factor of J^T J in storage order", "the cache is empty"])
