"""C09: sparse matrix operations."""
import ast

import numpy as onp
import scipy.sparse

from .. import models
from ..interp import Engine
from ..ir import ONE, ZERO, add, and_, app, eq, implies, ind, le, lt, mk_sum, mul, sym, fresh
from ..models import at_update, require_equal
from ..prove import axiom
from ..vals import Abstract, Arr, NLeaf, Obj, arr2, flat_arr

N, M, K = sym("rows_n"), sym("cols_n"), sym("nnz")


@axiom("row")
def _row(a, t):
    return [implies(and_(le(ZERO, a[0]), lt(a[0], K)), and_(le(ZERO, t), lt(t, N)))]


@axiom("col")
def _col(a, t):
    return [implies(and_(le(ZERO, a[0]), lt(a[0], K)), and_(le(ZERO, t), lt(t, M)))]


def row(i):
    return app("row", [i], "I")


def col(i):
    return app("col", [i], "I")


def val(i):
    return app("val", [i], "R")


def sparse_matrix(eng, kind="f"):
    """Arbitrary coordinate matrix with in-range coordinates."""
    from jaxfg import sparse

    for s in (N, M, K):
        eng.ctx.assume(le(ZERO, s))
    C = Obj(sparse.SparseCooCoordinates, dict(rows=flat_arr(K, row, "i"), cols=flat_arr(K, col, "i")))
    return Obj(sparse.SparseCooMatrix, dict(values=flat_arr(K, val, kind), coords=C, shape=(N, M)))


def dense(i, j):
    """Specification: entries with the same coordinate are added up."""
    k = fresh("k")
    return mk_sum([(k, K)], mul(val(k), ind(eq(row(k), i)), ind(eq(col(k), j))))


class ScipyCoo(Abstract):
    """scipy.sparse.coo_matrix, through its documented attributes."""

    def __init__(self, data, row, col, shape):
        self.d = dict(data=data, row=row, col=col, shape=shape)

    def getattr(self, name):
        from ..vals import Unsupported

        if name in self.d:
            return self.d[name]
        if name in ("tocsc", "tocsr") and hasattr(self, "convert"):
            return self.convert(name)
        if name in ("T", "transpose"):
            t = ScipyCoo(self.d["data"], self.d["col"], self.d["row"], tuple(self.d["shape"])[::-1])
            return t if name == "T" else models.Fn(lambda: t, name)
        if name in ("tocoo", "copy"):
            return models.Fn(lambda *a, **kw: self, name)
        raise Unsupported(f"coo_matrix.{name}")


def _coo(eng, arg, shape=None, **kw):
    from ..vals import Unsupported

    if kw:
        raise Unsupported("coo_matrix options")
    data, (r, c) = arg
    if shape is None:
        # the smallest shape that holds the coordinates
        shape = tuple(add(models.norm(eng.call(onp.max, [x], {})), ONE) for x in (r, c))
    return ScipyCoo(data, r, c, shape)


models.model(scipy.sparse.coo_matrix)(_coo)

REQ = ["coordinates lie inside the shape", "rows, cols and values have the same length"]


def run(P):
    from jaxfg.sparse import SparseCooMatrix

    P.assume("C09: floating-point values are treated as reals; integer and floating dtypes are kept apart")
    P.assume("scipy.sparse.coo_matrix((v,(r,c)),shape) denotes the matrix whose entries with equal coordinates are added up")

    D = arr2(N, M, dense)

    def as_dense(eng):
        A = sparse_matrix(eng)
        require_equal(eng, eng.call(eng.getattr(A, "as_dense"), [], {}), D, "dense matrix")

    P.verify("SparseCooMatrix.as_dense", as_dense, REQ, ["result[i,j] = sum of values[k] with (rows[k],cols[k]) = (i,j)", "shape is self.shape"])

    for kind in "fi":
        def mv(eng, kind=kind):
            A = sparse_matrix(eng)
            x = flat_arr(M, lambda j: app("x", [j], "R" if kind == "f" else "I"), kind)
            y = eng.binop(ast.MatMult(), A, x)
            j = fresh("j")
            want = flat_arr(N, lambda i: mk_sum([(j, M)], mul(dense(i, j), x.get(j))))
            require_equal(eng, y, want, "A @ x")

        P.verify(
            f"SparseCooMatrix.__matmul__ ({'floating' if kind == 'f' else 'integer'} vector)", mv, REQ + ["len(x) = shape[1]"],
            ["result has shape[0] entries", "result[i] = sum_j dense[i,j] x[j], not converted to an integer"],
        )

    def mvi(eng):
        A = sparse_matrix(eng)
        bad = flat_arr(sym("bad"), lambda j: app("x", [j], "R"))
        eng.ctx.assume(le(ZERO, sym("bad")))
        eng.ctx.assume(eq(sym("bad"), M))
        y = eng.binop(ast.MatMult(), A, bad)
        eng.require(eq(y.doms[0].size(), N), "result length")

    P.verify("SparseCooMatrix.__matmul__ (shape check)", mvi, REQ, ["accepts every vector of the right length"])

    def transpose(eng):
        A = sparse_matrix(eng)
        T = eng.getattr(A, "T")
        eng.where.append("T")
        require_equal(eng, T.fields["shape"], (M, N), "shape of the transpose")
        d = eng.call(eng.getattr(T, "as_dense"), [], {})
        require_equal(eng, d, arr2(M, N, lambda i, j: dense(j, i)), "transpose densified")
        y = flat_arr(N, lambda j: app("y", [j], "R"))
        z = eng.binop(ast.MatMult(), T, y)
        j = fresh("j")
        require_equal(eng, z, flat_arr(M, lambda i: mk_sum([(j, N)], mul(dense(j, i), y.get(j)))), "A.T @ y")
        TT = eng.getattr(T, "T")
        require_equal(eng, eng.call(eng.getattr(TT, "as_dense"), [], {}), D, "transpose of the transpose")
        eng.where.pop()

    P.verify("SparseCooMatrix.T", transpose, REQ, ["denotes the transposed matrix, shape reversed"])

    def to_scipy(eng):
        A = sparse_matrix(eng)
        S = eng.call(eng.getattr(A, "as_scipy_coo_matrix"), [], {})
        if not isinstance(S, ScipyCoo):
            return eng.fail("result is a coo_matrix", str(S))
        require_equal(eng, S.d["shape"], (N, M), "shape")
        r, c, d = [models.to_arr(S.d[k]) for k in ("row", "col", "data")]
        k = fresh("k")
        got = arr2(N, M, lambda i, j: mk_sum([(k, d.doms[0].size())], mul(d.get(k), ind(eq(r.get(k), i)), ind(eq(c.get(k), j)))))
        require_equal(eng, got, D, "matrix denoted by the scipy object")

    P.verify("SparseCooMatrix.as_scipy_coo_matrix", to_scipy, REQ, ["the scipy matrix denotes the same dense matrix"])

    def from_scipy(eng):
        sparse_matrix(eng)
        S = ScipyCoo(flat_arr(K, val), flat_arr(K, row, "i"), flat_arr(K, col, "i"), (N, M))
        A = eng.call(SparseCooMatrix.from_scipy_coo_matrix, [S], {})
        require_equal(eng, A.fields["shape"], (N, M), "shape")
        require_equal(eng, eng.call(eng.getattr(A, "as_dense"), [], {}), D, "matrix denoted")

    P.verify("SparseCooMatrix.from_scipy_coo_matrix", from_scipy, REQ, ["denotes the matrix of the scipy object"])
