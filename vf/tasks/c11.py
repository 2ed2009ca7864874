"""C11: Gaussian noise models."""
from .. import linalg
from ..ir import ZERO, app, add, eq, fresh, implies, inv, le, lt, mk_sum, mul, sym
from ..models import norm, reduce_arr, require_equal, to_arr
from ..vals import Arr, NLeaf, Obj, arr2, flat_arr
from ..prove import axiom

N, K = sym("dim"), sym("cols")


def L(i, j):
    return app("cholfac", [i, j], "R")


def y(k):
    return app("y", [k], "R")


def r(k):
    return app("r", [k], "R")


def cov(i, j):
    m = fresh("m")
    return mk_sum([(m, N)], mul(L(i, m), L(j, m)))


def d(i):
    return app("variance", [i], "R")


@axiom("cholfac")
def _triangular(args, t):
    i, j = args
    return [implies(lt(i, j), eq(t, ZERO))]


@axiom("variance")
def _pos(args, t):
    return [lt(ZERO, t)]


def jac():
    return arr2(N, K, lambda i, j: app("jac", [i, j], "R"))


def call(eng, o, name, *a, **kw):
    return eng.call(eng.getattr(o, name), list(a), kw)


def run(P):
    from jaxfg.noises import DiagonalGaussian, Gaussian

    P.assume("C11: a symmetric positive definite matrix has a unique lower Cholesky factor with positive diagonal, and jnp.linalg.cholesky returns it; jnp.linalg.inv returns the two-sided inverse")
    P.assume("C11: arithmetic is exact (rounding is not modelled)")
    linalg.declare_cholesky(N, cov, L)

    def sizes(eng):
        eng.ctx.assume(lt(ZERO, N))
        eng.ctx.assume(le(ZERO, K))

    def squared(eng, w):
        w = to_arr(w)
        return norm(reduce_arr(eng, w.map(lambda t: mul(t, t)), "sum"))

    def full(eng):
        sizes(eng)
        g = eng.call(Gaussian.make_from_covariance, [arr2(N, N, cov)], {})
        require_equal(eng, call(eng, g, "get_residual_dim"), N, "residual dimension")
        # every residual is cov @ y for one y; its Mahalanobis distance is y^T cov y
        k = fresh("k")
        res = flat_arr(N, lambda i: mk_sum([(k, N)], mul(cov(i, k), y(k))))
        w = call(eng, g, "whiten_residual_vector", res)
        require_equal(eng, to_arr(w).doms[0].size(), N, "length of the whitened residual")
        a, b = fresh("a"), fresh("b")
        want = mk_sum([(a, N), (b, N)], mul(y(a), cov(a, b), y(b)))
        eng.require(eq(squared(eng, w), want), "squared norm of the whitened residual is the Mahalanobis distance")

    P.verify(
        "Gaussian.make_from_covariance", full, ["covariance is symmetric positive definite"],
        ["|S r|^2 = r^T covariance^-1 r for every r", "residual dimension is the size of the covariance"],
    )

    def generic(eng):
        sizes(eng)
        S = arr2(N, N, lambda i, j: app("S", [i, j], "R"))
        g = Obj(Gaussian, dict(sqrt_precision_matrix=S))
        require_equal(eng, call(eng, g, "get_residual_dim"), N, "residual dimension")
        k = fresh("k")
        w = call(eng, g, "whiten_residual_vector", flat_arr(N, r))
        require_equal(eng, w, flat_arr(N, lambda i: mk_sum([(k, N)], mul(S.get(i, k), r(k)))), "whitened residual")
        # each column of the Jacobian goes through the residual's map
        J = jac()
        WJ = call(eng, g, "whiten_jacobian", J, flat_arr(N, r))
        require_equal(eng, WJ, arr2(N, K, lambda i, c: mk_sum([(k, N)], mul(S.get(i, k), J.get(k, c)))), "whitened Jacobian")
        c = fresh("c")
        with eng.assuming(le(ZERO, c), lt(c, K)):
            col = call(eng, g, "whiten_residual_vector", flat_arr(N, lambda i: J.get(i, c)))
            require_equal(eng, flat_arr(N, lambda i: to_arr(WJ).get(i, c)), col, "column of the whitened Jacobian")

    P.verify(
        "Gaussian.whiten_residual_vector / whiten_jacobian", generic, ["sqrt_precision_matrix S is square"],
        ["S r", "S J: each column is whitened like a residual"],
    )

    def diagonal(eng):
        sizes(eng)
        g = eng.call(DiagonalGaussian.make_from_covariance, [flat_arr(N, d)], {})
        require_equal(eng, call(eng, g, "get_residual_dim"), N, "residual dimension")
        w = call(eng, g, "whiten_residual_vector", flat_arr(N, r))
        require_equal(eng, to_arr(w).doms[0].size(), N, "length of the whitened residual")
        k = fresh("k")
        eng.require(eq(squared(eng, w), mk_sum([(k, N)], mul(r(k), r(k), inv(d(k))))), "squared norm of the whitened residual is the Mahalanobis distance")
        J = jac()
        WJ = call(eng, g, "whiten_jacobian", J, flat_arr(N, r))
        require_equal(eng, WJ.doms[0].size() if isinstance(WJ, Arr) else None, N, "rows of the whitened Jacobian")
        c = fresh("c")
        with eng.assuming(le(ZERO, c), lt(c, K)):
            col = call(eng, g, "whiten_residual_vector", flat_arr(N, lambda i: J.get(i, c)))
            require_equal(eng, flat_arr(N, lambda i: to_arr(WJ).get(i, c)), col, "column of the whitened Jacobian")

    P.verify(
        "DiagonalGaussian", diagonal, ["variances are positive"],
        ["|w|^2 = sum_i r_i^2 / variance_i", "residual dimension is the number of variances", "each Jacobian column is whitened like a residual"],
    )

    def sequence(eng):
        # variances given as a Python sequence
        a, b = sym("v0", "R"), sym("v1", "R")
        eng.ctx.assume(lt(ZERO, a))
        eng.ctx.assume(lt(ZERO, b))
        from ..vals import Item, Seq

        g = eng.call(DiagonalGaussian.make_from_covariance, [Seq([Item(a), Item(b)], "list")], {})
        w = call(eng, g, "whiten_residual_vector", flat_arr(2, r))
        from ..ir import const

        eng.require(eq(squared(eng, w), add(mul(r(const(0)), r(const(0)), inv(a)), mul(r(const(1)), r(const(1)), inv(b)))), "squared norm for a list of variances")

    P.verify("DiagonalGaussian.make_from_covariance (list)", sequence, ["variances are positive"], ["same as for an array"])
