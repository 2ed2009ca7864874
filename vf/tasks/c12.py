"""C12: Huber noise."""
from ..ir import ONE, ZERO, app, and_, div, eq, fresh, inv, le, lt, mk_sum, mul, not_, sqrt, sym
from ..models import norm, reduce_arr, require_equal, to_arr
from ..vals import Abstract, Arr, NLeaf, Obj, Unsupported, arr2, flat_arr, Fn

N, K = sym("dim"), sym("cols")
D = sym("delta", "R")


def w(i):
    return app("w", [i], "R")


def WJ(i, j):
    return app("wjac", [i, j], "R")


class Wrapped(Abstract):
    """A noise model known by contract: whitening of a residual / a Jacobian."""

    def __init__(self, res, jac):
        self.res, self.jac = res, jac

    def getattr(self, name):
        eng = __import__("vf.vals", fromlist=["x"]).engine()
        if name == "whiten_residual_vector":
            def f(residual_vector):
                require_equal(eng, residual_vector, self.res, "the wrapped model whitens the given residual")
                return flat_arr(N, w)

            return Fn(f)
        if name == "whiten_jacobian":
            def g(jacobian, residual_vector):
                require_equal(eng, jacobian, self.jac, "the wrapped model whitens the given Jacobian")
                eng.require(eq(to_arr(residual_vector).doms[0].size(), N), "residual passed on has the right length")
                return arr2(N, K, WJ)

            return Fn(g)
        if name == "get_residual_dim":
            return Fn(lambda: N)
        raise Unsupported(f"noise model attribute {name}")


def run(P):
    from jaxfg.noises import HuberWrapper

    P.assume("C12: the wrapped model whitens Jacobians independently of the residual (Gaussian, DiagonalGaussian: proved in C11)")
    P.assume("C12: arithmetic is exact (rounding is not modelled); threshold positive")

    r = flat_arr(N, lambda i: app("r", [i], "R"))
    J = arr2(N, K, lambda i, j: app("jac", [i, j], "R"))
    k = fresh("k")
    S = mk_sum([(k, N)], mul(w(k), w(k)))  # |w|^2
    nw = sqrt(S)

    def setup(eng):
        eng.ctx.assume(lt(ZERO, N))
        eng.ctx.assume(le(ZERO, K))
        eng.ctx.assume(lt(ZERO, D))
        return Obj(HuberWrapper, dict(wrapped=Wrapped(r, J), delta=D))

    def call(eng, o, name, *a):
        return eng.call(eng.getattr(o, name), list(a), {})

    def residual(eng):
        h = setup(eng)
        below = eng.branch(lt(nw, D), "norm below the threshold")
        got = call(eng, h, "whiten_residual_vector", r)
        wt = ONE if below else sqrt(div(D, nw))
        require_equal(eng, got, flat_arr(N, lambda i: mul(w(i), wt)), "Huber-whitened residual")
        require_equal(eng, call(eng, h, "get_residual_dim"), N, "residual dimension")

    P.verify("HuberWrapper.whiten_residual_vector", residual, ["delta > 0"], ["w if |w| < delta else w sqrt(delta/|w|), w the wrapped model's whitened residual"])

    def jacobian(eng):
        h = setup(eng)
        below = eng.branch(lt(nw, D), "norm below the threshold")
        wt = ONE if below else sqrt(div(D, nw))
        # contract of whiten_residual_vector
        omega = flat_arr(N, lambda i: mul(w(i), wt))
        om2 = norm(reduce_arr(eng, omega.map(lambda t: mul(t, t)), "sum"))
        if not below:
            # facts about the weighted norm: |w| > 0, |omega|^2 = delta |w|, |omega| = sqrt(delta |w|) >= delta
            lemma(eng, lt(ZERO, nw), "norm is positive")
            lemma(eng, lt(ZERO, S), "squared norm is positive")
            lemma(eng, eq(om2, mul(D, nw)), "squared norm of the weighted residual is delta |w|")
            q = sqrt(mul(D, nw))
            lemma(eng, lt(ZERO, mul(D, nw)), "positive")
            lemma(eng, lt(ZERO, q), "positive root")
            lemma(eng, le(mul(D, D), mul(D, nw)), "delta^2 <= delta |w|")
            lemma(eng, le(D, q), "weighted norm is at least delta")
            lemma(eng, lt(ZERO, div(D, nw)), "weight squared is positive")
            lemma(eng, lt(ZERO, wt), "weight is positive")
            lemma(eng, eq(mul(wt, wt, nw), D), "weight^2 |w| = delta")
            lemma(eng, eq(mul(q, q), mul(wt, wt, nw, nw)), "squares agree")
            lemma(eng, eq(q, mul(wt, nw)), "norm of the weighted residual is weight |w|")
            lemma(eng, eq(div(D, q), wt), "delta / |omega| is the weight")
        got = call(eng, h, "whiten_jacobian", J, omega)
        require_equal(eng, got, arr2(N, K, lambda i, c: mul(WJ(i, c), wt)), "Huber-whitened Jacobian")

    def lemma(eng, f, what):
        eng.require(f, "lemma: " + what)
        eng.ctx.assume(f)

    P.verify(
        "HuberWrapper.whiten_jacobian", jacobian, ["delta > 0", "residual_vector is the residual whitened by the same Huber model"],
        ["the wrapped model's Jacobian times the weight of the residual (1, or sqrt(delta/|w|))"],
    )
