"""C13: joint negative log-likelihood is the sum over the factors of distance and log determinant."""
from .. import ir, prove
from ..factors import N, Stack, graph_spec, noise_kind, rdim, stack_spec, td, whitened_at
from ..interp import PyExc
from ..ir import TRUE, ZERO, add, and_, app, const, eq, fresh, implies, ite, le, lt, mk_sum, mul, not_, or_, sym
from ..models import norm, require_equal, to_arr
from ..structure import contracts, relayout_stub
from ..vals import Comp, Fn, Item, Obj, Seq
from .c05 import LAYOUT, member, other_layout, spec_graph


@ir.rule("log")
def _log_of_product(args):
    """log |prod x_i| = sum log |x_i|, for non-zero x_i."""
    (a,) = args
    if ir.is_app(a, "abs"):
        p = a.args[1][0]
        if p.op == "red" and p.args[0] == "prod":
            kind, binders, body = ir.red_open(p)
            return mk_sum(binders, app("log", [ir.abs_(body)], "R"))
    return None


def log_abs(t):
    return app("log", [ir.abs_(t)], "R")


def log_det_cov(k):
    """log det of factor k's covariance, from the square root of its precision."""
    a, b, c = fresh("a"), fresh("b"), fresh("c")
    d = rdim(k)
    full = app("det", [d, ir.lam(a, ir.lam(b, app("sqrtP", [k, a, b], "R")))], "R")
    diag = mk_sum([(c, d)], log_abs(app("sqrtp", [k, c], "R")))
    return mul(const(-2), ite(noise_kind(k, "Gaussian"), log_abs(full), diag))


def run(P):
    from jaxfg.core import StackedFactorGraph, VariableAssignments

    P.assume("C13: contract of compute_whitened_residual_vector, discharged in C05; of update_storage_layout, discharged in C03")
    P.assume("C13: square roots of precisions S are invertible; det(A B) = det A det B, det A^T = det A, det I = 1, the determinant of a diagonal matrix is the product of its entries; log x y = log x + log y for positive x, y, log 1 = 0")

    log = lambda x: app("log", [x], "R")
    # instances of the laws of logarithms
    product = lambda x, y: implies(and_(lt(ZERO, x), lt(ZERO, y)), eq(log(mul(x, y)), add(log(x), log(y))))

    one = lambda x: implies(eq(x, const(1)), eq(log(x), ZERO))

    def determinant(eng):
        """d = det S, c = det of the covariance C, where C (S^T S) = I."""
        d, c = fresh("d", "R"), fresh("c", "R")
        m = mul(ir.abs_(d), ir.abs_(d))
        with eng.assuming(not_(eq(d, ZERO)), eq(mul(c, d, d), const(1)), one(mul(c, d, d))):
            steps = [(lt(ZERO, mul(d, d)), "det S^T S is positive"), (lt(ZERO, c), "determinant of the covariance is positive"), (eq(m, mul(d, d)), "square of the absolute value")]
            for f, what in steps:
                eng.require(f, what)
                eng.ctx.assume(f)
            eng.ctx.assume(product(ir.abs_(d), ir.abs_(d)))
            eng.ctx.assume(product(c, mul(d, d)))
            for f, what in ((eq(log(mul(d, d)), mul(const(2), log_abs(d))), "log of the square"), (eq(log(mul(c, d, d)), ZERO), "log of det C det S^T S")):
                eng.require(f, what)
                eng.ctx.assume(f)
            eng.require(eq(log(c), mul(const(-2), log_abs(d))), "log det of the covariance is -2 log|det S|")

    P.verify("lemma: determinant of the covariance", determinant, ["the covariance C of a square root S of the precision: C (S^T S) = I"], ["log det C = -2 log|det S|"])

    def diagonal(eng):
        """p(m), q(m): product of the first m entries, sum of the logarithms of their absolute values."""
        m = fresh("m")
        s = lambda k: app("entry", [k], "R")
        p, q = (lambda k, n=n: app(n, [k], "R") for n in ("partial_product", "partial_sum"))
        invariant = lambda k: and_(not_(eq(p(k), ZERO)), eq(log_abs(p(k)), q(k)))
        with eng.assuming(eq(p(ZERO), const(1)), eq(q(ZERO), ZERO), eq(log(const(1)), ZERO)):
            eng.require(invariant(ZERO), "no entries")
        n = add(m, const(1))
        with eng.assuming(le(ZERO, m), not_(eq(s(m), ZERO)), invariant(m), eq(p(n), mul(p(m), s(m))), eq(q(n), add(q(m), log_abs(s(m))))):
            f = eq(ir.abs_(mul(p(m), s(m))), mul(ir.abs_(p(m)), ir.abs_(s(m))))
            eng.require(f, "absolute value of a product")
            eng.ctx.assume(f)
            eng.ctx.assume(product(ir.abs_(p(m)), ir.abs_(s(m))))
            eng.require(invariant(n), "one more entry")

    P.verify("lemma: determinant of a diagonal square root", diagonal, ["any number of non-zero entries"], ["log|product of the entries| = sum of the log|entry| (induction on their number)"])

    ONLY_GAUSSIAN = [False]

    @prove.axiom("noise:Gaussian")
    @prove.axiom("noise:DiagonalGaussian")
    def _gaussian(args, t):
        return [or_(*[app("noise:" + c, args, "B") for c in ("Gaussian", "DiagonalGaussian")])] if ONLY_GAUSSIAN[0] else []

    def nll(eng):
        ONLY_GAUSSIAN[0] = True
        try:
            G, S, g = spec_graph(eng)
            a, value = other_layout(S)
            got = eng.call(eng.getattr(g, "compute_joint_nll"), [a], {})
            k, i = fresh("k"), fresh("i")
            with eng.assuming(le(ZERO, k), lt(k, N)):
                w, ld = whitened_at(k, value).get(i), log_det_cov(k)
            want = add(mk_sum([(k, N), (i, rdim(k))], mul(w, w)), mk_sum([(k, N)], ld))
            require_equal(eng, norm(to_arr(got)), want, "sum over the given factors of squared whitened residual and log determinant of the covariance")
        finally:
            ONLY_GAUSSIAN[0] = False

    P.verify("StackedFactorGraph.compute_joint_nll", nll, ["a graph as made by make, of factors with Gaussian noise, full or diagonal in any mixture", "assignments of its variables in any layout"],
             ["sum over the factors of the squared whitened residual plus the log determinant of the covariance"],
             contracts=contracts() | {VariableAssignments.update_storage_layout: relayout_stub})

    def refuses(eng, call, what):
        try:
            got = call()
        except PyExc as e:
            eng.require(TRUE, what)
            return
        eng.fail(what, f"returned {got!r}")

    def other_noise(eng):
        G, S, g = spec_graph(eng)
        a, value = other_layout(S)
        k0 = sym("offending")
        eng.ctx.assume(and_(le(ZERO, k0), lt(k0, N), not_(noise_kind(k0, "Gaussian")), not_(noise_kind(k0, "DiagonalGaussian"))))
        base, raised = eng.ctx.copy(), []

        def on_raise(ctx, exc):
            facts = [f for f in ctx.facts if f not in base.facts]
            groups = {t.args[1][1] for f in facts for t in ir.subterms(f) if t.op == "app" and len(t.args[1]) > 1 and t.args[1][0] is G.T and t.args[1][1].op == "sym"}
            if len(groups) == 1:
                raised.append(ir.subst(and_(*facts), {groups.pop(): app("gid", [G.T, k0], "I")}))

        what = "a noise model that is not Gaussian is refused"
        eng.on_raise = on_raise
        try:
            eng.call(eng.getattr(g, "compute_joint_nll"), [a], {})
        except PyExc:
            eng.require(TRUE, what)
            return
        finally:
            eng.on_raise = None
        eng.ctx = base
        eng.require(or_(*raised), what)

    def constants(eng):
        G, S, g = spec_graph(eng)
        a, value = other_layout(S)
        refuses(eng, lambda: eng.call(eng.getattr(g, "compute_joint_nll"), [a], dict(include_constants=True)), "constant terms are refused")

    stubs = contracts() | {VariableAssignments.update_storage_layout: relayout_stub}
    P.verify("StackedFactorGraph.compute_joint_nll (include_constants=True)", constants, ["any graph"], ["raises"], contracts=stubs)
    P.verify("StackedFactorGraph.compute_joint_nll (other noise models)", other_noise, ["any graph with a factor whose noise model is neither Gaussian nor DiagonalGaussian"], ["raises"], contracts=stubs)
