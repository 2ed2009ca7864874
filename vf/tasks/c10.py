"""C10: linear solvers solve the documented damped normal equations."""
import jax
import jax.experimental.host_callback as hcb
import scipy.sparse

from .. import ir, models, vals
from ..cholmod import Cache, CholFactor, Matrix, solution
from ..interp import MUTABLE
from ..ir import ONE, ZERO, add, and_, app, const, eq, fresh, ind, is_app, le, lt, mk_sum, mul, sym
from ..models import model, norm, require_equal, to_arr
from ..prove import axiom
from ..vals import Arr, Fn, Obj, Unsupported, arr2, flat_arr
from .c09 import K, M, N, REQ, ScipyCoo, col, dense, row, sparse_matrix, val


def _to_matrix(self, name):
    """Formats of scipy that add up duplicate entries."""
    r, c, d = (to_arr(self.d[k]) for k in ("row", "col", "data"))
    n, m = self.d["shape"]
    k = fresh("k")
    nnz = d.doms[0].size()
    arr = arr2(n, m, lambda i, j: mk_sum([(k, nnz)], mul(d.get(k), ind(eq(r.get(k), i)), ind(eq(c.get(k), j)))))
    i = fresh("i")
    key = ("coordinates", ir.lam(i, r.get(i)).id, ir.lam(i, c.get(i)).id)
    return Fn(lambda *a, **kw: Matrix(arr, key), name)


ScipyCoo.convert = _to_matrix

# coordinates are pairwise distinct: equal rows and equal columns only for the same entry
DISTINCT = [False]


def _distinct(binders, inside):
    if not DISTINCT[0]:
        return None
    eqs = []
    for i, (a, e) in enumerate(inside):
        if a.op == "ind" and a.args[0].op == "eq0":
            items = ir.poly_terms(a.args[0].args[0])
            apps = [m[0][0] for m, c in items if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].args[0] in ("row", "col")]
            if apps:
                eqs.append((i, a.args[0].args[0], apps))
    for i, p, apps in eqs:
        if len(apps) == 2 and {t.args[0] for t in apps} in ({"row"}, {"col"}) and len(ir.poly_terms(p)) == 2:
            other = "col" if apps[0].args[0] == "row" else "row"
            a, b = (t.args[1][0] for t in apps)
            want = ir.sub(app(other, [a], "I"), app(other, [b], "I"))
            # the other coordinates are equal if they equal the same term, or each other
            ps = [ZERO] + [q for j, q, _ in eqs if j != i]
            if any(w in (ir.add(x, y), ir.sub(x, y)) for x in ps for y in ps for w in (want, ir.neg(want))):
                fs = [f for j, f in enumerate(inside) if j != i]
                return mk_sum(binders, mul(ir._prod(fs), ind(eq(a, b))))
    return None


ir.SUM_HOOKS.append(_distinct)


def gram(i, j):
    r = fresh("r")
    return mk_sum([(r, N)], mul(dense(r, i), dense(r, j)))


def run(P):
    from jaxfg import sparse
    from jaxfg.sparse import _linear_solve as module

    P.assume("C10: scikit-sparse: analyze_AAt keeps only the pattern; cholesky_AAt_inplace(M, beta) makes the factor that of M M^T + beta I; solve_A solves with that matrix (trusted)")
    P.assume("C10: a solver object is not reused for systems with another sparsity pattern (documented), and identities of live solver objects differ")
    P.assume("C10: host callbacks call the function once with the given values and return its result; jax.scipy.sparse.linalg.cg(A, b, x0, tol, M) returns x with |b - A x| <= tol |b| for symmetric positive definite A and M (trusted)")
    P.assume("C10: floats are treated as reals; damping >= 0")
    lambd, it = sym("lambd", "R"), sym("iteration")
    rhs = flat_arr(M, lambda j: app("rhs", [j], "R"))

    def setup(eng):
        A = sparse_matrix(eng)
        eng.ctx.assume(and_(le(ZERO, lambd), le(ZERO, it)))
        return A

    def cholmod(eng):
        DISTINCT[0] = False
        A = setup(eng)
        self = Obj(sparse.CholmodSolver, {})
        ident = models.KeyVal(sym("identity_of_the_solver", "Key"))
        i = fresh("i")
        pattern = ("coordinates", ir.lam(i, col(i)).id, ir.lam(i, row(i)).id)
        for name, v in vars(module).items():
            if isinstance(v, MUTABLE) and not name.startswith("__"):
                eng.globals[id(v)] = Cache(ident, pattern)
        eng.identities[self] = ident
        got = eng.call(eng.getattr(self, "solve_subproblem"), [A, rhs, lambd, it], {})
        matrix = arr2(M, M, lambda i, j: add(gram(i, j), mul(add(lambd, const(ir.Fraction(str(1e-5)))), ind(eq(i, j)))))
        want = solution(matrix, rhs)
        require_equal(eng, got, want, "solution of (A^T A + (damping + 1e-5) I) x = rhs")

    P.verify("CholmodSolver.solve_subproblem", cholmod, REQ + ["damping >= 0", "any earlier calls of this or other solvers"],
             ["solution of (A^T A + (damping + 1e-5) I) x = rhs, whether or not the cache has a factor of this solver"])

    def cg(eng, cls, field, tol, lambd=lambd):
        # without damping, coordinates may be repeated (with damping see KNOWN_FINDINGS.txt)
        distinct = DISTINCT[0] = lambd is not ZERO
        try:
            A = setup(eng)
            par = sym(field, "R")
            self = Obj(cls, {field: par})
            answer = flat_arr(M, lambda j: app("cg_solution", [j], "R"))
            calls = []

            def diagonal(j):
                return gram(j, j)

            def sum_of_squares(j):
                k = fresh("k")
                return mk_sum([(k, K)], mul(val(k), val(k), ind(eq(col(k), j))))

            def cg_stub(eng, A, b, x0=None, *, tol=1e-5, atol=0.0, maxiter=None, M=None):
                calls.append(1)
                m = rhs.doms[0].size()
                x = flat_arr(m, lambda j: app("x", [j], "R"))
                got = to_arr(eng.call(A, [x], {}))
                j = fresh("j")
                want = flat_arr(m, lambda i: add(mk_sum([(j, m)], mul(gram(i, j), x.get(j))), mul(lambd, diagonal(i), x.get(i))))
                require_equal(eng, got, want, "operator is A^T A + damping * diag(A^T A)")
                require_equal(eng, b, rhs, "right-hand side")
                if x0 is not None:
                    require_equal(eng, x0, flat_arr(m, lambda j: ZERO), "zero initial guess")
                require_equal(eng, norm(to_arr(tol)), wanted_tol(par), "tolerance")
                require_equal(eng, norm(to_arr(atol)), ZERO, "no absolute tolerance")
                if maxiter is not None:
                    eng.require(le(m, norm(to_arr(maxiter))), "at least as many iterations allowed as unknowns")
                if M is not None:
                    y = to_arr(eng.call(M, [x], {}))
                    c = to_arr(eng.call(M, [flat_arr(m, lambda j: ONE)], {}))
                    i = fresh("i")
                    eng.require(eq(y.doms[0].size(), m), "preconditioner keeps the length")
                    with eng.assuming(le(ZERO, i), lt(i, m), lt(ZERO, sum_of_squares(i))):
                        if distinct:
                            require_equal(eng, sum_of_squares(i), diagonal(i), "diagonal of A^T A is the sum of the squares in a column")
                        require_equal(eng, y.get(i), mul(c.get(i), x.get(i)), "preconditioner is a diagonal linear map")
                        eng.require(lt(ZERO, c.get(i)), "preconditioner is positive definite")
                return answer, None

            def wanted_tol(p):
                return tol(p)

            CG[0] = cg_stub
            got = eng.call(eng.getattr(self, "solve_subproblem"), [A, rhs, lambd, it], {})
            if len(calls) != 1:
                eng.fail("conjugate gradient is called once", f"{len(calls)} calls")
            require_equal(eng, got, answer, "result is the conjugate gradient solution")
        finally:
            DISTINCT[0] = False

    req = REQ + ["no coordinate occurs twice", "damping >= 0", "every column of A is non-zero (for the preconditioner)"]
    ens = ["cg is applied to A^T A + damping * diag(A^T A) and the given right-hand side, from zero", "preconditioner is a positive diagonal map"]
    P.verify("ConjugateGradientSolver.solve_subproblem", lambda eng: cg(eng, sparse.ConjugateGradientSolver, "tolerance", lambda t: t), req, ens + ["tolerance is the configured one"])
    P.verify("InexactStepConjugateGradientSolver.solve_subproblem",
             lambda eng: cg(eng, sparse.InexactStepConjugateGradientSolver, "inexact_step_eta", lambda t: ir.div(t, add(it, ONE))), req, ens + ["tolerance is eta / (iteration + 1)"])
    req = REQ + ["no damping", "every column of A is non-zero (for the preconditioner)"]
    ens = ["cg is applied to A^T A and the given right-hand side, from zero", "preconditioner is a positive diagonal map"]
    P.verify("ConjugateGradientSolver.solve_subproblem (repeated coordinates)", lambda eng: cg(eng, sparse.ConjugateGradientSolver, "tolerance", lambda t: t, ZERO), req, ens)
    P.verify("InexactStepConjugateGradientSolver.solve_subproblem (repeated coordinates)",
             lambda eng: cg(eng, sparse.InexactStepConjugateGradientSolver, "inexact_step_eta", lambda t: ir.div(t, add(it, ONE)), ZERO), req, ens)


CG = [None]


@model(jax.scipy.sparse.linalg.cg)
def _cg(eng, *a, **kw):
    if CG[0] is None:
        raise Unsupported("conjugate gradient")
    return CG[0](eng, *a, **kw)


@model(hcb.call)
def _call(eng, f, arg, *, result_shape=None, **kw):
    r = eng.call(f, [arg], {})
    if result_shape is None:
        return eng.fail("callback announces the shape of its result", "no result_shape")
    announced(eng, r, result_shape)
    return r


def announced(eng, r, shape):
    """The callback's result has the shape the call announced."""
    if not models.is_arrayish(r):
        raise Unsupported(f"callback returning {type(r).__name__}")
    if models.is_arrayish(shape):
        want = [d.size() for d in to_arr(shape).doms]
    else:
        raise Unsupported("announced shape of a callback")
    r = to_arr(r)
    if r.ndim != len(want):
        eng.fail("callback returns the announced shape", f"rank {r.ndim}, announced {len(want)}")
    for a, b in zip(r.doms, want):
        eng.require(eq(a.size(), b), "callback returns the announced shape")


@model(jax.pure_callback)
def _pure(eng, f, result_shape, *args, **kw):
    r = eng.call(f, list(args), {k: v for k, v in kw.items() if k not in ("vectorized", "vmap_method")})
    announced(eng, r, result_shape)
    return r
