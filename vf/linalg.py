"""Contracts of dense linear algebra on matrices of symbolic size.

matinv(n, A, i, j): entry of the inverse of an invertible n x n matrix A (a function term).
chol(n, A, i, j): entry of the lower Cholesky factor.
The laws below are used only for matrices that a precondition declares invertible / positive definite.
"""
from . import ir
from .ir import ONE, Term, app, fresh, ind, eq, lam, lam_apply, mk_sum, mul, power, range_side

# (size id, function term id) of matrices with a two-sided inverse
INVERTIBLE = set()
# (size id, function term id) -> entry function of the Cholesky factor
CHOLESKY = {}


def lam2(fn):
    a, b = fresh("a"), fresh("a")
    return lam(a, lam(b, fn(a, b)))


def entry(f, i, j):
    return lam_apply(lam_apply(f, i), j)


def declare_invertible(n, fn):
    INVERTIBLE.add((n.id, lam2(fn).id))


def declare_cholesky(n, cov, factor):
    CHOLESKY[(n.id, lam2(cov).id)] = factor
    declare_invertible(n, factor)


@ir.rule("chol")
def _chol(args):
    n, f, i, j = args
    L = CHOLESKY.get((n.id, f.id))
    return None if L is None else L(i, j)


def _inverse_hook(binders, factors):
    """sum_k inv(A)[i,k] A[k,j] = [i=j], and the same with the factors exchanged."""
    for p, (a, e) in enumerate(factors):
        if not ir.is_app(a, "matinv") or e not in (1, 2):
            continue
        n, f, i, j = a.args[1]
        if (n.id, f.id) not in INVERTIBLE:
            continue
        for k, left in ((j, True), (i, False)):
            hit = [b for b in binders if b[0] is k]
            if not hit or hit[0][1] is not n:
                continue
            other = i if left else j
            if ir.occurs(k, other) or any(ir.occurs(k, m) for _, m in binders):
                continue
            users = [q for q, (b, _) in enumerate(factors) if ir.occurs(k, b)]
            if len(users) != 2 or any(factors[q][1] != 1 for q in users):
                continue
            q = users[0] if users[1] == p else users[1]
            h = fresh("h")
            pat = entry(f, k, h) if left else entry(f, h, k)
            m = ir.match(pat, factors[q][0], {h})
            if not m or h not in m or ir.occurs(k, m[h]):
                continue
            rest_b = [b for b in binders if b[0] is not k]
            if range_side(other, n, rest_b) is not ONE or range_side(m[h], n, rest_b) is not ONE:
                continue
            rest = [fa for r, fa in enumerate(factors) if r not in (p, q)]
            body = mul(*[power(b, x) for b, x in rest], ind(eq(other, m[h])), ONE)
            return mk_sum(rest_b, body) if rest_b else body
    return None


ir.SUM_HOOKS.append(_inverse_hook)
