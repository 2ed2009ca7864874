"""scipy CSC matrices and scikit-sparse CHOLMOD factors, through their documented meaning.

  analyze_AAt(M)                    symbolic analysis of the pattern of M M^T, no numbers
  F.cholesky_AAt_inplace(M, beta)   F factors M M^T + beta I; the pattern of M must be the analysed one
  F.cholesky_AAt(M, beta)           the same, in a new factor
  F.solve_A(b), F(b)                the solution of (M M^T + beta I) x = b
"""
import sksparse.cholmod

from . import models
from .interp import PyExc
from .ir import ONE, ZERO, Term, add, and_, app, eq, fresh, ind, le, lift, lt, mk_sum, mul, sym
from .models import model, to_arr
from .vals import Abstract, Arr, Unsupported, arr2, engine, flat_arr


class Matrix(Abstract):
    """A scipy sparse matrix with its dense meaning; pattern names its sparsity pattern."""

    def __init__(self, arr: Arr, pattern):
        self.arr, self.pattern = arr, pattern

    def getattr(self, name):
        if name in ("tocsc", "tocsr", "tocoo", "asformat", "copy", "astype"):
            return models.Fn(lambda *a, **kw: self, name)
        if name == "T":
            return self.transpose()
        if name == "transpose":
            return models.Fn(lambda: self.transpose(), name)
        if name == "shape":
            return tuple(d.size() for d in self.arr.doms)
        if name == "diagonal":
            n = self.arr.doms[0].size()
            return models.Fn(lambda: flat_arr(n, lambda i: self.arr.get(i, i)), name)
        if name in ("todense", "toarray"):
            return models.Fn(lambda: self.arr, name)
        if name == "nnz":
            return app("stored_entries", [sym(f"pattern {self.pattern}", "Key")], "I")
        raise Unsupported(f"scipy matrix attribute {name}")

    def transpose(self):
        a = self.arr
        n, m = (d.size() for d in a.doms)
        return Matrix(arr2(m, n, lambda i, j: a.get(j, i)), ("transposed", self.pattern))

    def gram(self, beta):
        """M M^T + beta I."""
        n, m = (d.size() for d in self.arr.doms)

        def entry(i, j):
            k = fresh("k")
            return add(mk_sum([(k, m)], mul(self.arr.get(i, k), self.arr.get(j, k))), mul(beta, ind(eq(i, j))))

        return arr2(n, n, entry)


class CholFactor(Abstract):
    def __init__(self, pattern, matrix=None, natural=False):
        self.pattern, self.matrix, self.natural = pattern, matrix, natural

    def lower(self):
        """L with L L^T = P M P^T, where P is the identity for the natural ordering."""
        if self.matrix is None:
            raise Unsupported("factor without values")
        n, f = self.matrix.doms[0].size(), self.matrix.lam()
        name = "chol" if self.natural else "chol_of_reordered"
        return Matrix(arr2(n, n, lambda i, j: app(name, [n, f, i, j], "R")), ("factor", self.pattern))

    def factorise(self, A, beta=0.0):
        if not isinstance(A, Matrix):
            raise Unsupported("factorisation of another kind of matrix")
        eng = engine()
        if self.pattern is None or self.pattern != A.pattern:
            eng.fail("factor was analysed for the sparsity pattern of this matrix", f"analysed for {self.pattern or 'an unknown pattern'}, used for {A.pattern}")
        b = to_arr(beta)
        if b.ndim:
            eng.fail("beta is a scalar", f"rank {b.ndim}")
        return A.gram(models.norm(b))

    def solve(self, b):
        b = to_arr(b)
        eng = engine()
        if self.matrix is None:
            eng.fail("factor has numeric values when it is used", "only the pattern was analysed")
            raise Unsupported("factor without values")
        n = self.matrix.doms[0].size()
        if b.ndim != 1:
            eng.fail("right-hand side is a vector", f"rank {b.ndim}")
        eng.require(eq(b.doms[0].size(), n), "right-hand side has one entry per row")
        return solution(self.matrix, b)

    def getattr(self, name):
        if name == "cholesky_AAt_inplace":

            def inplace(A, beta=0.0):
                if engine().frames or engine().merge:
                    raise Unsupported("factorisation under a symbolic condition")
                self.matrix = self.factorise(A, beta)

            return models.Fn(inplace, name)
        if name == "cholesky_AAt":
            return models.Fn(lambda A, beta=0.0: CholFactor(self.pattern, self.factorise(A, beta)), name)
        if name == "copy":
            return models.Fn(lambda: CholFactor(self.pattern, self.matrix), name)
        if name == "L":
            return models.Fn(self.lower, name)
        if name == "solve_A":
            return models.Fn(self.solve, name)
        raise Unsupported(f"CHOLMOD factor attribute {name}")

    def call(self, args, kw):
        return self.solve(*args, **kw)


def solution(matrix, b):
    """The solution of matrix x = b."""
    n = matrix.doms[0].size()
    mt, bt = matrix.lam(), to_arr(b).lam()
    return flat_arr(n, lambda i: app("solution", [n, mt, bt, i], "R"))


@model(sksparse.cholmod.analyze_AAt)
def _analyze(eng, A, mode="auto", ordering_method="default", use_long=None):
    if not isinstance(A, Matrix):
        raise Unsupported("analysis of another kind of matrix")
    return CholFactor(A.pattern)


@model(sksparse.cholmod.cholesky_AAt)
def _cholesky(eng, A, beta=0.0, mode="auto", ordering_method="default", use_long=None):
    return CholFactor(A.pattern, CholFactor(A.pattern).factorise(A, beta), ordering_method == "natural")


class Cache(Abstract):
    """A module-level dictionary of factors, filled by earlier calls of any solver.

    The factor kept for a key that contains this solver's identity was analysed for the pattern the
    solver is used with, and holds the numbers of an earlier call; for other keys nothing is known.
    """

    def __init__(self, owner, pattern):
        self.owner, self.pattern, self.known = owner, pattern, {}

    def key(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        return tuple(x if not isinstance(x, Term) else x.id for x in ks), any(x is self.owner for x in ks)

    def find(self, eng, k):
        if eng.frames or eng.merge:
            raise Unsupported("cache used under a symbolic condition")
        key, own = self.key(k)
        if key not in self.known:
            if eng.branch(sym(f"cached{len(self.known)}", "B"), "an earlier call left a factor in the cache"):
                n = sym("old_size")
                old = arr2(n, n, lambda i, j: app("old_matrix", [i, j], "R"))
                self.known[key] = CholFactor(self.pattern if own else None, old)
            else:
                self.known[key] = None
        return self.known[key]

    def contains(self, eng, k):
        return self.find(eng, k) is not None

    def getitem(self, eng, k):
        f = self.find(eng, k)
        if f is None:
            raise PyExc(KeyError)
        return f

    def setitem(self, eng, k, v):
        if eng.frames or eng.merge:
            raise Unsupported("cache used under a symbolic condition")
        self.known[self.key(k)[0]] = v

    def getattr(self, name):
        eng = engine()
        if name == "get":
            return models.Fn(lambda k, d=None: self.find(eng, k) if self.contains(eng, k) else d, name)
        if name == "setdefault":

            def setdefault(k, d=None):
                if not self.contains(eng, k):
                    self.setitem(eng, k, d)
                return self.getitem(eng, k)

            return models.Fn(setdefault, name)
        raise Unsupported(f"cache.{name}")
