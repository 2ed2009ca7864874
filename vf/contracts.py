"""Contracts of the graph, assignment and linear-solver layer, as seen by the nonlinear solvers.

Storage vectors are described relative to a canonical numbering of coordinates:
  perm(S, i)   the coordinate stored at position i under layout / row order S (a permutation)
  xv(V, c)     coordinate c of the valuation V          dv(D, c)  coordinate c of the delta D
  rv(V, c)     canonical row c of the whitened residual jac(V, r, c) entry of its Jacobian
  retr(V, D)   the valuation obtained by moving every variable by its own delta
  sol(A, b, l, t, c) coordinate c of the step the linear solver returns
A quantity that is a function of the valuation alone never mentions a layout symbol.
"""
import ast

import jax

from . import ir, models, prove
from .interp import model
from .ir import ONE, ZERO, Term, add, and_, app, eq, fresh, ite, lam, lam_apply, lam_open, le, lift, lt, mk_sum, mul, neg, not_, occurs, sub, sym
from .models import require_equal, to_arr
from .vals import Abstract, Arr, Fn, NLeaf, Obj, Unsupported, arr2, engine, flat_arr

NX, ND, NR = sym("storage_dim"), sym("local_dim"), sym("residual_dim")
# layout symbol id -> number of positions
SIZE = {}


def order(name, n):
    s = sym(name, "S")
    SIZE[s.id] = n
    return s


def perm(S, i):
    return app("perm", [S, i], "I")


def iperm(S, c):
    return app("iperm", [S, c], "I")


@ir.rule("perm")
def _perm(args):
    S, i = args
    return i.args[1][1] if ir.is_app(i, "iperm") and i.args[1][0] is S else None


@ir.rule("iperm")
def _iperm(args):
    S, i = args
    return i.args[1][1] if ir.is_app(i, "perm") and i.args[1][0] is S else None


def _range(args, t):
    n = SIZE.get(args[0].id)
    return [] if n is None else [ir.implies(and_(le(ZERO, args[1]), lt(args[1], n)), and_(le(ZERO, t), lt(t, n)))]


prove.axiom("perm")(_range)
prove.axiom("iperm")(_range)


def _reindex(binders, bodies):
    """A binder used only as perm(S, i), over the whole range of S, is the coordinate itself."""
    for x, n in binders:
        uses = {t for b in bodies for t in ir.subterms(b) if ir.is_app(t, "perm") and t.args[1][1] is x}
        if len(uses) != 1:
            continue
        (u,) = uses
        if SIZE.get(u.args[1][0].id) is not n:
            continue
        y = fresh("c")
        new = [prove.replace_atom(b, u, y) for b in bodies]
        if any(occurs(x, b) for b in new):
            continue
        return [(y, m) if z is x else (z, m) for z, m in binders], new
    return None


def _sum_reindex(binders, factors):
    r = _reindex(binders, [a for a, _ in factors])
    if r is None:
        return None
    bs, new = r
    return mk_sum(bs, mul(*[ir.power(a, e) for a, (_, e) in zip(new, factors)], ONE))


ir.SUM_HOOKS.append(_sum_reindex)


def _red_reindex(kind, binders, body):
    r = _reindex(binders, [body])
    return None if r is None else ir.mk_red(kind, r[0], r[1][0])


ir.RED_HOOKS.append(_red_reindex)


# ------------------------------------------------------------------ valuations


def valuation(fname, point, sort):
    """fname(lam c. point(v, c)) = v; conditionals are pulled out."""

    @ir.rule(fname)
    def _rule(args):
        c, b = lam_open(args[0])
        if ir.is_app(b, point) and b.args[1][1] is c and not occurs(c, b.args[1][0]):
            return b.args[1][0]
        if b.op == "ite" and not occurs(c, b.args[0]):
            return ite(b.args[0], app(fname, [lam(c, b.args[1])], sort), app(fname, [lam(c, b.args[2])], sort))
        return None

    @ir.rule(point)
    def _point(args):
        v, c = args
        if ir.is_app(v, fname):
            return lam_apply(v.args[1][0], c)
        if v.op == "ite":
            return ite(v.args[0], app(point, [v.args[1], c], "R"), app(point, [v.args[2], c], "R"))
        return None


valuation("val", "xv", "V")
valuation("dval", "dv", "D")


def canonical(a, *orders):
    """The array as a function of canonical coordinates."""
    a = to_arr(a)
    cs = [fresh("c") for _ in orders]
    t = a.get(*[iperm(S, c) for S, c in zip(orders, cs)])
    for c in reversed(cs):
        t = lam(c, t)
    return t


def xv(V, c):
    return app("xv", [V, c], "R")


def dv(D, c):
    return app("dv", [D, c], "R")


def retr(V, D):
    return app("retr", [V, D], "V")


def rv(V, c):
    return app("rv", [V, c], "R")


def jac(V, r, c):
    return app("jac", [V, r, c], "R")


def cost_of(V):
    i = fresh("i")
    return mk_sum([(i, NR)], mul(rv(V, i), rv(V, i)))


class Layout(Abstract):
    """Some layout of the graph's variables."""

    def __init__(self, S, local):
        self.S, self.local = S, local

    @property
    def dim(self):
        return SIZE[self.S.id]

    def getattr(self, name):
        if name == "local_flag":
            return self.local
        if name == "dim":
            return self.dim
        raise Unsupported(f"storage layout attribute {name}")

    def eq(self, eng, other):
        if not isinstance(other, Layout):
            return False
        if other.local != self.local:
            return False
        return True if other.S is self.S else eq(self.S, other.S)

    def require_equal(self, eng, got, what):
        ok = isinstance(got, Layout) and got.local == self.local
        if not ok:
            return eng.fail(what, f"expected the layout {self.S}, got {got}")
        eng.require(eq(got.S, self.S), what)

    def merge(self, eng, c, other):
        if isinstance(other, Layout) and other.S is self.S and other.local == self.local:
            return self
        raise Unsupported("choice between layouts")

    def hash(self):
        return self.S

    def __repr__(self):
        return f"Layout({self.S})"


def assignments(V, layout):
    from jaxfg.core import VariableAssignments

    return Obj(VariableAssignments, dict(storage=flat_arr(layout.dim, lambda i: xv(V, perm(layout.S, i))), storage_layout=layout))


def value_of(a):
    """The valuation held by an assignments object."""
    lay = a.fields["storage_layout"]
    if not isinstance(lay, Layout) or lay.local:
        raise Unsupported("assignments without a value layout")
    return app("val", [canonical(a.fields["storage"], lay.S)], "V")


def delta_of(a):
    lay = a.fields["storage_layout"]
    if not isinstance(lay, Layout) or not lay.local:
        raise Unsupported("deltas without a local layout")
    return app("dval", [canonical(a.fields["storage"], lay.S)], "D")


def retract_stub(eng, self, local_delta_assignments):
    """C04: every variable moves by its own delta; the layout stays."""
    lay, dl = self.fields["storage_layout"], local_delta_assignments.fields["storage_layout"]
    if lay.local or not dl.local:
        eng.fail("manifold_retract: values are moved by local deltas", f"layouts {lay}, {dl}")
    eng.require(eq(to_arr(local_delta_assignments.fields["storage"]).doms[0].size(), dl.dim), "manifold_retract: delta has the length of its layout")
    return assignments(retr(value_of(self), delta_of(local_delta_assignments)), lay)


def relayout_stub(eng, self, storage_layout):
    """C03: same values, requested layout."""
    lay = self.fields["storage_layout"]
    if lay.local != storage_layout.local:
        eng.fail("update_storage_layout: layouts of the same kind", f"{lay}, {storage_layout}")
    if lay.local:
        raise Unsupported("conversion of deltas")
    return assignments(value_of(self), storage_layout)


class Matrix(Abstract):
    """Sparse matrix through the contract of its operations (C09)."""

    def __init__(self, fn, n, m, rows, cols):
        self.fn, self.n, self.m, self.rows, self.cols = fn, n, m, rows, cols

    def getattr(self, name):
        if name == "T":
            return Matrix(lambda i, j: self.fn(j, i), self.m, self.n, self.cols, self.rows)
        if name == "shape":
            return (self.n, self.m)
        if name == "as_dense":
            return Fn(lambda: arr2(self.n, self.m, self.fn))
        raise Unsupported(f"sparse matrix attribute {name}")

    def binop(self, eng, op, a, b):
        if op is not ast.MatMult or a is not self:
            raise Unsupported("operator on a sparse matrix")
        x = to_arr(b)
        if x.ndim != 1:
            raise Unsupported("matrix product")
        eng.require(eq(x.doms[0].size(), self.m), "A @ x: length of x")

        def row(i):
            j = fresh("j")
            return mk_sum([(j, self.m)], mul(self.fn(i, j), x.get(j)))

        return flat_arr(self.n, row)

    def canonical(self):
        a, b = fresh("c"), fresh("c")
        return lam(a, lam(b, self.fn(iperm(self.rows, a), iperm(self.cols, b))))

    def sub(self, m):
        return self


class Graph(Abstract):
    """A factor graph through its contract (C05, C06)."""

    def __init__(self, tag=""):
        self.P = order("rows" + tag, NR)
        self.S = order("graph_layout" + tag, NX)
        self.L = order("graph_local_layout" + tag, ND)

    def residual(self, V):
        return flat_arr(NR, lambda i: rv(V, perm(self.P, i)))

    def jacobian(self, V):
        return Matrix(lambda i, j: jac(V, perm(self.P, i), perm(self.L, j)), NR, ND, self.P, self.L)

    def cost(self, V):
        i = fresh("i")
        return mk_sum([(i, NR)], mul(rv(V, perm(self.P, i)), rv(V, perm(self.P, i))))

    def getattr(self, name):
        eng = engine()
        if name == "compute_cost":
            return Fn(lambda assignments: (self.cost(value_of(assignments)), self.residual(value_of(assignments))))
        if name == "compute_whitened_residual_vector":
            return Fn(lambda assignments: self.residual(value_of(assignments)))
        if name == "compute_whitened_residual_jacobian":

            def f(assignments, residual_vector):
                V = value_of(assignments)
                require_equal(eng, residual_vector, self.residual(V), "compute_whitened_residual_jacobian: residual_vector is the whitened residual of the assignments")
                return self.jacobian(V)

            return Fn(f)
        if name == "storage_layout":
            return Layout(self.S, False)
        if name == "local_storage_layout":
            return Layout(self.L, True)
        if name == "residual_dim":
            return NR
        raise Unsupported(f"graph attribute {name}")


def negative_gradient(g, V):
    """-(J^T r) in local storage order."""

    def fn(j):
        i = fresh("i")
        return neg(mk_sum([(i, NR)], mul(jac(V, perm(g.P, i), perm(g.L, j)), rv(V, perm(g.P, i)))))

    return flat_arr(ND, fn)


class LinearSolver(Abstract):
    """solve_subproblem is a deterministic function of the system, independent of the order of rows and
    columns (C10: it returns the solution of an equation that is)."""

    def __init__(self, want=None):
        self.want = want  # expected (A, ATb, lambd, iteration), checked on every call
        self.calls = 0

    def getattr(self, name):
        eng = engine()
        if name != "solve_subproblem":
            raise Unsupported(f"linear solver attribute {name}")

        def f(A, ATb, lambd, iteration):
            self.calls += 1
            if not isinstance(A, Matrix):
                raise Unsupported("linear subproblem of another matrix type")
            if self.want is not None:
                wA, wb, wl, wi = self.want
                require_equal(eng, arr2(A.n, A.m, A.fn), arr2(wA.n, wA.m, wA.fn), "linear solver is given the Jacobian at the current assignments")
                require_equal(eng, ATb, wb, "linear solver is given the negative gradient")
                require_equal(eng, lambd, wl, "linear solver is given the damping")
                require_equal(eng, iteration, wi, "linear solver is given the iteration number")
            return self.solution(A, ATb, lambd, iteration)

        return Fn(f)

    @staticmethod
    def solution(A, ATb, lambd, iteration):
        cA, cb = A.canonical(), canonical(ATb, A.cols)
        l, t = lift(models.pynum(lambd)), lift(models.pynum(iteration))
        return flat_arr(A.m, lambda j: app("sol", [cA, cb, l, t, perm(A.cols, j)], "R"))


def solver_contracts():
    from jaxfg.core import VariableAssignments

    from .interp import unwrap

    c = {}
    for name, stub in (("manifold_retract", retract_stub), ("update_storage_layout", relayout_stub)):
        f = VariableAssignments.__dict__[name]
        c[f] = stub
        c[unwrap(f)] = stub
    return c


def dims(eng):
    for n in (NX, ND, NR):
        eng.ctx.assume(lt(ZERO, n))


# ------------------------------------------------------------------ host callbacks, while loops


def _install():
    import jax.experimental.host_callback as hcb

    model(hcb.id_tap)(lambda eng, f, arg, result=None, **kw: arg if result is None else result)

    @model(jax.lax.while_loop)
    def _while(eng, cond_fun, body_fun, init_val):
        rule = getattr(eng, "loop_rule", None)
        if rule is None:
            raise Unsupported("while_loop without an invariant")
        return rule(eng, cond_fun, body_fun, init_val)

    @model(jax.lax.fori_loop)
    def _fori(eng, lower, upper, body_fun, init_val, **kw):
        fam = eng.family(init_val)
        lo, hi = lift(models.pynum(lower)), lift(models.pynum(upper))
        if fam is None or lo is not ZERO:
            raise Unsupported("fori_loop without an invariant")
        require_equal(eng, init_val, fam(ZERO), "fori_loop: initial value")
        m = fresh("m")
        eng.generic[m] = [le(ZERO, m), lt(m, hi)]
        with eng.assuming(le(ZERO, m), lt(m, hi)):
            require_equal(eng, eng.call(body_fun, [m, fam(m)], {}), fam(add(m, ONE)), "fori_loop: invariant is preserved")
        return fam(hi)


_install()
