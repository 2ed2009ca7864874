"""C18: results do not depend on storage orders and come back in the caller's layout."""
from .. import contracts as K
from .. import ir
from ..contracts import ND, NR, NX, Graph, Layout, value_of
from ..ir import ZERO, eq, subst
from ..models import require_equal
from ..solverspec import ALL, AUX, IT, V0, layout_for, run_step, solve_setup
from ..vals import Abstract, Fn, Obj

FIXED = "FixedIterationGaussNewtonSolver"


def independent(eng, g, caller, t, what):
    """t has the same value under any other order of rows, values, deltas and caller layout."""
    other = Graph("_other")
    m = {g.P: other.P, g.S: other.S, g.L: other.L, caller.S: K.order("caller_layout_other", NX)}
    t = eng.ctx.simp(ir.lift(t))
    u = subst(t, m)
    if t.sort == "B":
        eng.require(ir.and_(ir.implies(t, u), ir.implies(u, t)), what)
    else:
        eng.require(eq(t, u), what)


def run(P):
    from .c14 import ASSUME

    for a in ASSUME:
        P.assume("C18: " + a)
    P.assume("C18: the linear solver's answer does not depend on the order of rows and columns: it is the only solution of the equation it solves (C10), which a permuted solution solves in permuted order (lemma below); conjugate gradients up to their tolerance")
    stubs = K.solver_contracts()
    for name in ALL:

        def step(eng, name=name):
            g, s, st, out = run_step(eng, name)
            lay = st.fields["assignments"].fields["storage_layout"]
            a = out.fields["assignments"]
            require_equal(eng, a.fields["storage_layout"], lay, "layout of the assignments is kept")
            independent(eng, g, lay, value_of(a), "the value found does not depend on storage orders")
            independent(eng, g, lay, out.fields["done"], "the stopping decision does not depend on storage orders")
            independent(eng, g, lay, out.fields["cost"], "the cost does not depend on storage orders")
            if name in AUX:
                independent(eng, g, lay, out.fields[AUX[name]], f"{AUX[name]} does not depend on storage orders")

        P.verify(
            f"{name}._step", step, ["graph rows, layouts in any order", "state satisfies the invariant of C14"],
            ["valuation, done flag, cost and damping/radius of the new state are functions of the old valuation alone", "layout kept"], stubs,
        )

        for unroll in ((True, False) if name == FIXED else (True,)):

            def solve(eng, name=name, unroll=unroll):
                g = Graph()
                caller = Layout(K.order("caller_layout", NX), False)
                s, init, it, fact, n, aux0 = solve_setup(eng, name, g, caller, unroll=unroll)
                out = eng.call(eng.getattr(s, "solve"), [g, init], {})
                if not isinstance(out, Obj) or "storage_layout" not in out.fields:
                    return eng.fail("solve returns assignments", str(out))
                require_equal(eng, out.fields["storage_layout"], caller, "result uses the layout of the initial assignments")
                e = n if eng.exit_count is None else eng.exit_count
                require_equal(eng, out, K.assignments(it(e)[0], caller), "result holds the values of the last iterate")
                independent(eng, g, caller, value_of(out), "the value found does not depend on storage orders")

            P.verify(
                f"{name}.solve" + (f" (unroll={unroll})" if name == FIXED else ""), solve, ["initial assignments in any layout of the graph's variables"],
                ["result in the layout of the initial assignments", "value of every variable independent of all orders"], stubs,
            )

    def wrapper(eng):
        from jaxfg.core import StackedFactorGraph

        g, a, result = Graph(), K.assignments(V0, Layout(K.order("caller_layout", NX), False)), K.assignments(ir.sym("V_found", V0.sort), Layout(K.order("result_layout", NX), False))
        calls = []

        def solve(graph, initial_assignments):
            calls.append((graph, initial_assignments))
            return result

        out = eng.call(StackedFactorGraph.__dict__["solve"], [g, a, AnySolver(solve)], {})
        if len(calls) != 1 or calls[0][0] is not g:
            return eng.fail("the given solver is called once, with this graph", str(calls))
        require_equal(eng, calls[0][1], a, "the solver is given the initial assignments")
        require_equal(eng, out, result, "the solver's result is returned")

    P.verify("StackedFactorGraph.solve", wrapper, ["any solver"], ["the result of the given solver for this graph and the given initial assignments"], stubs)

    def permuted(eng):
        p, q = K.order("p", ND), K.order("q", NR)
        A = lambda i, j: ir.app("A", [i, j], "R")
        x, b = (lambda j, f=f: ir.app(f, [j], "R") for f in ("x", "b"))
        beta, lam, k0 = ir.sym("beta", "R"), ir.sym("lambda", "R"), ir.fresh("k")

        def equation(A, x, b, k):
            j, i = ir.fresh("j"), ir.fresh("i")
            normal = ir.mk_sum([(j, ND), (i, NR)], ir.mul(A(i, k), A(i, j), x(j)))
            diagonal = ir.mk_sum([(i, NR)], ir.mul(A(i, k), A(i, k), x(k)))
            return eq(ir.add(normal, ir.mul(beta, x(k)), ir.mul(lam, diagonal)), b(k))

        with eng.assuming(ir.le(ZERO, k0), ir.lt(k0, ND), equation(A, x, b, K.perm(p, k0))):
            eng.require(
                equation(lambda i, j: A(K.perm(q, i), K.perm(p, j)), lambda j: x(K.perm(p, j)), lambda j: b(K.perm(p, j)), k0),
                "the permuted solution solves the permuted equations",
            )

    P.verify(
        "lemma: permuted normal equations", permuted, ["x solves (A^T A + beta I + lambda diag(A^T A)) x = b; any orders q of rows, p of columns"],
        ["x in the order p solves the equations of A with rows in the order q and columns in the order p, and b in the order p"],
    )


class AnySolver(Abstract):
    def __init__(self, solve):
        self.solve = solve

    def getattr(self, name):
        return Fn(self.solve, name) if name == "solve" else super().getattr(name)
