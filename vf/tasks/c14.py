"""C14: solver states describe their own assignments."""
from .. import contracts as K
from ..contracts import Graph, LinearSolver, NX, Layout, retr, value_of
from ..ir import ONE, ZERO, add, app, eq, not_, or_, sym
from ..models import require_equal
from ..solverspec import ALL, IT, RADIUS, TRUST, V0, gn_step, layout_for, make_solver, make_state, run_step, retr_delta, state_cls
from ..vals import Unsupported

ASSUME = [
    "graph and assignment operations are used through their contracts (C03-C06, C09); linear_solver.solve_subproblem is a deterministic function of its arguments",
    "host callbacks that only print do not affect values",
    "floats are treated as reals; storage_dim, local_dim, residual_dim >= 1",
]


def invariant(eng, g, out, lay, what):
    """residual and cost of the state are those of its assignments."""
    require_equal(eng, out.fields["assignments"].fields["storage_layout"], lay, f"{what}: layout of the assignments")
    V = value_of(out.fields["assignments"])
    require_equal(eng, out.fields["residual_vector"], g.residual(V), f"{what}: residual vector belongs to the assignments held")
    require_equal(eng, out.fields["cost"], g.cost(V), f"{what}: cost belongs to the assignments held")
    return V


def run(P):
    for a in ASSUME:
        P.assume("C14: " + a)
    stubs = K.solver_contracts()
    for name in ALL:

        def init(eng, name=name):
            K.dims(eng)
            g = Graph()
            lay = layout_for(name, g)
            s = make_solver(name, LinearSolver())
            out = eng.call(eng.getattr(s, "_initialize_state"), [g, K.assignments(V0, lay)], {})
            V = invariant(eng, g, out, lay, "initial state")
            eng.require(eq(V, V0), "initial state holds the given assignments")
            require_equal(eng, out.fields["iterations"], ZERO, "iteration count starts at zero")
            require_equal(eng, out.fields["done"], False, "not done initially")

        P.verify(f"{name}._initialize_state", init, ["assignments in the layout the solver runs in"], ["cost, residual vector: those of the assignments", "iterations = 0, not done"], stubs)

        def step(eng, verbose, name=name):
            g, s, st, out = run_step(eng, name, verbose=verbose)
            lay = st.fields["assignments"].fields["storage_layout"]
            V1 = invariant(eng, g, out, lay, "state after a step")
            require_equal(eng, out.fields["iterations"], add(IT, ONE), "iteration count grows by one")
            if out.cls is not state_cls(name):
                eng.fail("type of the state", str(out.cls))
            if s.fields["linear_solver"].calls == 0:
                eng.fail("linear solver is called", "never called")
            if name not in TRUST:
                d = app("dval", [K.canonical(gn_step(g, name), g.L)], "D")
                eng.require(eq(V1, retr(V0, d)), "assignments are the previous ones retracted by the linear solver's step")
            else:
                prop, D = retr_delta(eng, V1)
                if name == "LevenbergMarquardtSolver":
                    d = app("dval", [K.canonical(gn_step(g, name), g.L)], "D")
                    eng.require(eq(D, d), "the proposed update is the linear solver's step")
                eng.require(or_(eq(V1, prop), eq(V1, V0)), "the whole update is taken or the assignments are kept")

        for verbose in (True, False):
            P.verify(
                f"{name}._step (verbose={verbose})", lambda eng, step=step, verbose=verbose: step(eng, verbose), ["state satisfies the invariant", "iterations >= 0"],
                ["cost, residual vector: those of the assignments held", "iterations + 1", "linear subproblem at the current assignments", "update by exactly the computed step, or none"], stubs,
            )
