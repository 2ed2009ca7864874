"""C17: iteration limits and termination criteria."""
from .. import contracts as K
from ..contracts import NX, Graph, Layout, value_of
from ..ir import ONE, ZERO, add, and_, app, eq, implies, le, lt, not_, or_, sub
from ..models import require_equal
from ..solverspec import (
    ALL, CONFIG, CRIT, IT, TRUST, V0, criteria, delta_vec, limit, quality, retr_delta, run_step, solve_setup,
)
from ..vals import Unsupported

FIXED = "FixedIterationGaussNewtonSolver"


def run(P):
    from .c14 import ASSUME

    for a in ASSUME:
        P.assume("C17: " + a)
    P.assume("C17: the iteration limit is at least 1 (a while_loop that always takes one step)")
    stubs = K.solver_contracts()
    for name in ALL:

        def step(eng, name=name):
            g, s, st, out = run_step(eng, name)
            done = out.fields["done"]
            last = le(sub(limit(name), ONE), IT)
            if name == FIXED:
                require_equal(eng, done, last, "done exactly at the configured number of iterations")
                return
            lay = st.fields["assignments"].fields["storage_layout"]
            prop, D = retr_delta(eng, value_of(out.fields["assignments"]))
            d = delta_vec(D, g.L)
            crit = criteria(g, lay, V0, prop, d, IT)
            if name in TRUST:
                accept = le(CONFIG["step_quality_min"], quality(g, V0, prop, d))
                with eng.assuming(accept):
                    require_equal(eng, done, or_(last, crit), "accepted step: done iff the limit is reached or a criterion holds")
                with eng.assuming(not_(accept)):
                    require_equal(eng, done, last, "rejected step: done iff the limit is reached")
            else:
                require_equal(eng, done, or_(last, crit), "done iff the limit is reached or a criterion holds")

        P.verify(
            f"{name}._step", step, ["state satisfies the invariant of C14", "iterations >= 0"],
            ["done iff iterations >= limit - 1" + ("" if name == FIXED else " or a documented criterion holds" + (" for an accepted step" if name in TRUST else ""))], stubs,
        )

        for unroll in ((True, False) if name == FIXED else (True,)):

            def solve(eng, name=name, unroll=unroll):
                g = Graph()
                caller = Layout(K.order("caller_layout", NX), False)
                s, init, it, fact, n, aux0 = solve_setup(eng, name, g, caller, unroll=unroll)
                out = eng.call(eng.getattr(s, "solve"), [g, init], {})
                e = eng.exit_count
                V = value_of(out)
                if e is None:
                    require_equal(eng, V, it(n)[0], "result is that of exactly the configured number of steps")
                    return
                require_equal(eng, V, it(e)[0], "result is that of the last step taken")
                eng.require(le(e, n), "at most the configured number of steps")
                if name == FIXED:
                    eng.require(eq(e, n), "exactly the configured number of steps")
                else:
                    p = sub(e, ONE)
                    Vp, ap, _ = it(p)
                    eng.require(or_(eq(e, n), app(CRIT, [Vp, p, ap], "B")), "stops early only if a criterion held for the last step")
                    eng.require(le(ONE, e), "at least one step")

            P.verify(
                f"{name}.solve" + (f" (unroll={unroll})" if name == FIXED else ""), solve, ["limit n >= 1"],
                ["terminates after exactly n steps" if name == FIXED else "terminates after at most n steps, earlier only when a criterion held"], stubs,
            )
