"""C15: acceptance of steps, damping and radius updates."""
from .. import contracts as K
from ..contracts import NR, ND, Graph, value_of
from ..ir import ONE, ZERO, add, and_, const, div, eq, implies, ite, le, lt, max_, min_, mul, not_, scale, sqrt, sub, sym
from ..models import require_equal
from ..solverspec import CONFIG, LAMBD, RADIUS, TRUST, V0, delta_vec, predicted, quality, retr_delta, run_step, sumsq
from fractions import Fraction


def run(P):
    from .c14 import ASSUME

    for a in ASSUME:
        P.assume("C15: " + a)
    stubs = K.solver_contracts()
    c = CONFIG

    def quality_fn(eng):
        """compute_step_quality for any matrix, cost, state and step."""
        from ..solverspec import make_solver, make_state
        from ..contracts import Layout, LinearSolver
        from ..ir import app
        from ..vals import flat_arr

        K.dims(eng)
        g = Graph()
        s = make_solver("LevenbergMarquardtSolver", LinearSolver())
        st = make_state("LevenbergMarquardtSolver", g, Layout(g.S, False))
        d = flat_arr(ND, lambda j: app("d", [j], "R"))
        pc = sym("proposed_cost", "R")
        q = eng.call(eng.getattr(s, "compute_step_quality"), [], dict(A=g.jacobian(V0), proposed_cost=pc, state_prev=st, step_vector=d))
        c0 = g.cost(V0)
        require_equal(eng, q, div(sub(pc, c0), sub(predicted(g, V0, d), c0)), "ratio of actual to predicted change")

    P.verify("_TrustRegionMixin.compute_step_quality", quality_fn, ["A, residual, cost at the current assignments"], ["(proposed cost - cost) / (|A d + r|^2 - cost)"], stubs)

    for name in TRUST:

        def step(eng, name=name):
            g, s, st, out = run_step(eng, name)
            V1 = value_of(out.fields["assignments"])
            prop, D = retr_delta(eng, V1)
            d = delta_vec(D, g.L)
            q = quality(g, V0, prop, d)
            accept = le(c["step_quality_min"], q)
            with eng.assuming(accept):
                require_equal(eng, V1, prop, "a step of at least the minimum quality is accepted")
                require_equal(eng, out.fields["cost"], g.cost(prop), "cost of the accepted step")
                if name == TRUST[0]:
                    require_equal(eng, out.fields["lambd"], div(LAMBD, c["lambda_factor"]), "damping is divided after an accepted step")
            rejected = not_(accept)
            if name == TRUST[0]:
                rejected = and_(rejected, le(c["lambda_min"], c["lambda_max"]))
            with eng.assuming(rejected):
                require_equal(eng, V1, V0, "a step below the minimum quality is rejected")
                require_equal(eng, out.fields["cost"], g.cost(V0), "cost after a rejected step")
                if name == TRUST[0]:
                    want = max_(c["lambda_min"], min_(mul(LAMBD, c["lambda_factor"]), c["lambda_max"]))
                    require_equal(eng, out.fields["lambd"], want, "damping is multiplied, within its range, after a rejected step")
            if name == TRUST[1]:
                norm = sqrt(sumsq(ND, d.get))
                for cond, want, what in (
                    (lt(q, const(Fraction(1, 4))), scale(RADIUS, Fraction(1, 2)), "radius is halved below a ratio of 0.25"),
                    (lt(const(Fraction(3, 4)), q), max_(RADIUS, scale(norm, 3)), "radius is at least three times the step above a ratio of 0.75"),
                    (and_(le(const(Fraction(1, 4)), q), le(q, const(Fraction(3, 4)))), RADIUS, "radius is kept in between"),
                ):
                    with eng.assuming(cond):
                        require_equal(eng, out.fields["radius"], want, what)

        P.verify(
            f"{name}._step", step, ["state satisfies the invariant of C14"] + ["lambda_min <= lambda_max"] * (name == TRUST[0]),
            ["assignments and cost: proposed iff quality >= step_quality_min, else kept", "damping / radius rule"], stubs,
        )

    def monotone(eng):
        """Consequence of the acceptance rule, for any costs."""
        c0, c1, pred, m = (sym(n, "R") for n in ("cost", "new_cost", "predicted", "minimum"))
        eng.ctx.assume(lt(ZERO, m))
        eng.ctx.assume(lt(pred, c0))
        eng.ctx.assume(le(m, div(sub(c1, c0), sub(pred, c0))))
        eng.require(le(c1, c0), "an accepted step does not increase the cost")

    P.verify("lemma: acceptance rule", monotone, ["minimum > 0, predicted cost < cost, ratio >= minimum"], ["new cost <= cost"])
