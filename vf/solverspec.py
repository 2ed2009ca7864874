"""Inputs and specifications shared by the nonlinear-solver tasks (C14-C18)."""
from . import contracts as K
from . import ir
from .contracts import ND, NR, NX, Graph, Layout, LinearSolver, Matrix, assignments, cost_of, jac, perm, retr, rv, value_of, xv
from .ir import ONE, ZERO, abs_, add, and_, app, const, div, eq, fresh, ite, le, lt, max_, min_, mk_red, mk_sum, mul, not_, or_, power, scale, sqrt, sub, sym
from .models import require_equal, to_arr
from .vals import Obj, Unsupported, flat_arr

V0 = sym("V", "V")
IT = sym("iterations")
LAMBD, RADIUS = sym("lambd", "R"), sym("radius", "R")
DONE = sym("done", "B")

# configuration fields, as symbols
CONFIG = dict(
    max_iterations=sym("max_iterations"), cost_tolerance=sym("cost_tolerance", "R"), gradient_tolerance=sym("gradient_tolerance", "R"),
    gradient_tolerance_start_step=sym("gradient_tolerance_start_step"), parameter_tolerance=sym("parameter_tolerance", "R"),
    step_quality_min=sym("step_quality_min", "R"), lambda_initial=sym("lambda_initial", "R"), lambda_factor=sym("lambda_factor", "R"),
    lambda_min=sym("lambda_min", "R"), lambda_max=sym("lambda_max", "R"), radius_initial=sym("radius_initial", "R"),
    iterations=sym("configured_iterations"),
)

TRUST = ("LevenbergMarquardtSolver", "DoglegSolver")
ALL = ("GaussNewtonSolver", "LevenbergMarquardtSolver", "DoglegSolver", "FixedIterationGaussNewtonSolver")


def solver_cls(name):
    import jaxfg.solvers as s

    return getattr(s, name)


def make_solver(name, linear, verbose=True, unroll=True):
    import dataclasses

    cls = solver_cls(name)
    fields = {}
    for f in dataclasses.fields(cls):
        if f.name == "verbose":
            fields[f.name] = verbose
        elif f.name == "unroll":
            fields[f.name] = unroll
        elif f.name == "linear_solver":
            fields[f.name] = linear
        elif f.name in CONFIG:
            fields[f.name] = CONFIG[f.name]
        else:
            raise Unsupported(f"solver option {f.name}")
    return Obj(cls, fields)


def state_cls(name):
    import jaxfg.solvers._dogleg_solver as d
    import jaxfg.solvers._levenberg_marquardt_solver as l
    import jaxfg.solvers._nonlinear_solver_base as b

    if name == "LevenbergMarquardtSolver":
        return l._LevenbergMarquardtState
    if name == "DoglegSolver":
        return d._DoglegState
    return b.NonlinearSolverState


def make_state(name, g, layout, V=V0, it=IT, done=DONE):
    """A state that satisfies the invariant of C14."""
    f = dict(iterations=it, assignments=assignments(V, layout), cost=g.cost(V), residual_vector=g.residual(V), done=done)
    if name == "LevenbergMarquardtSolver":
        f["lambd"] = LAMBD
    if name == "DoglegSolver":
        f["radius"] = RADIUS
    return Obj(state_cls(name), f)


def layout_for(name, g):
    """The layout in which a solver runs: the graph's; the fixed-iteration solver uses the caller's."""
    if name == "FixedIterationGaussNewtonSolver":
        return Layout(K.order("caller_layout", NX), False)
    return Layout(g.S, False)


def damping(name):
    return LAMBD if name == "LevenbergMarquardtSolver" else ZERO


def run_step(eng, name, want_args=True, **kw):
    """-> graph, solver, previous state, state returned by the real _step"""
    K.dims(eng)
    eng.ctx.assume(le(ZERO, IT))
    g = Graph()
    lin = LinearSolver((g.jacobian(V0), K.negative_gradient(g, V0), damping(name), IT) if want_args else None)
    s = make_solver(name, lin, **kw)
    st = make_state(name, g, layout_for(name, g))
    out = eng.call(eng.getattr(s, "_step"), [g, st], {})
    if not isinstance(out, Obj):
        raise Unsupported(f"_step returns {out}")
    return g, s, st, out


def gn_step(g, name):
    return LinearSolver.solution(g.jacobian(V0), K.negative_gradient(g, V0), damping(name), IT)


def retr_delta(eng, V):
    """The delta by which the proposal in V was obtained from V0: D with retr(V0, D) inside V."""
    hits = {t for t in ir.subterms(eng.ctx.simp(V)) if ir.is_app(t, "retr")}
    if len(hits) != 1:
        raise Unsupported("no unique proposed update in the returned assignments")
    (r,) = hits
    if r.args[1][0] is not V0:
        raise Unsupported("the proposal does not start from the current assignments")
    return r, r.args[1][1]


def delta_vec(D, order):
    """Delta D as a vector in a storage order."""

    return flat_arr(ND, lambda j: K.dv(D, perm(order, j)))


def sumsq(n, fn):
    i = fresh("i")
    t = fn(i)
    return mk_sum([(i, n)], mul(t, t))


def predicted(g, V, d):
    """|J d + r|^2"""
    A, r = g.jacobian(V), g.residual(V)

    def row(i):
        j = fresh("j")
        return add(mk_sum([(j, ND)], mul(A.fn(i, j), d.get(j))), r.get(i))

    return sumsq(NR, row)


def quality(g, V, V1, d):
    """Actual cost change over the change predicted by the linearised residual."""
    c0 = g.cost(V)
    return div(sub(g.cost(V1), c0), sub(predicted(g, V, d), c0))


def criteria(g, layout, V, V1, d, it):
    """The documented termination criteria."""
    c = CONFIG
    c0, c1 = g.cost(V), g.cost(V1)
    x = lambda i: xv(V, perm(layout.S, i))
    conv_cost = lt(div(abs_(sub(c1, c0)), c0), c["cost_tolerance"])
    D = app("dval", [K.canonical(K.negative_gradient(g, V), g.L)], "D")
    i = fresh("i")
    gmax = mk_red("max", [(i, NX)], abs_(sub(x(i), xv(retr(V, D), perm(layout.S, i)))))
    conv_grad = and_(le(c["gradient_tolerance_start_step"], it), lt(gmax, c["gradient_tolerance"]))
    pt = c["parameter_tolerance"]
    conv_par = lt(sqrt(sumsq(ND, d.get)), mul(add(sqrt(sumsq(NX, x)), pt), pt))
    return or_(conv_cost, conv_grad, conv_par)


def squares(eng, n, fn):
    """Sum of squares; it is >= 0."""
    t = sumsq(n, fn)
    eng.ctx.assume(le(ZERO, t))
    return t


def lemma(eng, name, terms, hyps, goal):
    """Prove hyps => goal for arbitrary reals, then use it for the given terms."""
    from .prove import Ctx

    xs = [fresh("x", "R") for _ in terms]
    outer = eng.ctx
    eng.ctx = Ctx(hyps(*xs))
    try:
        eng.require(goal(*xs), f"{name} (for arbitrary reals)")
    finally:
        eng.ctx = outer
    for h in hyps(*terms):
        eng.require(h, f"{name}: hypothesis")
    eng.ctx.assume(goal(*terms))


# ------------------------------------------------------------------ iterating a step


def stepped(V, it, aux):
    """Contract of _step as a function: next valuation, auxiliary value (damping or radius), done flag."""
    return app("stepV", [V, it, aux], "V"), app("stepA", [V, it, aux], "R"), app("stepD", [V, it, aux], "B")


def iterated(V, aux, m):
    """The same after m steps from (V, 0, aux)."""
    return app("iterV", [V, aux, m], "V"), app("iterA", [V, aux, m], "R"), app("iterD", [V, aux, m], "B")


@ir.rule("iterV")
def _iv(args):
    return args[0] if args[2] is ZERO else None


NOAUX = sym("no_auxiliary_value", "R")


@ir.rule("iterA")
def _ia(args):
    return args[1] if args[2] is ZERO or args[1] is NOAUX else None


@ir.rule("iterD")
def _id(args):
    return ir.FALSE if args[2] is ZERO else None


def _advance(k):
    """step(iter(m), m) = iter(m + 1)"""

    def rule(args):
        V, it, aux = args
        if ir.is_app(V, "iterV") and V.args[1][2] is it:
            V0, a0 = V.args[1][:2]
            if iterated(V0, a0, it)[1] is aux:
                return iterated(V0, a0, add(it, ONE))[k]
        elif it is ZERO:
            return iterated(V, aux, ONE)[k]
        return None

    return rule


for _k, _n in enumerate(("stepV", "stepA", "stepD")):
    ir.rule(_n)(_advance(_k))

CRIT = "converged"  # converged(V, it, aux): a documented criterion holds for the step taken there


def limit(name):
    return CONFIG["iterations" if name == "FixedIterationGaussNewtonSolver" else "max_iterations"]


def done_axiom(name):
    """C17, contract of _step: iterD(V, a, m + 1) iff m >= limit - 1 or a criterion holds for that step."""

    def fact(V, aux, m):
        prev = sub(m, ONE)
        Vp, ap, _ = iterated(V, aux, prev)
        crit = app(CRIT, [Vp, prev, ap], "B")
        d = iterated(V, aux, m)[2]
        rhs = le(sub(limit(name), ONE), prev)
        if name != "FixedIterationGaussNewtonSolver":
            rhs = or_(rhs, crit)
        return and_(ir.implies(eq(m, ZERO), not_(d)), ir.implies(le(ONE, m), and_(ir.implies(d, rhs), ir.implies(rhs, d))))

    return fact


AUX = dict(LevenbergMarquardtSolver="lambd", DoglegSolver="radius")


def step_stub(name):
    def stub(eng, self, graph, state_prev):
        st = state_prev
        lay = st.fields["assignments"].fields["storage_layout"]
        V = value_of(st.fields["assignments"])
        require_equal(eng, st.fields["residual_vector"], graph.residual(V), "_step: residual vector belongs to the assignments")
        require_equal(eng, st.fields["cost"], graph.cost(V), "_step: cost belongs to the assignments")
        if name != "FixedIterationGaussNewtonSolver":
            require_equal(eng, lay, Layout(graph.S, False), "_step: assignments use the graph's layout")
        it = ir.lift(st.fields["iterations"])
        eng.require(le(ZERO, it), "_step: iterations >= 0")
        aux = ir.lift(st.fields[AUX[name]]) if name in AUX else NOAUX
        return family_state(name, graph, lay, *stepped(V, it, aux), add(it, ONE))

    return stub


def family_state(name, graph, lay, V, aux, done, it):
    f = dict(iterations=it, assignments=assignments(V, lay), cost=graph.cost(V), residual_vector=graph.residual(V), done=done)
    if name in AUX:
        f[AUX[name]] = aux
    return Obj(state_cls(name), f)


def solve_setup(eng, name, g, caller, **kw):
    """Contracts and loop invariants under which `solve` is verified; returns (solver, initial assignments, iterates)."""
    K.dims(eng)
    n = limit(name)
    eng.ctx.assume(le(ONE, n))
    lay = caller if name == "FixedIterationGaussNewtonSolver" else Layout(g.S, False)
    aux0 = {"LevenbergMarquardtSolver": CONFIG["lambda_initial"], "DoglegSolver": CONFIG["radius_initial"]}.get(name, NOAUX)
    fact = done_axiom(name)

    def closed(m):
        return family_state(name, g, lay, *iterated(V0, aux0, m), m)

    def family_hook(eng, init):
        if not (isinstance(init, Obj) and init.cls is state_cls(name)):
            return None
        return closed

    def loop_rule(eng, cond, body, init):
        require_equal(eng, init, closed(ZERO), "loop invariant holds initially")
        inv = lambda m: and_(le(ZERO, m), le(m, n), or_(iterated(V0, aux0, m)[2], lt(m, n)))
        with eng.assuming(fact(V0, aux0, ZERO)):
            eng.require(inv(ZERO), "loop invariant: 0 <= iterations <= limit, and done at the limit (initially)")
        m = fresh("m")
        eng.generic[m] = []
        done = lambda m: iterated(V0, aux0, m)[2]
        with eng.assuming(inv(m)):
            t = eng.truth(eng.call(cond, [closed(m)], {}))
            require_equal(eng, t, not_(done(m)), "loop runs until done")
            with eng.assuming(not_(done(m)), fact(V0, aux0, add(m, ONE))):
                require_equal(eng, eng.call(body, [closed(m)], {}), closed(add(m, ONE)), "loop invariant is preserved")
                eng.require(inv(add(m, ONE)), "loop invariant: 0 <= iterations <= limit, and done at the limit (preserved)")
                eng.require(lt(m, n), "loop variant limit - iterations is positive while the loop runs")
        e = sym("steps_taken")
        eng.ctx.assume(inv(e))
        eng.ctx.assume(done(e))
        eng.ctx.assume(fact(V0, aux0, e))
        eng.exit_count = e
        return closed(e)

    eng.exit_count = None
    eng.family_hook, eng.loop_rule = family_hook, loop_rule
    from .interp import unwrap

    f = solver_cls(name).__dict__.get("_step")
    if f is None:
        raise Unsupported(f"{name} has no _step of its own")
    eng.contracts[f] = eng.contracts[unwrap(f)] = step_stub(name)
    s = make_solver(name, LinearSolver(), **kw)
    return s, assignments(V0, caller), lambda m: iterated(V0, aux0, m), fact, n, aux0
