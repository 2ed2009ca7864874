"""Concrete checks of the nonlinear solvers (C14-C18).

The solvers are observed through the public interface only: a user-supplied linear solver sees
every linearisation and chooses the steps, deltas are observed on their way into the retraction,
and the outcome is compared with a plain reimplementation of the documented algorithm.
"""
from .gen import *  # noqa: F401,F403
from .gen import check, close, same, tree_same, flat, leaves
import contextlib
import io

import jax.experimental
from jax.experimental import host_callback as hcb

S = jaxfg.solvers
VA = jaxfg.core.VariableAssignments


class Log:
    def __init__(self):
        self.reset(None)

    def reset(self, script):
        self.script = script
        self.calls = []
        self.deltas = []


LOG = Log()


def _linear_callback(rows, cols, values, shape0, ATb, lambd, iteration):
    D = np.zeros((int(shape0), len(ATb)))
    np.add.at(D, (np.asarray(rows), np.asarray(cols)), np.asarray(values))
    ATb = np.array(ATb)
    x = LOG.script(len(LOG.calls), D, ATb, float(lambd))
    LOG.calls.append(dict(A=D, ATb=ATb, lambd=float(lambd), iteration=int(iteration), x=x))
    LOG.deltas.append([])
    return np.asarray(x, dtype=ATb.dtype)


def _delta_callback(delta):
    if LOG.deltas:
        LOG.deltas[-1].append(np.array(delta))


@jdc.pytree_dataclass
class ScriptedSolver(jaxfg.sparse.LinearSubproblemSolverBase):
    """User-supplied linear solver: records the subproblem, returns the step of the script."""

    @overrides
    def solve_subproblem(self, A, ATb, lambd, iteration) -> jnp.ndarray:
        return jax.experimental.io_callback(
            _linear_callback,
            jax.ShapeDtypeStruct(ATb.shape, ATb.dtype),
            A.coords.rows, A.coords.cols, A.values, A.shape[0], ATb, lambd, iteration,
            ordered=True,
        )


_real_retract = VA.manifold_retract


def _retract_spy(self, *a, **kw):
    d = a[0] if a else list(kw.values())[0]
    jax.experimental.io_callback(_delta_callback, None, d.storage, ordered=True)
    return _real_retract(self, *a, **kw)


class recording:
    """While active, deltas passed to the retraction are recorded as well."""

    def __enter__(self):
        VA.manifold_retract = _retract_spy

    def __exit__(self, *exc):
        VA.manifold_retract = _real_retract


_templates = {}


def _template(which):
    """A few fixed graph structures (compilation dominates the cost of a case)."""
    if which not in _templates:
        srng = np.random.default_rng(1000 + which)
        types = [[R[1], R[2]], [R[2]], [CurvedVar, jaxfg.geometry.SE2Variable], [R[1]]][which]
        vs = [types[i % len(types)]() for i in range([3, 2, 2, 2][which])]
        orders = [None, shuffled(srng, vs), list(reversed(vs))]
        n = len(vs) + 2 + (which == 2)
        _templates[which] = (vs, orders, [list(range(n)), list(srng.permutation(n))])
    return _templates[which]


def make_problem(rng, which, size=1.0, far=False):
    """Random parameters on one of the structures; `size` scales the residuals. With `far`, a nearly linear
    problem whose minimum is a long way off."""
    vs, orders, perms = _template(which)
    if which == 3:  # whole numbers: the cost becomes exactly zero
        noise = jaxfg.noises.DiagonalGaussian(jnp.ones(1))
        fs = [AffineFactor(variables=(v,), noise_model=noise, A=(jnp.ones((1, 1)),), b=jnp.asarray(rng.integers(-9, 9, size=1) * 1.0)) for v in vs]
        return vs, fs, orders, perms
    srng = np.random.default_rng(1000 + which)
    fs = []
    for v in vs:
        n = type(v).get_parameter_dim()
        fs.append(
            AffineFactor(
                variables=(v,),
                noise_model=random_noise(srng, n, ("diag",)),
                A=(jnp.asarray((rng.normal(size=(n, n)) * 0.3 + 1.5 * np.eye(n)) * size),),
                b=jnp.asarray(rng.normal(size=n) * size * (1e4 if far else 1.0)),
            )
        )
    w = float([0.3, 1.0, 2.0][int(rng.integers(3))]) if not far else 1e-12
    for i in range(2):
        fs.append(
            CurvedFactor(
                variables=(vs[i % len(vs)], vs[(i + 1) % len(vs)]),
                noise_model=random_noise(srng, 2, ("full",)),
                params={"w": jnp.asarray(rng.normal(size=2) * w * size), "b": jnp.asarray(rng.normal(size=2) * size)},
                power=2,
            )
        )
    if which == 2:
        t = jaxfg.geometry.SE2Variable.get_group_type()
        t_prior = random_noise(srng, 3, ("full",), size**-2)
        fs.append(jaxfg.geometry.PriorFactor.make(vs[1], t.exp(jnp.asarray(rng.normal(size=3) * 0.5)), t_prior))
    return vs, fs, orders, perms


def make_script(rng, mode, dim, edge=None):
    noise = rng.normal(size=(64, dim))
    side = 1.0 + float(rng.choice([-1, 1])) * 10 ** rng.uniform(-5, -3)

    def script(k, D, ATb, lam):
        H = D.T @ D + (lam + 1e-5) * np.eye(D.shape[1])
        try:
            x = np.linalg.solve(H, ATb)
        except np.linalg.LinAlgError:
            x = np.zeros_like(ATb)
        if mode == "exact":
            return x
        if mode == "plain":
            return ATb if k % 3 else ATb * [0.5, 2.0, 1.0][k // 3 % 3]
        if mode == "edge" and k == 0:  # just inside or outside the trust region
            return x * (edge * side / np.linalg.norm(x))
        if mode == "over":
            return x * [1.0, 6.0, 25.0, 0.4, 12.0, 1.5][k % 6]
        if mode == "mixed":
            return x * [1.0, 0.2, 9.0, 1.0, 30.0][k % 5] + 0.3 * noise[k % 64]
        return noise[k % 64] * 2.0

    return script


class Borderline(Exception):
    pass


def gt(a, b, what):
    """a > b, refusing to decide near-ties that rounding could flip."""
    if abs(a - b) <= 1e-7 * (1e-12 + abs(a) + abs(b)):
        raise Borderline(what)
    return a > b


_jit_retract = {}


def jit_retract(t, x, d):
    if t not in _jit_retract:
        _jit_retract[t] = jax.jit(lambda x, d: t.manifold_retract(x, d))
    return _jit_retract[t](x, d)


def reference(kind, cfg, graph, vals0, layout, log, jitter=None):
    """Plain reimplementation; consumes the recorded steps. Returns expected history. With `jitter`,
    iterates are disturbed by a few units in the last place."""
    vals = dict(vals0)
    LL = graph.local_storage_layout
    variables = list(LL.get_variables())
    lam, radius = cfg.get("lambda_initial", 0.0), cfg.get("radius_initial", 1.0)
    hist = []
    k = 0

    def retract(vals, step):
        out = {}
        for v in variables:
            s = LL.index_from_variable[v]
            out[v] = jit_retract(type(v), vals[v], jnp.asarray(step[s : s + v.get_local_parameter_dim()]))
        return out

    fl = lambda vals: np.concatenate([flat(vals[v]) for v in layout.get_variables()])
    assign = lambda vals: VA(storage=jnp.asarray(fl(vals)), storage_layout=layout)
    limit = cfg["iterations"] if kind == "fixed" else cfg["max_iterations"]
    while True:
        a = assign(vals)
        r = np.asarray(graph.compute_whitened_residual_vector(a))
        Asp = graph.compute_whitened_residual_jacobian(a, jnp.asarray(r))
        A = np.zeros(Asp.shape)
        np.add.at(A, (np.asarray(Asp.coords.rows), np.asarray(Asp.coords.cols)), np.asarray(Asp.values))
        cost = float(np.sum(r**2))
        ATb = -A.T @ r
        use_lam = lam if kind == "lm" else 0.0
        entry = dict(A=A, ATb=ATb, lambd=use_lam, iteration=k, vals=vals, cost=cost)
        hist.append(entry)
        if len(hist) > len(log.calls):
            entry["missing"] = True
            return hist, vals
        gn = log.calls[k]["x"]
        if kind == "dogleg":
            g = ATb
            alpha = (g @ g) / np.sum((A @ g) ** 2)
            sd = alpha * g
            if not gt(np.linalg.norm(gn), radius, "gn radius"):
                step = gn
            elif not gt(radius, np.linalg.norm(sd), "sd radius"):
                step = sd * radius / np.linalg.norm(sd)
            else:
                # point of the segment at distance radius, by the quadratic formula
                e = gn - sd
                qa, qb, qc = e @ e, 2 * sd @ e, sd @ sd - radius**2
                beta = (-qb + np.sqrt(qb * qb - 4 * qa * qc)) / (2 * qa)
                step = sd + beta * e
        else:
            step = gn
        entry["step"] = step
        entry["radius"] = radius
        prop = retract(vals, step)
        pcost = float(np.sum(np.asarray(graph.compute_whitened_residual_vector(assign(prop))) ** 2))
        accept = True
        if kind in ("lm", "dogleg"):
            pred = np.sum((A @ step + r) ** 2)
            if abs(pred - cost) <= 1e-9 * cost:
                raise Borderline("prediction")
            ratio = (pcost - cost) / (pred - cost)
            entry["ratio"] = ratio
            accept = not gt(cfg["step_quality_min"], ratio, "ratio")
            if kind == "lm":
                lam = lam / cfg["lambda_factor"] if accept else max(cfg["lambda_min"], min(lam * cfg["lambda_factor"], cfg["lambda_max"]))
            else:
                if gt(0.25, ratio, "0.25"):
                    radius = radius / 2
                elif gt(ratio, 0.75, "0.75"):
                    radius = max(radius, 3 * np.linalg.norm(step))
        entry["accept"] = accept
        done = k >= limit - 1
        if kind != "fixed" and k == 0:
            # tolerances at which the first step just counts as converged
            nx = np.linalg.norm(fl(vals))
            entry["edges"] = dict(
                cost=abs(pcost - cost) / cost if cost else 0.0,
                gradient=np.max(np.abs(fl(vals) - fl(retract(vals, ATb)))),
                parameter=(np.sqrt(nx**2 + 4 * np.linalg.norm(step)) - nx) / 2,
            )
        if kind != "fixed" and accept and not done:
            conv = gt(cfg["cost_tolerance"], np.abs(np.float64(pcost - cost)) / cost, "cost tol")
            if k >= cfg["gradient_tolerance_start_step"]:
                gmax = np.max(np.abs(fl(vals) - fl(retract(vals, ATb))))
                conv = conv or gt(cfg["gradient_tolerance"], gmax, "grad tol")
            conv = conv or gt((np.linalg.norm(fl(vals)) + cfg["parameter_tolerance"]) * cfg["parameter_tolerance"], np.linalg.norm(step), "par tol")
            done = conv
        entry["done"] = done
        if accept:
            vals = prop
            if jitter is not None:
                vals = {v: jax.tree_util.tree_map(lambda x: x * (1 + 1e-15 * jitter.normal(size=np.shape(x))), y) for v, y in vals.items()}
        k += 1
        if done:
            return hist, vals
        if k > 60:
            raise Borderline("too long")


class _Rehearsal:
    """Answers of a script, without a solver run."""

    def __init__(self, script, lam, A, ATb):
        self.calls = [dict(x=script(0, A, ATb, lam))]


def first_step(kind, cfg, graph, vals, layout, script):
    """What the documented algorithm makes of the first step the script will propose."""
    a = VA.make_from_dict({v: vals[v] for v in layout.get_variables()})
    r = np.asarray(graph.compute_whitened_residual_vector(a))
    Asp = graph.compute_whitened_residual_jacobian(a, jnp.asarray(r))
    A = np.zeros(Asp.shape)
    np.add.at(A, (np.asarray(Asp.coords.rows), np.asarray(Asp.coords.cols)), np.asarray(Asp.values))
    try:
        hist, _ = reference(kind, cfg, graph, vals, layout, _Rehearsal(script, cfg.get("lambda_initial", 0.0), A, -A.T @ r))
    except Borderline:
        return {}
    return hist[0]


KINDS = ["gn", "fixed", "lm", "dogleg"]


def make_solver(rng, kind, which, **over):
    cfg = {}
    if kind == "fixed":
        cfg = dict(iterations=int([1, 3][int(rng.integers(2))]))
        kw = dict(cfg, unroll=bool(rng.integers(2)))
        if not kw["unroll"] and rng.random() < 0.2:
            cfg["iterations"] = kw["iterations"] = int(rng.integers(20, 55))
        cls = S.FixedIterationGaussNewtonSolver
    else:
        cfg = dict(
            max_iterations=int(rng.integers(1, 8)) if rng.random() < 0.85 else int(rng.integers(8, 20)),
            cost_tolerance=-1.0,
            gradient_tolerance=-1.0,
            gradient_tolerance_start_step=int(rng.integers(0, 4)),
            parameter_tolerance=0.0,
        )
        if which == "cost":
            cfg["cost_tolerance"] = float(10 ** rng.uniform(-4, 0.5))
        elif which == "gradient":
            cfg["gradient_tolerance"] = float(10 ** rng.uniform(-3, 1))
        elif which == "parameter":
            cfg["parameter_tolerance"] = float(10 ** rng.uniform(-3, 0.5))
        if kind in ("lm", "dogleg"):
            cfg["step_quality_min"] = float([1e-3, 0.1, 0.3, 0.6, 0.9][int(rng.integers(5))])
        if kind == "lm":
            cfg.update(
                lambda_initial=float(10 ** (rng.uniform(-4, 1) if rng.random() < 0.85 else rng.uniform(-14, -4))),
                lambda_factor=float(rng.uniform(1.5, 5)),
                lambda_min=float(10 ** rng.uniform(-3, 0)),
            )
            cfg["lambda_max"] = float(cfg["lambda_min"] * 10 ** rng.uniform(0.3, 2))
        if kind == "dogleg":
            cfg.update(radius_initial=float(10 ** (rng.uniform(-1.5, 0.7) if rng.random() < 0.85 else rng.uniform(-6, 6))))
        kw = dict(cfg)
        cls = {"gn": S.GaussNewtonSolver, "lm": S.LevenbergMarquardtSolver, "dogleg": S.DoglegSolver}[kind]
    kw.update(over)
    cfg.update({k: v for k, v in over.items() if k in cfg})
    return cls(verbose=bool(rng.random() < 0.3), linear_solver=ScriptedSolver(), **kw), cfg


def assignments_for(rng, which, g, vs, vals, orders, ordered):
    order = None if ordered else orders[int(rng.integers(len(orders)))]
    order = order or list(g.get_variables())
    return VA.make_from_dict({v: vals[v] for v in order})


def run_and_compare(rng, k, kind, which, parts, whole=False):
    tpl = 3 if whole else int(k // 4) % 3
    far = kind in ("lm", "dogleg") and tpl < 2 and rng.random() < 0.12
    vs, fs, orders, perms = make_problem(rng, tpl, 1.0 if far or rng.random() < (0.4 if which == "cost" else 0.7) else 10 ** rng.uniform(-6, 2), far)
    g = jaxfg.core.StackedFactorGraph.make(fs)
    vals = {v: jnp.asarray(rng.integers(-9, 9, size=1) * 1.0) for v in vs} if whole else random_values(rng, vs)
    a = assignments_for(rng, tpl, g, vs, vals, orders, ordered=k % 24 < 12)
    mode = ["exact", "over", "mixed", "random", "edge"][int(rng.integers(5 if kind == "dogleg" else 4))]
    mode = "plain" if whole else "exact" if far else mode
    log = LOG
    solver, cfg = make_solver(rng, kind, which, **(dict(radius_initial=float(10 ** rng.uniform(1.5, 4))) if far and kind == "dogleg" else {}))
    edge = which != "none" and kind != "fixed" and not whole and rng.random() < 0.35
    if edge or kind in ("lm", "dogleg") and rng.random() < 0.2:
        # quality threshold or tolerance right next to what the first step attains
        seed = int(rng.integers(2**31))
        first = first_step(kind, cfg, g, vals, a.storage_layout, make_script(np.random.default_rng(seed), mode, g.local_storage_layout.dim, cfg.get("radius_initial")))
        near = 1 + float(rng.choice([-1, 1])) * 1e-3
        if edge and 0 < first.get("edges", {}).get(which, 0) < 1e12:
            cfg.update({which + "_tolerance": float(first["edges"][which]) * near, "gradient_tolerance_start_step": 0, "max_iterations": max(cfg["max_iterations"], 3)})
            solver = jdc.replace(solver, **{x: cfg[x] for x in (which + "_tolerance", "gradient_tolerance_start_step", "max_iterations")})
        elif not edge and 1e-4 < first.get("ratio", 0.0) < 0.99:
            cfg["step_quality_min"] = first["ratio"] * near
            solver = jdc.replace(solver, step_quality_min=cfg["step_quality_min"])
        log.reset(make_script(np.random.default_rng(seed), mode, g.local_storage_layout.dim, cfg.get("radius_initial")))
    else:
        log.reset(make_script(rng, mode, g.local_storage_layout.dim, cfg.get("radius_initial")))
    ctx = dict(solver=kind, config=cfg, script=mode, graph=describe_graph(vs, fs))
    with recording(), contextlib.redirect_stdout(io.StringIO()):
        out = g.solve(a, solver)
        jax.block_until_ready(out.storage)
        if solver.verbose:
            hcb.barrier_wait()
    try:
        with np.errstate(all="ignore"):
            hist, fvals = reference(kind, cfg, g, vals, a.storage_layout, log)
    except Borderline:
        return
    try:
        compare(k, kind, parts, g, a, out, vs, hist, fvals, log, ctx)
    except Fail:
        # a long run may amplify rounding errors: no verdict where the documented algorithm does so itself
        try:
            with np.errstate(all="ignore"):
                hist2, fvals2 = reference(kind, cfg, g, vals, a.storage_layout, log, jitter=np.random.default_rng(k))
        except Borderline:
            return
        if len(hist2) != len(hist) or not all(close(flat(fvals2[v]), flat(fvals[v]), 1e-8) for v in vs) or not all(close(h["A"], h2["A"], 1e-8) for h, h2 in zip(hist, hist2)):
            return
        raise


def compare(k, kind, parts, g, a, out, vs, hist, fvals, log, ctx):
    n_ref = len(hist)
    if "steps" in parts:
        check(not hist[-1].get("missing"), "the solver stopped although it should have taken another step", taken=len(log.calls), history=_brief(hist), **ctx)
        check(len(log.calls) == n_ref, "the solver took a different number of steps", taken=len(log.calls), expected=n_ref, history=_brief(hist), **ctx)
    for i, (h, c) in enumerate(zip(hist, log.calls)):
        if "linear" in parts:
            check(close(c["A"], h["A"], 1e-6), f"step {i}: linearised at other assignments", got=c["A"], want=h["A"], history=_brief(hist), **ctx)
            check(close(c["ATb"], h["ATb"], 1e-6), f"step {i}: right-hand side is not the negative gradient", got=c["ATb"], want=h["ATb"], history=_brief(hist), **ctx)
            check(c["iteration"] == h["iteration"], f"step {i}: iteration number", got=c["iteration"], **ctx)
        if "lambda" in parts:
            check(abs(c["lambd"] - h["lambd"]) <= 1e-9 * abs(h["lambd"]), f"step {i}: damping", got=c["lambd"], want=h["lambd"], history=_brief(hist), **ctx)
        if "delta" in parts and "step" in h and log.deltas[i]:
            ok = any(close(d, h["step"], 1e-6) for d in log.deltas[i])
            check(ok, f"step {i}: none of the retracted deltas is the expected step", want=h["step"], got=[d for d in log.deltas[i]], history=_brief(hist), **ctx)
            if kind == "dogleg":
                nearest = min(log.deltas[i], key=lambda e: np.linalg.norm(e - h["step"]))
                check(np.linalg.norm(nearest) <= h["radius"] * (1 + 1e-6), f"step {i} leaves the trust region", norm=np.linalg.norm(nearest), radius=h["radius"], **ctx)
    if "final" in parts and not hist[-1].get("missing") and len(log.calls) == n_ref:
        for j, v in enumerate(vs):
            check(close(flat(out.get_value(v)), flat(fvals[v]), 1e-6), f"final value of variable {j}", got=flat(out.get_value(v)), want=flat(fvals[v]), history=_brief(hist), **ctx)
    if "descent" in parts and kind in ("lm", "dogleg") and all("ratio" in h for h in hist):
        if all((h["accept"] is False) or h["ratio"] > 0 for h in hist) and all(_pred_ok(h) for h in hist):
            c0, c1 = (float(g.compute_cost(x)[0]) for x in (a, out))
            check(c1 <= c0 * (1 + 1e-9), "the cost went up", before=c0, after=c1, history=_brief(hist), **ctx)


def _pred_ok(h):
    return True if "step" not in h else (np.sum((h["A"] @ h["step"]) ** 2) - 2 * h["ATb"] @ h["step"]) <= 0


def _brief(hist):
    return [{k: (round(float(v), 6) if not isinstance(v, bool) else v) for k, v in h.items() if k in ("cost", "lambd", "radius", "ratio", "accept", "done")} for h in hist]


def _direct_states(rng, k):
    """States themselves: residual and cost belong to the assignments (uses the exported state
    class; skipped when states cannot be observed)."""
    kind = KINDS[(k % 2) * 2 + (k // 8) % 2]
    vs, fs, orders, perms = make_problem(rng, (k // 16) % 3)
    g = jaxfg.core.StackedFactorGraph.make(fs)
    vals = random_values(rng, vs)
    a = VA.make_from_dict({v: vals[v] for v in g.get_variables()})
    LOG.reset(make_script(rng, ["over", "mixed", "random"][int(rng.integers(3))], g.local_storage_layout.dim))
    solver, cfg = make_solver(rng, kind, "none")
    states = []
    real = jax.lax.while_loop

    def loop(cond_fun, body_fun, init_val):
        s = init_val
        states.append(s)
        while bool(cond_fun(s)):
            s = body_fun(s)
            states.append(s)
        return s

    jax.lax.while_loop = loop
    try:
        with jax.disable_jit(), contextlib.redirect_stdout(io.StringIO()):
            g.solve(a, solver)
    finally:
        jax.lax.while_loop = real
    for i, s in enumerate(states):
        if not isinstance(s, S.NonlinearSolverState):
            return
        with jax.disable_jit():
            r = np.asarray(g.compute_whitened_residual_vector(s.assignments))
        ctx = dict(solver=kind, config=cfg, graph=describe_graph(vs, fs), state=i)
        check(close(s.residual_vector, r, 1e-9), "state holds the residual vector of other assignments", got=s.residual_vector, want=r, **ctx)
        check(close(s.cost, np.sum(r**2), 1e-9), "state holds the cost of other assignments", got=s.cost, want=np.sum(r**2), **ctx)
        check(int(s.iterations) == i, "iteration count", got=s.iterations, **ctx)


def c14(rng, k):
    if k % 8 >= 6:
        return _direct_states(rng, k)
    run_and_compare(rng, k, KINDS[k % 4], "none", ("linear", "lambda", "delta", "final"))


def c15(rng, k):
    run_and_compare(rng, k, ["lm", "dogleg"][k % 2], "none", ("steps", "linear", "lambda", "delta", "final", "descent"))


def c16(rng, k):
    run_and_compare(rng, k, "dogleg", "none", ("delta",))


def c17(rng, k):
    run_and_compare(rng, k, KINDS[k % 4], ["none", "cost", "gradient", "parameter"][(k // 4) % 4], ("steps", "final"), whole=k % 32 in (4, 5))


def c18(rng, k):
    kind = KINDS[k % 4]
    vs, fs, orders, perms = make_problem(rng, (k // 4) % 3)
    vals = random_values(rng, vs)
    n = int(rng.integers(1, 4)) if kind != "fixed" else 2
    unroll = bool(k // 12 % 2)
    linear = ["scripted", "scripted", "default", "cg"][(k // 4 + k) % 4]
    verbose = (k // 4 + k) % 8 == 1

    def solver():
        kw = {"scripted": lambda: dict(linear_solver=ScriptedSolver()), "default": dict, "cg": lambda: dict(linear_solver=jaxfg.sparse.ConjugateGradientSolver(tolerance=1e-11))}[linear]()
        if kind == "fixed":
            return S.FixedIterationGaussNewtonSolver(verbose=verbose, iterations=n, unroll=unroll, **kw)
        cls = {"gn": S.GaussNewtonSolver, "lm": S.LevenbergMarquardtSolver, "dogleg": S.DoglegSolver}[kind]
        return cls(verbose=verbose, max_iterations=n, cost_tolerance=-1.0, parameter_tolerance=0.0, **kw)

    def solve(perm, order):
        g = jaxfg.core.StackedFactorGraph.make([fs[i] for i in perm])
        a = VA.make_from_dict({v: vals[v] for v in order or g.get_variables()})
        LOG.reset(make_script(rng, "exact", 1))
        with contextlib.redirect_stdout(io.StringIO()):
            out = g.solve(a, solver())
            jax.block_until_ready(out.storage)
            hcb.barrier_wait()
            jax.effects_barrier()
        return a, out, [c["A"] for c in LOG.calls]

    a1, o1, _ = solve(perms[0], orders[0])
    ctx = dict(solver=kind, linear_solver=linear, iterations=n, graph=describe_graph(vs, fs))
    check(o1.storage_layout == a1.storage_layout, "the result is not in the caller's layout", **ctx)
    for perm, order in ((perms[0], orders[2]), (perms[1], orders[1])):
        a2, o2, _ = solve(perm, order)
        check(o2.storage_layout == a2.storage_layout, "the result is not in the caller's layout", **ctx)
        for j, v in enumerate(vs):
            check(close(flat(o2.get_value(v)), flat(o1.get_value(v)), 1e-5), f"variable {j} depends on the order of variables or factors", got=flat(o2.get_value(v)), want=flat(o1.get_value(v)), factor_order=perm, variable_order=[vs.index(v) for v in order], **ctx)
