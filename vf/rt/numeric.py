"""Concrete checks: factors, sparse matrices, linear solvers, noise, variables, covariance."""
from .gen import *  # noqa: F401,F403
from .gen import check, close, known, same, tree_same, flat, leaves
import inspect
import scipy.sparse

# ---------------------------------------------------------------- C08


def c08(rng, k):
    t = LIE_TYPES[k % 4]
    g = t.get_group_type()
    scale = [0.3, 1.0, 2.0][int(rng.integers(3))]
    ex = lambda: g.exp(jnp.asarray(rng.normal(size=g.tangent_dim) * scale))
    noise = random_noise(rng, g.tangent_dim, ("diag",))
    ctx = dict(group=g.__name__)
    a, b = t(), t()
    # documented residuals, away from zero
    T, mu = ex(), ex()
    p = jaxfg.geometry.PriorFactor.make(a, mu, noise)
    check(p.variables == (a,) and p.noise_model is noise and tree_same(p.mu, mu), "prior factor does not hold its arguments", **ctx)
    want = (T.inverse() @ mu).log()
    check(close(p.compute_residual_vector((T,)), want, 1e-7), "prior residual", got=p.compute_residual_vector((T,)), want=want, **ctx)
    Ta, Tb, M = ex(), ex(), ex()
    bt = jaxfg.geometry.BetweenFactor.make(a, b, M, noise)
    check(bt.variables == (a, b) and bt.noise_model is noise and tree_same(bt.T_a_b, M), "between factor does not hold its arguments", **ctx)
    vals = bt.build_variable_value_tuple((Ta, Tb))
    want = ((Ta.inverse() @ Tb).inverse() @ M).log()
    check(close(bt.compute_residual_vector(vals), want, 1e-7), "between residual", got=bt.compute_residual_vector(vals), want=want, **ctx)
    # Jacobians at zero residual
    p0 = jaxfg.geometry.PriorFactor.make(a, T, noise)
    M0 = Ta.inverse() @ Tb
    b0 = jaxfg.geometry.BetweenFactor.make(a, b, M0, noise)

    def fd(fn, n):
        h = 1e-6
        E = np.eye(n) * h
        return np.stack([(np.asarray(fn(jnp.asarray(e))) - np.asarray(fn(jnp.asarray(-e)))) / (2 * h) for e in E], axis=1)

    n = g.tangent_dim
    (J,) = p0.compute_residual_jacobians((T,))
    want = fd(lambda d: p0.compute_residual_vector((t.manifold_retract(T, d),)), n)
    check(np.shape(J) == (n, n) and close(J, want, 2e-5), "prior Jacobian", got=J, want=want, **ctx)
    v0 = b0.build_variable_value_tuple((Ta, Tb))
    Js = b0.compute_residual_jacobians(v0)
    wa = fd(lambda d: b0.compute_residual_vector(b0.build_variable_value_tuple((t.manifold_retract(Ta, d), Tb))), n)
    wb = fd(lambda d: b0.compute_residual_vector(b0.build_variable_value_tuple((Ta, t.manifold_retract(Tb, d)))), n)
    check(len(Js) == 2 and close(Js[0], wa, 2e-5), "between Jacobian, first pose", got=Js[0], want=wa, **ctx)
    check(close(Js[1], wb, 2e-5), "between Jacobian, second pose", got=Js[1], want=wb, **ctx)


# ---------------------------------------------------------------- C09


def random_coo(rng, m, n, nnz, dup=True, unit=1.0):
    if dup:
        rows, cols = rng.integers(m, size=nnz), rng.integers(n, size=nnz)
    else:
        nnz = min(nnz, m * n)
        p = rng.choice(m * n, size=nnz, replace=False)
        rows, cols = p // n, p % n
    vals = rng.normal(size=nnz) * unit
    A = jaxfg.sparse.SparseCooMatrix(
        values=jnp.asarray(vals),
        coords=jaxfg.sparse.SparseCooCoordinates(rows=jnp.asarray(rows), cols=jnp.asarray(cols)),
        shape=(m, n),
    )
    D = np.zeros((m, n))
    np.add.at(D, (rows, cols), vals)
    return A, D, rows, cols, vals


def c09(rng, k):
    m, n = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    nnz = int(rng.integers(0, 9))
    if k % 16 == 9:
        m, n, nnz = (int(rng.integers(20, 300)) for _ in range(3))
    if k % 8 == 3:
        n = nnz = m
    unit = 10.0 ** rng.uniform(-12, 12) if k % 4 == 1 else 1.0  # small and large entries
    A, D, rows, cols, vals = random_coo(rng, m, n, nnz, unit=unit)
    close = lambda x, y: globals()["close"](np.asarray(x) / unit, np.asarray(y) / unit)
    ctx = dict(shape=(m, n), rows=rows, cols=cols, values=vals)
    check(close(A.as_dense(), D), "dense form", got=A.as_dense(), **ctx)
    x, y = rng.normal(size=n), rng.normal(size=m)
    check(close(A @ jnp.asarray(x), D @ x), "matrix-vector product", got=A @ jnp.asarray(x), want=D @ x, **ctx)
    xi = rng.integers(-3, 4, size=n)
    check(close(A @ jnp.asarray(xi), D @ xi), "matrix-vector product with an integer vector", got=A @ jnp.asarray(xi), want=D @ xi, **ctx)
    check(tuple(A.T.shape) == (n, m) and close(A.T.as_dense(), D.T), "transpose", **ctx)
    check(close(A.T @ jnp.asarray(y), D.T @ y), "transposed product", **ctx)
    check(tuple(A.T.T.shape) == (m, n) and close(A.T.T.as_dense(), D), "double transpose", **ctx)
    S = A.as_scipy_coo_matrix()
    check(S.shape == (m, n) and close(S.toarray(), D), "scipy form", **ctx)
    B = jaxfg.sparse.SparseCooMatrix.from_scipy_coo_matrix(S)
    check(tuple(B.shape) == (m, n) and close(B.as_dense(), D) and close(B @ jnp.asarray(x), D @ x), "scipy round trip", **ctx)
    Dm = unit * rng.normal(size=(m, n)) * (rng.random(size=(m, n)) < 0.5)
    B = jaxfg.sparse.SparseCooMatrix.from_scipy_coo_matrix(scipy.sparse.coo_matrix(Dm))
    check(close(B.as_dense(), Dm), "from scipy", **ctx)
    try:
        A @ jnp.ones((n + 1,))
    except AssertionError:
        pass
    else:
        check(False, "a vector of the wrong length was accepted", **ctx)


# ---------------------------------------------------------------- C10

_shared_cholmod = {}


def c10(rng, k):
    n = int(rng.integers(1, 5))
    m = n + int(rng.integers(0, 4))
    kind = k % 3
    if k % 15 == 7:  # many unknowns
        n = m = int(rng.integers(80, 110))
    if k % 12 == 6:
        # a new solver object each time, for patterns that agree in shape and number of entries; large and
        # dense enough for a supernodal factor
        n, m, full = (200, 201, 150) if k % 24 == 6 else (4, 5, 2)
        rows = np.concatenate([np.arange(n), np.full(full, n)])
        cols = np.concatenate([np.arange(n), rng.choice(n, size=full, replace=False)])
        solver = jaxfg.sparse.CholmodSolver()
        vals = rng.normal(size=n + full) * 0.3 + 2.0 * (np.arange(n + full) < n)
        A = jaxfg.sparse.SparseCooMatrix(values=jnp.asarray(vals), coords=jaxfg.sparse.SparseCooCoordinates(rows=jnp.asarray(rows), cols=jnp.asarray(cols)), shape=(m, n))
        D = np.zeros((m, n))
        D[rows, cols] = vals
    elif kind == 0:
        # one pattern per solver object, many calls
        key = (n, m)
        if key not in _shared_cholmod:
            while True:
                A, D, *_ = random_coo(rng, m, n, m * n, dup=False)
                again = rng.integers(m * n, size=(n + m) % 3)  # repeated coordinates
                rows, cols = (np.concatenate([np.asarray(x), np.asarray(x)[again]]) for x in (A.coords.rows, A.coords.cols))
                _shared_cholmod[key] = (jaxfg.sparse.CholmodSolver(), rows, cols)
                break
        solver, rows, cols = _shared_cholmod[key]
        vals = rng.normal(size=len(rows))
        A = jaxfg.sparse.SparseCooMatrix(values=jnp.asarray(vals), coords=jaxfg.sparse.SparseCooCoordinates(rows=jnp.asarray(rows), cols=jnp.asarray(cols)), shape=(m, n))
        D = np.zeros((m, n))
        np.add.at(D, (rows, cols), vals)
    else:
        while n > 40:
            # well conditioned, and far from being solved in a few rounds
            i = np.arange(m * 2)
            rows, cols = i % m, (i % m + i // m) % n
            vals = np.where(i < m, 1.0, 0.82) * rng.uniform(0.99, 1.01, size=len(i))
            A = jaxfg.sparse.SparseCooMatrix(values=jnp.asarray(vals), coords=jaxfg.sparse.SparseCooCoordinates(rows=jnp.asarray(rows), cols=jnp.asarray(cols)), shape=(m, n))
            D = np.zeros((m, n))
            np.add.at(D, (rows, cols), vals)
            break
        while n <= 40:
            # also with repeated coordinates, which add up
            dup = k % 6 in (2, 4)
            A, D, rows, cols, vals = random_coo(rng, m, n, int(rng.integers(n, m * n + 1)) + (n if dup else 0), dup=dup)
            if np.linalg.matrix_rank(D) == n and np.linalg.cond(D) < 50:
                break
        solver = None
    if kind == 0 and np.linalg.cond(D) > 1e4:
        return
    b = rng.normal(size=n)
    lam = float([0.0, 0.3, 2.0, 1e-5, 1e-9, 3e5][int(rng.integers(6))])
    it = int(rng.integers(0, 6))
    if k == 4:  # the input of a listed finding
        m = n = 1
        rows, cols, vals, b, lam = np.zeros(2, int), np.zeros(2, int), np.ones(2), np.ones(1), 1.0
        A = jaxfg.sparse.SparseCooMatrix(values=jnp.asarray(vals), coords=jaxfg.sparse.SparseCooCoordinates(rows=jnp.asarray(rows), cols=jnp.asarray(cols)), shape=(1, 1))
        D = np.full((1, 1), 2.0)
    AtA = D.T @ D
    ctx = dict(A=D, rhs=b, damping=lam, iteration=it)
    if kind == 0:
        solve = solver.solve_subproblem
        if k % 2:  # the way the nonlinear solvers call it
            solve = jax.jit(lambda A, b, lam, it: solver.solve_subproblem(A, b, lam, it))
        x = solve(A, jnp.asarray(b), lam, it)
        M = AtA + (lam + 1e-5) * np.eye(n)
        check(np.shape(x) == (n,) and close(M @ np.asarray(x), b, 1e-6), "CHOLMOD solution", residual=M @ np.asarray(x) - b, **ctx)
    else:
        if kind == 1:
            tol = float([1e-5, 1e-2, 1e-10][int(rng.integers(3))])
            s = jaxfg.sparse.ConjugateGradientSolver(tolerance=tol)
            eff = tol
        else:
            tol = float([1e-1, 1e-2, 1e-8][int(rng.integers(3))])
            s = jaxfg.sparse.InexactStepConjugateGradientSolver(inexact_step_eta=tol)
            eff = tol / (it + 1)
        # record what is handed to the conjugate gradient routine
        rec = {}
        real = jax.scipy.sparse.linalg.cg

        def spy(A, b, x0=None, *, tol=1e-5, atol=0.0, maxiter=None, M=None):
            rec.update(A=A, b=b, x0=x0, tol=tol, atol=atol, maxiter=maxiter, M=M)
            return real(A=A, b=b, x0=x0, tol=tol, atol=atol, maxiter=maxiter, M=M)

        jax.scipy.sparse.linalg.cg = spy
        try:
            x = s.solve_subproblem(A, jnp.asarray(b), lam, it)
        finally:
            jax.scipy.sparse.linalg.cg = real
        M = AtA + lam * np.diag(np.diag(AtA))
        check(np.shape(x) == (n,), "wrong shape", **ctx)
        z = rng.normal(size=n)
        within = lambda M: max(eff * np.linalg.norm(b) * 1.001, 1e-7 * np.linalg.cond(M))
        solves = lambda M: np.linalg.norm(M @ np.asarray(x) - b) <= within(M) and (not rec or close(rec["A"](jnp.asarray(z)), M @ z))
        # listed in KNOWN_FINDINGS.txt: the damping ignores that repeated coordinates add up
        squares = np.bincount(cols, weights=np.asarray(vals) ** 2, minlength=n)
        listed = AtA + lam * np.diag(squares)
        if not close(listed, M) and not solves(M) and solves(listed):
            known("C10", "cg-damping-repeated-coordinates", "repeated coordinates are not added up for the damping", got=x, want=np.linalg.solve(M, b), entries=vals, rows=rows, cols=cols, **ctx)
            M = listed
        res = M @ np.asarray(x) - b
        bound = within(M)
        check(np.linalg.norm(res) <= bound, "conjugate gradient solution outside its tolerance", residual=np.linalg.norm(res), bound=bound, **ctx)
        if rec:
            check(close(rec["tol"], eff, 1e-12) and close(rec["atol"], 0.0), "tolerance handed to conjugate gradients", got=rec["tol"], want=eff, **ctx)
            check(close(rec["A"](jnp.asarray(z)), M @ z), "operator is not the damped normal matrix", got=rec["A"](jnp.asarray(z)), want=M @ z, **ctx)
            check(close(rec["b"], b), "right-hand side", **ctx)
            check(rec["x0"] is None or close(rec["x0"], np.zeros(n)), "initial guess", **ctx)


# ---------------------------------------------------------------- C11 / C12


def c11(rng, k):
    n = int(rng.integers(1, 5)) if k % 8 < 6 else int(rng.integers(5, 15))
    r = rng.normal(size=n)
    J = rng.normal(size=(n, int(rng.integers(1, 5))))
    if k % 2:
        d = rng.uniform(0.05, 20.0, size=n) if k % 4 == 1 else 10 ** rng.uniform(-12, 12, size=n)
        arg = [jnp.asarray(d), list(d), d][int(rng.integers(3))]
        nm = jaxfg.noises.DiagonalGaussian.make_from_covariance(arg)
        P = np.diag(1 / d)
    else:
        m = rng.normal(size=(n, n))
        S = (m @ m.T + 0.1 * np.eye(n)) * (1.0 if k % 4 == 0 else 10 ** rng.uniform(-12, 12))
        nm = jaxfg.noises.Gaussian.make_from_covariance(jnp.asarray(S))
        P = np.linalg.inv(S)
    ctx = dict(precision=P, residual=r)
    w = np.asarray(nm.whiten_residual_vector(jnp.asarray(r)))
    check(w.shape == (n,) and close(w @ w, r @ P @ r, 1e-7), "whitened norm is not the Mahalanobis distance", got=w @ w, want=r @ P @ r, **ctx)
    check(nm.get_residual_dim() == n, "residual dimension", got=nm.get_residual_dim(), **ctx)
    W = np.asarray(nm.whiten_jacobian(jnp.asarray(J), jnp.asarray(w)))
    cols = np.stack([np.asarray(nm.whiten_residual_vector(jnp.asarray(J[:, i]))) for i in range(J.shape[1])], axis=1)
    check(W.shape == J.shape and close(W, cols, 1e-9), "Jacobian whitening is not the residual whitening of its columns", got=W, want=cols, jacobian=J, **ctx)


def c12(rng, k):
    n = int(rng.integers(1, 4)) if k % 16 < 12 else int(rng.integers(4, 13))
    inner = random_noise(rng, n, ("full", "diag"))
    delta = float(rng.uniform(0.1, 3.0)) if k % 32 < 24 else float(10 ** rng.uniform(-7, 4))
    r = rng.normal(size=n)
    w0 = ref_whiten(inner, r)
    mode = k % 4
    if mode == 0:
        r = r * (delta * rng.uniform(0.2, 0.95) / np.linalg.norm(w0))
    elif mode == 1:
        r = r * (delta * rng.uniform(1.05, 10.0) / np.linalg.norm(w0))
    elif mode == 2:
        r = r * (delta * (1 + 1e-6 * rng.choice([-1, 1])) / np.linalg.norm(w0))
    nm = jaxfg.noises.HuberWrapper(wrapped=inner, delta=delta)
    J = rng.normal(size=(n, int(rng.integers(1, 4))))
    w0 = ref_whiten(inner, r)
    nw = np.linalg.norm(w0)
    weight = 1.0 if nw < delta else np.sqrt(delta / nw)
    ctx = dict(delta=delta, whitened_norm=nw)
    w = np.asarray(nm.whiten_residual_vector(jnp.asarray(r)))
    size = np.linalg.norm(w0 * weight) or 1.0
    check(close(w / size, w0 * weight / size, 1e-7), "Huber residual", got=w, want=w0 * weight, **ctx)
    W = np.asarray(nm.whiten_jacobian(jnp.asarray(J), jnp.asarray(w)))
    want = ref_whiten_jac(inner, J, r) * weight
    tol = 1e-4 if mode == 2 else 1e-7
    size = np.max(np.abs(want)) or 1.0
    check(close(W / size, want / size, tol), "Huber Jacobian weight differs from the residual's", got=W, want=want, **ctx)
    check(nm.get_residual_dim() == n, "residual dimension", **ctx)
    if k % 8 == 1:
        v = R[2]()
        A = rng.normal(size=(n, 2))
        f = AffineFactor(variables=(v,), noise_model=nm, A=(jnp.asarray(A),), b=jnp.asarray(-r))
        g = jaxfg.core.StackedFactorGraph.make([f])
        a = jaxfg.core.VariableAssignments.make_from_dict({v: jnp.zeros(2)})
        rr = g.compute_whitened_residual_vector(a)
        Jg = g.compute_whitened_residual_jacobian(a, rr).as_dense()
        want = ref_whiten_jac(inner, A, r) * weight
        size = np.max(np.abs(want)) or 1.0
        check(close(np.asarray(Jg) / size, want / size, 1e-7), "Huber weight in the graph Jacobian", got=Jg, **ctx)


# ---------------------------------------------------------------- C19


def c19(rng, k):
    types = VECTOR_TYPES + [CurvedVar, StructVar, jaxfg.geometry.SE2Variable, jaxfg.geometry.SO3Variable]
    vs, fs = random_graph(rng, n_vars=int(rng.integers(1, 6)), n_factors=int(rng.integers(1, 6)), types=types, anchored=True, noise_kinds=("full", "diag"), kinds=("affine", "lie"))
    if k % 20 == 13:  # a long chain
        n = 60 if k % 40 == 33 else 80
        vs = [R[1 + i % 2]() for i in range(n)]
        pd = lambda v: type(v).get_parameter_dim()
        fs = [
            AffineFactor(variables=q, noise_model=random_noise(rng, 2, ("diag",)), A=tuple(jnp.asarray(rng.normal(size=(2, pd(v))) * 0.4 + np.eye(2)[:, : pd(v)] * 2 * (i == 0)) for i, v in enumerate(q)), b=jnp.asarray(rng.normal(size=2)))
            for q in [(v,) for v in vs] + list(zip(vs, vs[1:]))
        ]
    if k % 4 == 1:  # small and large information
        fs = [jdc.replace(f, noise_model=jax.tree_util.tree_map(lambda s: s * size, f.noise_model)) for size in [10 ** rng.uniform(-9, 6)] for f in fs]
    g = jaxfg.core.StackedFactorGraph.make(fs)
    vals = random_values(rng, vs)
    a = jaxfg.core.VariableAssignments.make_from_dict({v: vals[v] for v in shuffled(rng, vs)})
    r = g.compute_whitened_residual_vector(a)
    A = g.compute_whitened_residual_jacobian(a, r)
    D = np.zeros(A.shape)
    np.add.at(D, (np.asarray(A.coords.rows), np.asarray(A.coords.cols)), np.asarray(A.values))
    if np.linalg.cond(D) > 1e3:
        return
    S = np.linalg.inv(D.T @ D)
    ctx = dict(graph=describe_graph(vs, fs), covariance=S)
    C = jaxfg.experimental.SparseCovariance.make(g, a)
    unit = np.max(np.abs(S))
    close = lambda x, y, tol: globals()["close"](np.asarray(x) / unit, np.asarray(y) / unit, tol)
    L = g.local_storage_layout
    for _ in range(int(rng.integers(0, 6))):
        i, j = int(rng.integers(L.dim)), int(rng.integers(L.dim))
        check(close(C[i, j], S[i, j], 1e-6), f"entry {i},{j}", got=C[i, j], want=S[i, j], **ctx)
    for _ in range(2):
        q = shuffled(rng, vs)[: int(rng.integers(1, len(vs) + 1))]
        if k % 4 == 2:  # a variable asked for twice
            q.insert(int(rng.integers(len(q) + 1)), q[0])
        idx = [i for v in q for i in range(L.index_from_variable[v], L.index_from_variable[v] + v.get_local_parameter_dim())]
        got = C.compute_marginal(*q)
        check(close(got, S[np.ix_(idx, idx)], 1e-6), "marginal of variables", variables=[vs.index(v) for v in q], got=got, want=S[np.ix_(idx, idx)], **ctx)
    got = np.asarray(C.as_dense())
    check(close(got, S, 1e-6), "dense form by inversion", got=got, **ctx)
    got = np.asarray(C.as_dense(use_inverse=False))
    check(close(got, S, 1e-6), "dense form by recovery", got=got, **ctx)
    # a second covariance, of the same graph at other values or of other factors over the same variables
    if len(vs) > 8:
        return
    vals2 = random_values(rng, vs)
    g2 = jaxfg.core.StackedFactorGraph.make(fs if k % 2 else shuffled(rng, [jdc.replace(f, noise_model=jax.tree_util.tree_map(lambda s: s * 1.7, f.noise_model)) for f in fs]))
    a2 = jaxfg.core.VariableAssignments.make_from_dict({v: vals2[v] for v in vs})
    D2 = np.asarray(g2.compute_whitened_residual_jacobian(a2, g2.compute_whitened_residual_vector(a2)).as_dense())
    if np.linalg.cond(D2) > 1e3:
        return
    S2 = np.linalg.inv(D2.T @ D2)
    C2 = jaxfg.experimental.SparseCovariance.make(g2, a2)
    L2 = g2.local_storage_layout
    for C_, S_, L_, which in ((C2, S2, L2, "second"), (C, S, L, "first")):
        unit = np.max(np.abs(S_))
        idx = [i for v in vs for i in range(L_.index_from_variable[v], L_.index_from_variable[v] + v.get_local_parameter_dim())]
        got = C_.compute_marginal(*vs)
        check(globals()["close"](np.asarray(got) / unit, S_[np.ix_(idx, idx)] / unit, 1e-6), which + " of two covariances", got=got, want=S_[np.ix_(idx, idx)], **ctx)


# ---------------------------------------------------------------- C20


def c20(rng, k):
    t = ALL_TYPES[k % len(ALL_TYPES)]
    ctx = dict(type=tname(t))
    x = random_value(rng, t)
    d = t.get_default_value()
    n, l = t.get_parameter_dim(), t.get_local_parameter_dim()
    for y in (x, d):
        f = np.asarray(t.flatten(y))
        check(f.shape == (n,), "flattened length", got=f.shape, **ctx)
        check(same(f, flat(y)), "flattened order", **ctx)
        z = t.unflatten(jnp.asarray(f))
        check(tree_same(z, y), "round trip", got=flat(z), want=f, **ctx)
    v = rng.normal(size=n)
    check(same(np.asarray(t.flatten(t.unflatten(jnp.asarray(v)))), v), "round trip of a flat vector", **ctx)
    delta = jnp.asarray(rng.normal(size=l) * 0.5)
    if t in VECTOR_TYPES or t in (StructVar, DerivedVar):
        check(l == n, "local dimension defaults to the parameter dimension", **ctx)
        y = t.manifold_retract(x, delta)
        check(close(flat(y), flat(x) + np.asarray(delta)), "default retraction does not add the delta", **ctx)
    if t in VECTOR_TYPES:
        check(R[n] is t and close(d, np.zeros(n)) and np.shape(d) == (n,), "vector type", **ctx)
        m = int(rng.integers(1, 9))
        check(R[m] is R[m] and R[m].get_parameter_dim() == m and (R[m] is t) == (m == n), "vector types of equal dimension", dim=m, **ctx)
        if k < 2 * len(ALL_TYPES):
            many = [R[i] for i in range(1, 300)]
            check(R[n] is t and all(R[i + 1] is u for i, u in enumerate(many)), "vector types of equal dimension, many dimensions in use", **ctx)
    if t in LIE_TYPES:
        g = t.get_group_type()
        check(l == g.tangent_dim and n == g.parameters_dim, "group dimensions", **ctx)
        check(tree_same(d, g.identity()), "default is not the identity", **ctx)
        y = t.manifold_retract(x, delta)
        want = x @ g.exp(delta)
        check(close(flat(y), flat(want), 1e-9), "retraction is not right multiplication by the exponential", got=flat(y), want=flat(want), **ctx)
        names = {"SO2Variable": jaxlie.SO2, "SE2Variable": jaxlie.SE2, "SO3Variable": jaxlie.SO3, "SE3Variable": jaxlie.SE3}
        check(names[t.__name__] is g, "wrong group", **ctx)
    Js = t.manifold_retract_jacobian(x)
    ls = leaves(x)
    check(len(Js) == len(ls), "one retraction Jacobian per leaf", **ctx)
    h = 1e-6
    num = np.stack(
        [(flat(t.manifold_retract(x, jnp.asarray(e))) - flat(t.manifold_retract(x, jnp.asarray(-e)))) / (2 * h) for e in np.eye(l) * h], axis=1
    )
    got = np.concatenate([np.asarray(J).reshape((-1, l)) for J in Js], axis=0)
    for J, lf in zip(Js, ls):
        check(np.shape(J) == np.shape(lf) + (l,), "shape of a retraction Jacobian", got=np.shape(J), want=np.shape(lf) + (l,), **ctx)
    check(close(got, num, 1e-5), "retraction Jacobian is not the derivative at zero", got=got, want=num, **ctx)
    for p in t.__mro__[:0:-1]:
        if issubclass(p, jaxfg.core.VariableBase) and not inspect.isabstract(p):
            check(type(p.canonical_instance()) is p, "canonical instance of a parent type", **ctx)
    c = t.canonical_instance()
    check(t.canonical_instance() is c and type(c) is t, "canonical instance", **ctx)
    if k < 2 * len(ALL_TYPES):
        many = [R[i].canonical_instance() for i in range(1, 300)]
        check(t.canonical_instance() is c and all(R[i + 1].canonical_instance() is u for i, u in enumerate(many)), "canonical instance, many types in use", **ctx)
