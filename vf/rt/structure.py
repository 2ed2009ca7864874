"""Concrete checks: layouts, assignments, graphs (C01-C07, C13)."""
from .gen import *  # noqa: F401,F403
from .gen import check, close, same, tree_same, flat, leaves
import itertools


# ---------------------------------------------------------------- C01


def c01(rng, k):
    n = int(rng.integers(1, 9))
    if k % 64 == 21:
        n = int(rng.integers(40, 90))
    vs = random_variables(rng, n)
    if k % 5 == 4:  # interleave types deterministically
        ts = [ALL_TYPES[i] for i in rng.choice(len(ALL_TYPES), size=3, replace=False)]
        vs = [ts[i % 3]() for i in range(n)]
    for local in (False, True):
        arg = list(vs) if k % 3 == 0 else (tuple(vs) if k % 3 == 1 else {v: None for v in vs}.keys())
        L = jaxfg.core.StorageLayout.make(arg, local=local)
        ctx = dict(variables=[tname(type(v)) for v in vs], local=local, index=[L.index_from_variable.get(v) for v in vs], dim=L.dim)
        dim = lambda t: t.get_local_parameter_dim() if local else t.get_parameter_dim()
        check(L.local_flag == local, "layout does not record its kind", **ctx)
        check(set(L.index_from_variable) == set(vs) and len(L.index_from_variable) == n, "layout does not hold the variables", **ctx)
        owner = {}
        for v in vs:
            s = L.index_from_variable[v]
            for i in range(s, s + dim(type(v))):
                check(i not in owner, "blocks overlap", position=i, **ctx)
                owner[i] = v
        check(sorted(owner) == list(range(L.dim)), "blocks do not fill the storage vector", **ctx)
        order = list(L.get_variables())
        check(set(order) == set(vs) and len(order) == n, "enumeration is not the variables", **ctx)
        pos = [L.index_from_variable[v] for v in order]
        check(pos == sorted(pos) and len(set(pos)) == n, "variables not enumerated in ascending positions", **ctx)
        types = list(L.get_variable_types())
        check(set(types) == set(type(v) for v in vs) and len(types) == len(set(types)), "type enumeration wrong", **ctx)
        tpos = [L.index_from_variable_type[t] for t in types]
        check(tpos == sorted(tpos) and len(set(tpos)) == len(tpos), "types not enumerated in ascending positions", **ctx)
        check(set(L.count_from_variable_type) == set(types) == set(L.index_from_variable_type), "type tables disagree", **ctx)
        for t in types:
            members = [v for v in order if type(v) is t]
            check(L.count_from_variable_type[t] == len(members), "wrong count of a type", type=tname(t), **ctx)
            starts = sorted(L.index_from_variable[v] for v in members)
            want = [L.index_from_variable_type[t] + i * dim(t) for i in range(len(members))]
            check(starts == want, "variables of one type are not one contiguous run", type=tname(t), **ctx)
        check(isinstance(hash(L), int), "layout not hashable", **ctx)
    L1 = jaxfg.core.StorageLayout.make(vs)
    L2 = jaxfg.core.StorageLayout.make(list(vs), local=False)
    check(L1 == L2 and hash(L1) == hash(L2), "equal layouts do not compare equal")


# ---------------------------------------------------------------- C02


def c02(rng, k):
    n = int(rng.integers(1, 7))
    vs = random_variables(rng, n)
    if k % 32 == 19:  # positions that do not fit 8 or 16 bits
        vs = shuffled(rng, vs + [R[300]() for _ in range(3)] + [R[LONG]()])
        n = len(vs)
    vals = odd_values(rng, vs)
    ctx = dict(variables=[tname(type(v)) for v in vs])
    VA = jaxfg.core.VariableAssignments

    def agree(a, want, what):
        check(set(a.get_variables()) == set(want), what + ": wrong variables", **ctx)
        for i, v in enumerate(vs):
            got = a.get_value(v)
            check(tree_same(got, want[v]), what + f": wrong value for variable {i}", got=flat(got), want=flat(want[v]), **ctx)
        order = list(a.get_variables())
        for t in set(map(type, vs)):
            got = a.get_stacked_value(t)
            members = [v for v in order if type(v) is t]
            want_t = jax.tree_util.tree_map(lambda *ls: np.stack(ls), *[want[v] for v in members])
            check(tree_same(got, want_t), what + f": wrong stacked values for {tname(t)}", got=flat(got), want=flat(want_t), **ctx)
        d = a.as_dict()
        check(set(d) == set(want) and all(tree_same(d[v], want[v]) for v in want), what + ": dictionary form differs", **ctx)
        s = np.concatenate([flat(want[v]) for v in sorted(vs, key=lambda v: a.storage_layout.index_from_variable[v])])
        check(same(np.asarray(a.storage), s), what + ": storage vector differs", **ctx)

    default = {v: type(v).get_default_value() for v in vs}
    mode = k % 4
    if mode == 0:
        a = VA.make_from_dict({v: vals[v] for v in shuffled(rng, vs)})
        want = vals
        agree(a, want, "from dictionary")
    elif mode == 1:
        given = {v: vals[v] for v in shuffled(rng, vs) if rng.random() < 0.5}
        a = VA.make_from_partial_dict(vs, given)
        want = {v: given.get(v, default[v]) for v in vs}
        agree(a, want, "from partial dictionary")
    elif mode == 2:
        a = VA.make_from_defaults(vs)
        want = default
        agree(a, want, "from defaults")
    else:
        a = VA.make_from_partial_dict(vs, None)
        want = default
        agree(a, want, "from no dictionary")
    # a history of updates
    if rng.random() < 0.5:
        a = jdc.replace(a, storage=np.asarray(a.storage))
    for _ in range(int(rng.integers(1, 5))):
        v = vs[int(rng.integers(n))]
        before = np.array(a.storage)
        x = odd_value(rng, type(v))
        b = a.set_value(v, x)
        check(same(np.asarray(a.storage), before), "set_value changed its input", **ctx)
        check(b.storage_layout == a.storage_layout, "set_value changed the layout", **ctx)
        a = b
        want = {**want, v: x}
        agree(a, want, "after set")


# ---------------------------------------------------------------- C03


def c03(rng, k):
    n = int(rng.integers(1, 7))
    vs = random_variables(rng, n)
    if k % 32 == 19:  # positions that do not fit 8 or 16 bits
        vs = shuffled(rng, vs + [R[300]() for _ in range(3)] + [R[LONG]()])
        n = len(vs)
    local = bool(k % 2)
    mk = lambda o: jaxfg.core.StorageLayout.make(o, local=local)
    L1, L2 = mk(shuffled(rng, vs)), mk(shuffled(rng, vs))
    a = jaxfg.core.VariableAssignments(storage=jnp.asarray(rng.normal(size=L1.dim)), storage_layout=L1)
    ctx = dict(variables=[tname(type(v)) for v in vs], local=local, index1=[L1.index_from_variable[v] for v in vs], index2=[L2.index_from_variable[v] for v in vs])
    b = a.update_storage_layout(L2)
    check(b.storage_layout == L2, "requested layout not used", **ctx)
    check(np.shape(b.storage) == (L2.dim,), "wrong storage size", **ctx)
    for i, v in enumerate(vs):
        d = v.get_local_parameter_dim() if local else v.get_parameter_dim()
        s1, s2 = L1.index_from_variable[v], L2.index_from_variable[v]
        check(same(np.asarray(a.storage)[s1 : s1 + d], np.asarray(b.storage)[s2 : s2 + d]), f"value of variable {i} changed", old=a.storage, new=b.storage, **ctx)
        if not local:
            check(tree_same(a.get_value(v), b.get_value(v)), f"value of variable {i} changed (lookup)", **ctx)
    c = a.update_storage_layout(mk(list(L1.get_variables())))
    check(c.storage_layout == L1 and same(c.storage, a.storage), "conversion to the same layout changed something", **ctx)


# ---------------------------------------------------------------- C04


def c04(rng, k):
    n = int(rng.integers(1, 6))
    vs = random_variables(rng, n)
    if k % 32 == 19:  # positions that do not fit 8 or 16 bits
        vs = shuffled(rng, vs + [R[300]() for _ in range(3)] + [R[LONG]()])
        n = len(vs)
    vals = random_values(rng, vs)
    o1, o2 = (list(vs), list(vs)) if k % 4 == 0 else (shuffled(rng, vs), shuffled(rng, vs))
    a = jaxfg.core.VariableAssignments.make_from_dict({v: vals[v] for v in o1})
    LL = jaxfg.core.StorageLayout.make(o2, local=True)
    d = jnp.asarray(rng.normal(size=LL.dim) * (float(rng.choice([1e-5, 30.0, 1e5])) if k % 4 == 1 else 1.0))
    b = a.manifold_retract(jaxfg.core.VariableAssignments(storage=d, storage_layout=LL))
    ctx = dict(value_order=[tname(type(v)) + f"#{vs.index(v)}" for v in o1], delta_order=[tname(type(v)) + f"#{vs.index(v)}" for v in o2])
    check(b.storage_layout == a.storage_layout, "retraction changed the layout", **ctx)
    for i, v in enumerate(vs):
        s = LL.index_from_variable[v]
        want = type(v).manifold_retract(vals[v], d[s : s + v.get_local_parameter_dim()])
        check(tree_same(b.get_value(v), want, 1e-9), f"variable {i} not moved by its own delta", got=flat(b.get_value(v)), want=flat(want), **ctx)


# ---------------------------------------------------------------- C05


def _graph_for(rng, k, **kw):
    if k % 32 == 11:
        vs, fs = long_chain(rng, **kw)
    elif k % 32 == 27:
        vs, fs = long_vector(rng, **kw)
    elif k % 4 == 0:
        # many similar factors: same class, different parameters / noise / dims
        types = [ALL_TYPES[i] for i in rng.choice(len(ALL_TYPES), size=2, replace=False)]
        vs, fs = random_graph(rng, n_vars=4, n_factors=6, types=types, kinds=("affine", "curved"), **kw)
    elif k % 4 == 2:
        vs, fs = grouped_graph(rng, big=k % 16 == 6, static=k % 8 == 2, **kw)
    else:
        vs, fs = random_graph(rng, **kw)
    if k % 8 == 1:  # values by name
        kind = kw.get("noise_kinds", ("full",))[0]
        for _ in range(2):
            three = tuple(vs[i] for i in rng.integers(len(vs), size=3))
            fs.insert(int(rng.integers(len(fs) + 1)), NamedFactor(variables=three, noise_model=random_noise(rng, 2, (kind,)), w=jnp.asarray(rng.normal())))
    if k % 16 == 13:  # far from solved
        n = type(vs[0]).get_parameter_dim()
        fs.append(AffineFactor(variables=(vs[0],), noise_model=random_noise(rng, 2, ("diag",)), A=(jnp.asarray(rng.normal(size=(2, n))),), b=jnp.asarray(rng.normal(size=2) * 1e8)))
    if k % 8 == 5:  # parameters of one size and several shapes
        kind = kw.get("noise_kinds", ("full",))[0]
        for shape in ((2, 3), (3, 2), (6,), (2, 3), (1, 6), (3, 2)):
            fs.insert(
                int(rng.integers(len(fs) + 1)),
                ShapedFactor(variables=(vs[0],), noise_model=random_noise(rng, 2, (kind,)), M=jnp.asarray(rng.normal(size=shape))),
            )
        # whole numbers among them
        fs.insert(0, ShapedFactor(variables=(vs[0],), noise_model=random_noise(rng, 2, (kind,)), M=jnp.asarray(rng.integers(-4, 5, size=(2, 3)))))
    if k % 8 == 7:  # a factor that is given twice
        fs = fs + [fs[int(rng.integers(len(fs)))]]
    return vs, fs


def grouped_graph(rng, noise_kinds=("full", "diag", "huber"), big=False, static=False, **kw):
    """Several groups of several factors that differ in variables and parameters only, in mixed order;
    residuals of different sizes, so that some lie beyond the threshold of a Huber model. A factor may use
    a variable twice. `big`: long residuals, larger groups, small or large covariances. `static`: factors
    that agree in everything but a static field."""
    types = [ALL_TYPES[i] for i in rng.choice(len(ALL_TYPES), size=2, replace=False)]
    vs = random_variables(rng, 5, types)
    fs = []
    for _ in range(int(rng.integers(2, 4))):
        kind = noise_kinds[-1] if rng.random() < 0.5 else noise_kinds[int(rng.integers(len(noise_kinds)))]
        inner = ("full", "diag")[int(rng.integers(2))]
        rd = int(rng.integers(7, 13)) if big else int(rng.integers(1, 4))
        scale = 10 ** rng.uniform(-6, 6) if big else 1.0
        want = [type(vs[i]) for i in rng.choice(len(vs), size=int(rng.integers(1, 3)), replace=False)]
        for _ in range(int(rng.integers(6, 11)) if big else int(rng.integers(2, 5))):
            chosen = []
            again = rng.random() < 0.15
            for t in want:
                pool = [v for v in vs if type(v) is t and (again or v not in chosen)]
                chosen.append(pool[int(rng.integers(len(pool)))])
            if kind == "huber":
                noise = jaxfg.noises.HuberWrapper(wrapped=random_noise(rng, rd, (inner,), scale), delta=float(rng.uniform(0.2, 2.0)))
            else:
                noise = random_noise(rng, rd, (kind,), scale)
            if static:
                params = {"w": jnp.asarray(rng.normal(size=rd) * 0.5), "b": jnp.asarray(rng.normal(size=rd))}
                fs.append(CurvedFactor(variables=tuple(chosen), noise_model=noise, params=params, power=int(rng.integers(1, 4))))
                continue
            fs.append(
                AffineFactor(
                    variables=tuple(chosen), noise_model=noise,
                    A=tuple(jnp.asarray(rng.normal(size=(rd, type(v).get_parameter_dim()))) for v in chosen),
                    b=jnp.asarray(rng.normal(size=rd) * 10 ** rng.uniform(-1, 1.5)),
                )
            )
    used = {v for f in fs for v in f.variables}
    return [v for v in vs if v in used], shuffled(rng, fs)


def long_chain(rng, noise_kinds=("full", "diag", "huber"), **kw):
    """Over 256 rows and columns."""
    vs = [R[2]() for _ in range(140)]
    kind = noise_kinds[-1]
    noise = lambda: jaxfg.noises.HuberWrapper(wrapped=random_noise(rng, 2, ("diag",)), delta=float(rng.uniform(0.2, 2.0))) if kind == "huber" else random_noise(rng, 2, (kind,))
    fs = [
        AffineFactor(variables=vs_, noise_model=noise(), A=tuple(jnp.asarray(rng.normal(size=(2, 2))) for _ in vs_), b=jnp.asarray(rng.normal(size=2)))
        for vs_ in shuffled(rng, [(vs[i], vs[i + 1]) for i in range(139)])
    ]
    return vs, fs


def long_vector(rng, noise_kinds=("full", "diag", "huber"), **kw):
    """Over 2^15 columns: a long vector between short ones."""
    vs, fs = random_graph(rng, n_vars=3, n_factors=4, types=[R[1], R[3], jaxfg.geometry.SE2Variable], noise_kinds=noise_kinds, **kw)
    v = R[LONG]()
    fs.insert(len(fs) // 2, SumFactor(variables=(v,), noise_model=random_noise(rng, 1, noise_kinds), s=jnp.asarray(rng.normal(size=LONG))))
    return vs + [v], fs


def c05(rng, k):
    vs, fs = _graph_for(rng, k)
    ctx = dict(graph=describe_graph(vs, fs))
    use_onp = bool(rng.integers(2))
    fs_arg = tuple(fs) if k % 2 else list(fs)
    g = jaxfg.core.StackedFactorGraph.make(fs_arg, use_onp=use_onp)
    vals = random_values(rng, vs)
    order = shuffled(rng, vs)
    a = jaxfg.core.VariableAssignments.make_from_dict({v: vals[v] for v in order})
    r = np.asarray(g.compute_whitened_residual_vector(a))
    blocks = [ref_whiten(f.noise_model, ref_residual(f, vals)) for f in fs]
    check(r.shape == (sum(len(b) for b in blocks),), "residual vector has the wrong length", got=r.shape, **ctx)
    check(g.residual_dim == r.shape[0], "recorded residual dimension differs", **ctx)
    check(set(g.get_variables()) == set(vs), "graph variables differ", **ctx)
    # exactly one block per factor: greedy cover in stack order
    todo = list(range(len(fs)))
    i = 0
    while i < len(r):
        m = [j for j in todo if i + len(blocks[j]) <= len(r) and close(r[i : i + len(blocks[j])], blocks[j])]
        check(m, "no factor produces the residual block at this row", row=i, got=r[i:], want={j: blocks[j] for j in todo}, **ctx)
        j = max(m, key=lambda j: len(blocks[j]))
        todo.remove(j)
        i += len(blocks[j])
    check(not todo, "a factor has no block", **ctx)
    cost, r2 = g.compute_cost(a)
    want = ref_cost(fs, vals)
    check(close(cost, want, 1e-8) and close(r2, r), "cost is not the sum of the factors' costs", got=cost, want=want, **ctx)
    # permuted factors and layout
    g2 = jaxfg.core.StackedFactorGraph.make(shuffled(rng, fs), use_onp=not use_onp)
    a2 = a.update_storage_layout(jaxfg.core.StorageLayout.make(shuffled(rng, vs)))
    check(close(g2.compute_cost(a2)[0], want, 1e-8), "cost depends on factor or variable order", **ctx)
    for f in fs[:2]:
        tup = f.get_variable_values_from_assignments(a)
        check(len(tup) == len(f.variables) and all(tree_same(x, vals[v]) for x, v in zip(tup, f.variables)), "factor reads other values than its own", **ctx)
        check(close(f.compute_residual_vector(tup), ref_residual(f, vals)), "residual through value tuple differs", **ctx)


# ---------------------------------------------------------------- C06 / C07


def num_jac(f, values, v_index):
    """Derivative of the factor residual wrt local delta of one variable, by forward-mode AD of
    the composition residual(retract(x, delta)) (independent of the library's composition)."""
    v = f.variables[v_index]
    t = type(v)
    vs = list(factor_values(f, values))

    def fn(delta):
        w = list(vs)
        w[v_index] = t.manifold_retract(vs[v_index], delta)
        tup = factor_values(f, values)
        return f.compute_residual_vector(tuple(w) if type(tup) is tuple else type(tup)(*w))

    return np.asarray(jax.jacrev(fn)(jnp.zeros(t.get_local_parameter_dim())))


def c06(rng, k):
    vs, fs = _graph_for(rng, k)
    ctx = dict(graph=describe_graph(vs, fs))
    g = jaxfg.core.StackedFactorGraph.make(fs, use_onp=bool(k % 2))
    vals = random_values(rng, vs)
    a = jaxfg.core.VariableAssignments.make_from_dict({v: vals[v] for v in shuffled(rng, vs)})
    r = np.asarray(g.compute_whitened_residual_vector(a))
    A = g.compute_whitened_residual_jacobian(a, jnp.asarray(r))
    check(tuple(A.shape) == (g.residual_dim, g.local_storage_layout.dim), "wrong shape", got=A.shape, **ctx)
    rows, cols, v_ = map(np.asarray, (A.coords.rows, A.coords.cols, A.values))
    check(rows.shape == cols.shape == v_.shape and rows.ndim == 1, "coordinates and values differ in length", **ctx)
    check(np.all((rows >= 0) & (rows < A.shape[0]) & (cols >= 0) & (cols < A.shape[1])), "coordinate out of range", **ctx)
    if all(len(set(f.variables)) == len(f.variables) for f in fs):
        check(len(set(zip(rows.tolist(), cols.tolist()))) == len(rows), "an entry is stored twice", **ctx)
    D = np.zeros(A.shape)
    np.add.at(D, (rows, cols), v_)
    L = g.local_storage_layout
    # per-factor dense rows, from first principles
    per = []
    for f in fs:
        raw = ref_residual(f, vals)
        Js = [np.asarray(J) for J in f.compute_residual_jacobians(factor_values(f, vals))]
        blk = np.zeros((len(raw), L.dim))
        for v, J in zip(f.variables, Js):
            s = L.index_from_variable[v]
            blk[:, s : s + v.get_local_parameter_dim()] += ref_whiten_jac(f.noise_model, J, raw)
        per.append((ref_whiten(f.noise_model, raw), blk))
    i, todo = 0, list(range(len(fs)))
    while i < len(r):
        m = [j for j in todo if close(r[i : i + len(per[j][0])], per[j][0])]
        check(m, "residual rows do not belong to a factor", row=i, **ctx)
        j = max(m, key=lambda j: (close(D[i : i + len(per[j][0])], per[j][1], 1e-7), len(per[j][0])))
        n = len(per[j][0])
        check(close(D[i : i + n], per[j][1], 1e-7), f"Jacobian block of factor {j} is wrong", row=i, got=D[i : i + n], want=per[j][1], **ctx)
        todo.remove(j)
        i += n


def c07(rng, k):
    vs = random_variables(rng, int(rng.integers(1, 4)))
    f = random_factor(rng, vs, kinds=("affine", "curved"))
    vals = random_values(rng, vs)
    tup = factor_values(f, vals)
    Js = f.compute_residual_jacobians(tup)
    ctx = dict(factor=describe_graph(vs, [f]))
    check(isinstance(Js, tuple) and len(Js) == len(f.variables), "not one matrix per variable", **ctx)
    for i, v in enumerate(f.variables):
        want = num_jac(f, vals, i)
        check(np.shape(Js[i]) == (f.get_residual_dim(), v.get_local_parameter_dim()), "wrong shape", got=np.shape(Js[i]), **ctx)
        check(close(Js[i], want, 1e-7), f"Jacobian for variable {i} is not the derivative", got=Js[i], want=want, **ctx)


# ---------------------------------------------------------------- C13


def c13(rng, k):
    vs, fs = _graph_for(rng, k, noise_kinds=("full", "diag"))
    if k % 3 == 1:  # square roots of either sign
        sign = lambda s: s * rng.choice([-1.0, 1.0], size=s.shape[0]).reshape((-1,) + (1,) * (np.ndim(s) - 1))
        fs = [jdc.replace(f, noise_model=jax.tree_util.tree_map(sign, f.noise_model)) for f in fs]
    ctx = dict(graph=describe_graph(vs, fs))
    g = jaxfg.core.StackedFactorGraph.make(fs)
    vals = random_values(rng, vs)
    a = jaxfg.core.VariableAssignments.make_from_dict({v: vals[v] for v in shuffled(rng, vs)})
    want = 0.0
    for f in fs:
        nm = f.noise_model
        if isinstance(nm, jaxfg.noises.Gaussian):
            S = np.asarray(nm.sqrt_precision_matrix)
        else:
            S = np.diag(np.asarray(nm.sqrt_precision_diagonal))
        r = ref_residual(f, vals)
        P = S.T @ S
        want += r @ P @ r - np.linalg.slogdet(P)[1]
    got = g.compute_joint_nll(a) if k % 2 else g.compute_joint_nll(a, include_constants=False)
    check(close(got, want, 1e-7), "joint negative log-likelihood is wrong", got=got, want=want, **ctx)
    if k % 5 == 0:
        try:
            g.compute_joint_nll(a, include_constants=True)
        except NotImplementedError:
            pass
        else:
            check(False, "constant terms silently left out", **ctx)
        f = random_factor(rng, vs, kinds=("affine",), noise_kinds=("huber",))
        g2 = jaxfg.core.StackedFactorGraph.make(fs + [f])
        try:
            g2.compute_joint_nll(jaxfg.core.VariableAssignments.make_from_dict({v: vals[v] for v in vs}))
        except AssertionError:
            pass
        else:
            check(False, "a non-Gaussian noise model was counted", **ctx)
