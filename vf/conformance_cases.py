"""Functions on which the verifier is compared with Python, NumPy and JAX (see vf/conformance.py).

Annotations give the inputs: 'size' a symbolic size, 'R'/'I' numbers, 'f[n,m]' arrays of reals,
'i[n]<m' arrays of indices below m, 'list f[n]' lists, 'list ragged[n]' lists of vectors.
"""
import collections
import dataclasses
import functools
import math

import jax
import jax_dataclasses as jdc
import numpy as onp
from jax import numpy as jnp

jdc_pytree = jdc.pytree_dataclass

CASES = {}


def case(f):
    CASES[f.__name__] = f
    return f


# ------------------------------------------------------------------ loops and containers


@case
def loop_sum(x: "f[n]", n: "size"):
    s = 0.0
    for i in range(n):
        s = s + x[i] * x[i]
    return s


@case
def loop_append(n: "size", k: "I"):
    out = []
    for i in range(n):
        out.append(i * k + 1)
    return out


@case
def loop_two_appends(n: "size"):
    out = [-1]
    for i in range(n):
        out.append(2 * i)
        out.append(2 * i + 1)
    out.append(7)
    return out, len(out)


@case
def loop_running_index(xs: "list ragged[n]"):
    start = 0
    starts = []
    for v in xs:
        starts.append(start)
        start += v.shape[0]
    return starts, start


@case
def loop_nested(n: "size", m: "size"):
    out = []
    for i in range(n):
        for j in range(m):
            out.append((i, j, i * j))
    return out


@case
def loop_nested_sum(M: "f[n,m]", n: "size", m: "size"):
    s = 0.0
    for i in range(n):
        for j in range(m):
            s += M[i, j]
    return s


@case
def loop_dependent_range(n: "size"):
    s = 0
    for i in range(n):
        for j in range(i):
            s += j + 1
    return s


@case
def loop_enumerate_zip(xs: "list f[n]", ys: "list f[n]"):
    out = []
    for i, (a, b) in enumerate(zip(xs, ys)):
        out.append(a * i - b)
    return out


@case
def loop_dict(n: "size"):
    d = {}
    for i in range(n):
        d[i] = 3 * i + 1
    return d, len(d), list(d.keys()), list(d.values())


@case
def loop_dict_get(n: "size"):
    d = {}
    for i in range(n):
        d[i] = i * i
    return [d[i] + 1 for i in range(n)]


@case
def loop_group(x: "list i[n]"):
    groups = collections.defaultdict(list)
    for i, k in enumerate(x):
        groups[k].append(i)
    return [len(v) for v in groups.values()], list(groups.keys())


@case
def loop_group_setdefault(x: "list i[n]"):
    groups = {}
    for i, k in enumerate(x):
        groups.setdefault(k, []).append(i)
    return [list(v) for v in groups.values()]


@case
def loop_group_not_in(x: "list i[n]"):
    groups = {}
    for i, k in enumerate(x):
        if k not in groups:
            groups[k] = []
        groups[k].append(10 + i)
    return {k: v for k, v in groups.items()}


@case
def loop_group_sum(x: "list i[n]"):
    groups = collections.defaultdict(list)
    for i, k in enumerate(x):
        groups[k].append(i)
    total = 0
    for k, v in groups.items():
        total += k * len(v)
    return total


@case
def loop_unique(x: "list i[n]"):
    seen = []
    for k in x:
        if k not in seen:
            seen.append(k)
    return len(seen), seen


@case
def loop_condition_sum(x: "list f[n]"):
    s = 0.0
    for v in x:
        if v > 0:
            s += v
        else:
            s -= 2 * v
    return s


@case
def loop_condition_count(x: "list f[n]"):
    return sum(1 for v in x if v > 0)


@case
def loop_skip(x: "list f[n]"):
    s = 0.0
    for v in x:
        if v < 0:
            continue
        s += v
    return s


@case
def loop_while(n: "size"):
    i = 0
    out = []
    while i < n:
        out.append(i + 1)
        i += 1
    return out, i


@case
def loop_last(n: "size"):
    last = -1
    for i in range(n):
        last = i * 5
    return last


@case
def loop_previous(x: "list f[n]"):
    prev = 0.5
    out = []
    for v in x:
        out.append(v - prev)
        prev = v
    return out


@case
def loop_len_of_out(n: "size"):
    out = []
    marks = []
    for i in range(n):
        marks.append(len(out))
        out.append(i)
        out.append(i)
    return marks


@case
def loop_first_only(n: "size"):
    out = []
    c = 0
    for i in range(n):
        if len(out) == 0:
            c += 1
        out.append(i)
    return c


@case
def loop_reversed(xs: "list f[n]"):
    return [v + 1 for v in reversed(xs)]


@case
def loop_extend(n: "size"):
    out = []
    for i in range(n):
        out.extend([i, -i])
    out += [5]
    return out


@case
def loop_write_array(n: "size", x: "f[n]"):
    out = onp.zeros(n)
    for i in range(n):
        out[i] = 2.0 * x[i]
    return out


@case
def loop_at_set(n: "size", x: "f[n]"):
    out = jnp.zeros(n)
    for i in range(n):
        out = out.at[i].set(x[i] + 1.0)
    return out


@case
def loop_at_add(n: "size", m: "size", x: "f[n]", ix: "list i[n]<m"):
    out = jnp.zeros(m)
    for i, j in enumerate(ix):
        out = out.at[j].add(x[i])
    return out


@case
def comprehension_nested(n: "size", m: "size"):
    return [[i + j for j in range(m)] for i in range(n)]


@case
def comprehension_flat(n: "size", m: "size"):
    return [10 * i + j for i in range(n) for j in range(m)]


@case
def comprehension_dict(n: "size"):
    d = {i: i + 2 for i in range(n)}
    return d, sum(d.values()), max(d.values())


@case
def comprehension_index(n: "size"):
    xs = [3 * i for i in range(n)]
    return xs[0], xs[-1], xs[n - 1], len(xs)


@case
def comprehension_slice(n: "size"):
    xs = [3 * i for i in range(n + 1)]
    return xs[1:], xs[:n], xs[0:1]


@case
def list_concat(n: "size", m: "size"):
    a = [i for i in range(n)]
    b = [i * i for i in range(m)]
    c = a + b + [99]
    return c, c[n], c[n + m]


@case
def any_all(x: "list f[n]"):
    return any(v > 0 for v in x), all(v > 0 for v in x)


@case
def max_min(x: "list f[n]"):
    return max(x), min(x), sum(x)


@case
def conditional(a: "R", b: "R"):
    if a < b:
        r = a + 1
    elif a == b:
        r = 0
    else:
        r = b * a
    return r if r > 0 else -r


@case
def early_return(a: "R"):
    if a < 0:
        return -1
    if a > 1:
        raise ValueError("x")
    return a


@case
def boolean(a: "R", b: "R"):
    return a > 0 and b > 0, a > 0 or b > 0, not a > 0, 0 < a < b


@case
def integers(a: "I", b: "I"):
    return (a + 7) // 2, (a + 7) % 3, a * b, -a, abs(a - b), min(a, b), max(a, b, 2)


@case
def powers(a: "R"):
    return a**2, a**3, (a * a + 1) ** 0.5, 1.0 / (a * a + 1)


@case
def inner_function(a: "R", n: "size"):
    def f(x, y=2.0, *, z=3.0):
        return x * y + z

    g = functools.partial(f, z=a)
    return [g(i) + f(i, 5.0) for i in range(n)]


@case
def star_args(n: "size"):
    def f(*xs, **kw):
        return len(xs), sum(xs), kw

    return f(1, 2, 3, k=n), f(*[i for i in range(4)])


@case
def unpacking(n: "size"):
    pairs = [(i, i * i) for i in range(n)]
    a, b = pairs[0]
    first, *rest = [1, 2, 3]
    return a, b, first, rest, [y - x for x, y in pairs]


@case
def zip_star(n: "size"):
    pairs = [(i, i * i) for i in range(n)]
    xs, ys = zip(*pairs)
    return xs, ys


@case
def tuple_keys(n: "size"):
    d = {}
    for i in range(n):
        d[(i, i + 1)] = i
    return [d[(i, i + 1)] for i in range(n)]


@case
def dict_get_default(n: "size"):
    d = {i: 5 for i in range(n)}
    return d.get(0, -1), d.get(n, -1), n in d, 0 in d


@case
def dict_items_sorted(a: "I"):
    d = {3: a, 1: a + 1, 2: 0}
    return [(k, d[k]) for k in sorted(d)]


@case
def dict_update(n: "size"):
    d = {i: i for i in range(n)}
    d.update({0: 50})
    return d[0], len(d)


# ------------------------------------------------------------------ arrays


@case
def elementwise(x: "f[n]", y: "f[n]"):
    return x + y, x - 2 * y, x * y, x / (y * y + 1), -x, x**2, abs(x)


@case
def broadcasting(M: "f[n,m]", x: "f[m]", y: "f[n]"):
    return M + x, M * y[:, None], x[None, :] - y[:, None], M + 1.0


@case
def reductions(M: "f[n,m]"):
    return M.sum(), jnp.sum(M, axis=0), jnp.sum(M, axis=1), onp.sum(M**2), jnp.max(M), jnp.min(M, axis=1), jnp.mean(M), M.sum(axis=-1)


@case
def reductions_bool(x: "f[n]"):
    return jnp.any(x > 0), jnp.all(x > 0), onp.count_nonzero(x > 0), (x > 0) & (x < 1), ~(x > 0), (x > 0) | (x < -1)


@case
def keepdims(M: "f[n,m]"):
    return jnp.sum(M, axis=1, keepdims=True), M.max(axis=0, keepdims=True)


@case
def indexing(M: "f[n,m]"):
    return M[0], M[:, 0], M[-1, -1], M[0, :], M[..., 0], M[None].shape, M.T[0]


@case
def slicing(x: "f[n]", n: "size"):
    return x[1:], x[: n - 1], x[:-1], x[0:1], x[::-1], x[-1:]


@case
def gather(x: "f[m]", ix: "i[n]<m"):
    return x[ix], jnp.take(x, ix)


@case
def gather_rows(M: "f[m,d]", ix: "i[n]<m"):
    return M[ix], M[ix, 0], M[ix, 1:]


@case
def gather_two(M: "f[n,m]", r: "i[d]<n", c: "i[d]<m"):
    return M[r, c], M[r[:, None], c[None, :]]


@case
def scatter_add(n: "size", m: "size", x: "f[n]", ix: "i[n]<m"):
    return jnp.zeros(m).at[ix].add(x), jnp.ones(m).at[ix].add(2.0)


@case
def scatter_add_two(n: "size", m: "size", x: "f[n]", r: "i[n]<m", c: "i[n]<m"):
    return jnp.zeros((m, m)).at[r, c].add(x)


@case
def scatter_set_slice(x: "f[n]", n: "size"):
    return jnp.zeros(n + 2).at[1 : n + 1].set(x), jnp.zeros(n).at[0].set(3.0), jnp.ones(n).at[-1].add(1.0)


@case
def scatter_rows(M: "f[n,m]"):
    return jnp.asarray(M).at[0].set(5.0), jnp.asarray(M).at[:, 0].add(1.0), jnp.asarray(M).at[0, 0].multiply(3.0)


@case
def write_slice(x: "f[n]", n: "size"):
    out = onp.zeros(n + 2)
    out[1 : n + 1] = x
    out[0] = 9.0
    return out


@case
def add_at(n: "size", m: "size", x: "f[n]", ix: "i[n]<m"):
    out = onp.zeros(m)
    onp.add.at(out, ix, x)
    return out


@case
def constructors(n: "size", m: "size"):
    return jnp.zeros((n, m)), onp.ones(n), jnp.full((n,), 2.5), jnp.eye(n), onp.arange(n), jnp.arange(2, n + 3), jnp.zeros_like(onp.ones((n, m))), jnp.identity(m)


@case
def arange_step(n: "size"):
    return onp.arange(0, 2 * n, 2), onp.arange(n)[::-1], onp.arange(n) * 3 + 1


@case
def concatenate(x: "f[n]", y: "f[m]"):
    return jnp.concatenate([x, y]), jnp.concatenate([x, y, x], axis=0), onp.hstack([y, x])


@case
def concatenate_rows(M: "f[n,m]", N: "f[d,m]"):
    return jnp.concatenate([M, N], axis=0), jnp.vstack([M, N])


@case
def concatenate_columns(M: "f[n,m]", N: "f[n,d]"):
    return jnp.concatenate([M, N], axis=1), jnp.concatenate([M, N], axis=-1)


@case
def concatenate_ragged(xs: "list ragged[n]"):
    return jnp.concatenate(xs), onp.concatenate([2 * v for v in xs]), sum(v.shape[0] for v in xs)


@case
def stack_list(xs: "list f[n,m]"):
    return jnp.stack(xs), onp.stack(xs, axis=1), jnp.array([v[0] for v in xs]), jnp.stack(xs, axis=0).sum(axis=0)


@case
def array_of_list(xs: "list f[n]"):
    return jnp.array(xs), onp.asarray(xs) * 2


@case
def tile_repeat(x: "f[n]", m: "size"):
    return jnp.tile(x, m), jnp.repeat(x, m), jnp.tile(x, (m, 1)), onp.repeat(x, 2)


@case
def tile_columns(M: "f[n,m]"):
    return jnp.tile(M, (2, 1)), jnp.tile(M, (1, 3)), jnp.repeat(M, 2, axis=0), onp.repeat(M, 2, axis=1)


@case
def broadcast_to(x: "f[m]", n: "size"):
    return jnp.broadcast_to(x, (n, x.shape[0])), jnp.broadcast_to(x[None, :], (n, x.shape[0]))


@case
def meshgrid(x: "f[n]", y: "f[m]"):
    a, b = jnp.meshgrid(x, y)
    c, d = jnp.meshgrid(x, y, indexing="ij")
    return a, b, c, d


@case
def flatten(M: "f[n,m]"):
    return M.flatten(), M.ravel(), M.reshape(-1), jnp.ravel(M.T), M.T.flatten(), M.reshape((-1,))


@case
def reshape_back(M: "f[n,m]", n: "size", m: "size"):
    return M.flatten().reshape((n, m)), M.reshape((n * m,)), M.reshape((n, 1, m)), M[:, :, None].reshape((n, m))


@case
def reshape_flat_to_matrix(x: "f[n]", n: "size"):
    return jnp.tile(x, 3).reshape((3, n)), x.reshape((1, -1)), x.reshape((n, 1))


@case
def squeeze(x: "f[n]"):
    return x[:, None].squeeze(axis=1), jnp.squeeze(x[None], axis=0), jnp.expand_dims(x, 0), jnp.atleast_1d(x)


@case
def matmul(M: "f[n,m]", x: "f[m]", N: "f[m,n]"):
    return M @ x, M @ N, jnp.dot(M, x), jnp.matmul(M, N), x @ N, M.T @ M


@case
def inner(x: "f[n]", y: "f[n]"):
    return x @ y, jnp.dot(x, y), jnp.inner(x, y), jnp.outer(x, y), jnp.vdot(x, y)


@case
def einsum(M: "f[n,m]", N: "f[m,d]", x: "f[m]"):
    return jnp.einsum("ij,jk->ik", M, N), jnp.einsum("ij,j->i", M, x), jnp.einsum("ij->", M), jnp.einsum("ij,ij->i", M, M), jnp.einsum("ij->ji", M)


@case
def einsum_batch(M: "f[n,m]", N: "f[n,m]"):
    return jnp.einsum("ni,nj->nij", M, N), jnp.einsum("...i,...i->...", M, N)


@case
def transpose(M: "f[n,m]"):
    return M.T, jnp.transpose(M), M.transpose(), jnp.swapaxes(M, 0, 1)


@case
def diagonal(x: "f[n]", M: "f[n,n]"):
    return jnp.diag(x), jnp.diag(M), jnp.trace(M), onp.diag(M)


@case
def norms(x: "f[n]", M: "f[n,m]"):
    return jnp.linalg.norm(x), jnp.linalg.norm(x, ord=1), jnp.linalg.norm(M, axis=1), jnp.linalg.norm(M), jnp.linalg.norm(x, ord=jnp.inf), onp.linalg.norm(M, axis=-1)


@case
def where(x: "f[n]", y: "f[n]"):
    return jnp.where(x > y, x, y), jnp.where(x > 0, 1.0, x), onp.where(x < y, x, 0.0), jnp.maximum(x, y), jnp.minimum(x, 0.5), jnp.clip(x, -0.5, 0.5)


@case
def where_scalar(a: "R", x: "f[n]"):
    return jnp.where(a > 0, x, -x), jnp.where(a > 0, 1.0, 2.0), jnp.select([a > 1, a > 0], [1.0, 2.0], 3.0)


@case
def unary(x: "f[n]"):
    y = x * x + 0.5
    return jnp.sqrt(y), jnp.log(y), jnp.exp(x), jnp.sin(x), jnp.cos(x), jnp.abs(x), jnp.square(x), jnp.sign(x), jnp.negative(x), jnp.reciprocal(y)


@case
def arctan(x: "f[n]", y: "f[n]"):
    return jnp.arctan2(x, y)


@case
def lax_ops(x: "f[n]", n: "size"):
    y = x * x + 0.5
    return jax.lax.rsqrt(y), jax.lax.dynamic_slice(x, (0,), (1,)), jax.lax.dynamic_slice_in_dim(x, n - 1, 1), jax.lax.dynamic_update_slice(jnp.zeros(n + 1), x, (1,))


@case
def segment_sum(x: "f[n]", ix: "i[n]<m", m: "size"):
    return jax.ops.segment_sum(x, ix, num_segments=m)


@case
def vmap_rows(M: "f[n,m]", x: "f[m]"):
    return jax.vmap(lambda r: r * 2 + x)(M), jax.vmap(lambda r, s: (r * s).sum())(M, M), jax.vmap(lambda r: r @ x)(M)


@case
def vmap_axes(M: "f[n,m]", x: "f[m]"):
    return jax.vmap(lambda r, y: r @ y, in_axes=(0, None))(M, x), jax.vmap(lambda c: c.sum(), in_axes=1)(M)


@case
def vmap_nested(M: "f[n,m]"):
    return jax.vmap(jax.vmap(lambda t: t + 1.0))(M)


@case
def lax_cond(a: "R", x: "f[n]"):
    return jax.lax.cond(a > 0, lambda y: y + 1, lambda y: y - 1, x)


@case
def tree_map(x: "f[n]", y: "f[m]"):
    t = {"a": x, "b": (y, x)}
    u = jax.tree_util.tree_map(lambda v: v * 2, t)
    return u["a"], u["b"][0], u["b"][1], len(jax.tree_util.tree_leaves(t))


@case
def small_linear_algebra(M: "f[d,d]", x: "f[d]"):
    A = M @ M.T + 2.0 * jnp.eye(2)
    return jnp.linalg.det(A), jnp.linalg.inv(A), jnp.linalg.cholesky(A), jnp.linalg.solve(A, x), jnp.linalg.slogdet(A)[1]


@case
def triangular(M: "f[d,d]", x: "f[d]"):
    A = jnp.linalg.cholesky(M @ M.T + 2.0 * jnp.eye(2))
    return jax.scipy.linalg.solve_triangular(A, x, lower=True), A @ jnp.linalg.inv(A)


@case
def shapes(M: "f[n,m]", x: "f[n]"):
    return M.shape, M.shape[0] * M.shape[1], M.size, x.ndim, len(M), x.shape + (1,), M.shape[1:], M.shape[-1]


@case
def index_arithmetic(n: "size", m: "size"):
    rows = onp.arange(n * m) // m
    cols = onp.arange(n * m) % m
    return rows, cols


@case
def coordinates(n: "size", m: "size"):
    rows = jnp.repeat(jnp.arange(n), m)
    cols = jnp.tile(jnp.arange(m), n)
    return rows, cols, rows * m + cols


@case
def coordinates_to_dense(n: "size", m: "size", v: "f[n,m]"):
    rows = onp.repeat(onp.arange(n), m)
    cols = onp.tile(onp.arange(m), n)
    return jnp.zeros((n, m)).at[rows, cols].add(v.flatten())


@case
def grouped_stack(x: "list i[n]", y: "list f[n]"):
    groups = collections.defaultdict(list)
    for k, v in zip(x, y):
        groups[k].append(v)
    return [jnp.array(v).sum() for v in groups.values()]


@case
def grouped_starts(x: "list i[n]"):
    groups = collections.defaultdict(list)
    for i, k in enumerate(x):
        groups[k].append(i)
    start = 0
    out = []
    for k, v in groups.items():
        out.append((k, start))
        start += 2 * len(v)
    return out, start


@case
def ragged_offsets(xs: "list ragged[n]"):
    v = jnp.concatenate(xs)
    out = []
    start = 0
    for x in xs:
        out.append(v[start : start + x.shape[0]].sum())
        start += x.shape[0]
    return out


@case
def ragged_matrix(xs: "list ragged[n]"):
    total = sum(v.shape[0] for v in xs)
    out = jnp.zeros(total)
    start = 0
    for v in xs:
        out = out.at[start : start + v.shape[0]].set(3.0 * v)
        start += v.shape[0]
    return out


@case
def math_functions(a: "R"):
    return math.sqrt(a * a + 1), math.exp(a), math.log(a * a + 1), math.sin(a)


# ------------------------------------------------------------------ aliasing and mutation


@case
def alias_list(n: "size"):
    a = [i for i in range(n)]
    b = a
    b.append(100)
    return a, len(a)


@case
def alias_copy(n: "size"):
    a = [i for i in range(n)]
    b = list(a)
    b.append(100)
    return a, b, a[:]


@case
def alias_in_dict(n: "size"):
    inner = []
    d = {"x": inner}
    for i in range(n):
        d["x"].append(i)
    return inner, d["x"]


@case
def alias_augmented_list(n: "size"):
    a = [i for i in range(n)]
    b = a
    b += [7]
    return a, b


@case
def alias_rebind(n: "size"):
    a = [i for i in range(n)]
    b = a
    b = b + [7]
    return a, b


@case
def alias_array_augmented(x: "f[n]"):
    y = onp.zeros_like(x)
    z = y
    z += 1.0
    return y, z


@case
def alias_array_view(n: "size"):
    y = onp.zeros(n + 2)
    z = y[1:]
    z[0] = 5.0
    return y


@case
def alias_array_write(n: "size"):
    y = onp.zeros(n)
    z = y
    z[0] = 5.0
    return y, z


@case
def write_then_read(n: "size"):
    y = onp.zeros(n)
    a = y + 1.0
    y[0] = 5.0
    b = y + 1.0
    return a, b


@case
def helper_mutates(n: "size"):
    out = []

    def put(v):
        out.append(v)
        return len(out)

    last = 0
    for i in range(3):
        last = put(i * n)
    return out, last


@case
def helper_mutates_in_loop(n: "size"):
    out = []

    def put(v):
        out.append(v)

    for i in range(n):
        put(i * i)
    return out


@case
def closure_late_binding(a: "R"):
    fs = [lambda x: x + k for k in range(3)]
    return [f(a) for f in fs]


@case
def closure_default_binding(a: "R"):
    fs = [lambda x, k=k: x + k for k in range(3)]
    return [f(a) for f in fs]


@case
def nonlocal_counter(n: "size"):
    count = 0

    def tick(v):
        nonlocal count
        count += v

    tick(n)
    tick(2)
    return count


@case
def loop_variable_after(n: "size"):
    for i in range(n):
        pass
    return i


@case
def comprehension_scope(n: "size"):
    i = 50
    xs = [i for i in range(n)]
    return i, xs


@case
def loop_nested_lists(n: "size", m: "size"):
    rows = []
    for i in range(n):
        row = []
        for j in range(m):
            row.append(i - j)
        rows.append(row)
    return rows


@case
def loop_reset_inner(n: "size", m: "size"):
    totals = []
    for i in range(n):
        t = 0
        for j in range(m):
            t += i * j
        totals.append(t)
    return totals


@case
def loop_accumulate_across(n: "size", m: "size"):
    t = 0
    seen = []
    for i in range(n):
        for j in range(m):
            seen.append(t)
            t += 2
    return seen, t


@case
def loop_running_product(xs: "list f[n]"):
    p = 1.0
    for v in xs:
        p *= v
    return p


@case
def loop_running_max(xs: "list f[n]"):
    best = -10.0
    for v in xs:
        best = max(best, v)
    return best


@case
def loop_swap(n: "size"):
    a, b = 1, 2
    for i in range(n):
        a, b = b, a
    return a, b


@case
def loop_geometric(a: "R", n: "size"):
    x = 1.0
    for i in range(n):
        x = a * x + 1.0
    return x


@case
def loop_break(xs: "list f[n]"):
    r = -1
    for i, v in enumerate(xs):
        if v > 0:
            r = i
            break
    return r


@case
def loop_else(xs: "list f[n]"):
    for v in xs:
        if v > 100:
            break
    else:
        return "none"
    return "some"


@case
def loop_return(xs: "list f[n]"):
    for i, v in enumerate(xs):
        if v > 0:
            return i
    return -1


@case
def loop_raise(xs: "list f[n]"):
    for v in xs:
        if v > 1.5:
            raise ValueError("too large")
    return 1


@case
def loop_assert(xs: "list f[n]"):
    for v in xs:
        assert v < 1.5
    return 1


@case
def loop_dict_overwrite(xs: "list i[n]"):
    d = {}
    for i, k in enumerate(xs):
        d[k] = i
    return len(d)


@case
def loop_dict_count(xs: "list i[n]"):
    d = collections.defaultdict(int)
    for k in xs:
        d[k] += 1
    return [v for v in d.values()]


@case
def loop_dict_delete(n: "size"):
    d = {i: 2 * i for i in range(n)}
    d.pop(0)
    return len(d)


@case
def loop_dict_two(n: "size"):
    d, e = {}, {}
    for i in range(n):
        d[i] = len(e)
        e[2 * i] = i
    return d


@case
def loop_two_lists(xs: "list ragged[n]"):
    a, b = [], []
    start = 0
    for v in xs:
        a.append(start)
        b.append(start + v.shape[0])
        start = b[-1]
    return a, b


@case
def loop_condition_append(xs: "list f[n]"):
    out = []
    for v in xs:
        if v > 0:
            out.append(v)
    return len(out)


@case
def loop_condition_append_both(xs: "list f[n]"):
    out = []
    for v in xs:
        if v > 0:
            out.append(v)
        else:
            out.append(-v)
    return out


@case
def loop_conditional_start(n: "size"):
    out = []
    for i in range(n):
        out.append(1 if i == 0 else 2)
    return out


@case
def loop_uses_future(n: "size"):
    out = [0]
    for i in range(n):
        out.append(out[i] + 2)
    return out


@case
def loop_range_bounds(n: "size", m: "size"):
    return [i for i in range(2, n + 2)], [i for i in range(n, n + m)], sum(range(n))


@case
def loop_range_step(n: "size"):
    return [i for i in range(0, 2 * n, 2)], [i for i in range(n - 1, -1, -1)]


@case
def loop_range_empty(n: "size"):
    out = [5]
    for i in range(n, n):
        out.append(i)
    return out


@case
def loop_range_negative(n: "size"):
    s = 0
    for i in range(1 - n):
        s += 1
    return s


@case
def loop_range_triangular(n: "size"):
    out = []
    for i in range(n):
        for j in range(i + 1):
            out.append((i, j))
    return out, len(out)


@case
def zip_uneven(n: "size"):
    a = []
    for i in range(n):
        a.append(2 * i)
        a.append(2 * i + 1)
    return [x + y for x, y in zip(a, range(n))]


@case
def zip_three(xs: "list f[n]", ys: "list f[n]"):
    return [a + b * c for a, b, c in zip(xs, ys, range(len(xs)))]


@case
def enumerate_start(xs: "list f[n]"):
    return [(i, v) for i, v in enumerate(xs, 3)]


@case
def map_filter(xs: "list f[n]"):
    return list(map(lambda v: v + 1, xs)), list(map(lambda a, b: a * b, xs, xs))


@case
def sorted_pair(a: "R", b: "R"):
    return sorted((a, b))


@case
def tuple_compare(a: "I", b: "I"):
    return (a, b) == (b, a), (a, 1) == (a, 1), [a] == [b], a != b


@case
def chained_conditions(a: "R", b: "R"):
    x = 1 if a > 0 else 2 if b > 0 else 3
    y = a or b
    z = a and b
    return x, y, z


@case
def none_default(a: "R"):
    x = None
    if a > 0:
        x = a
    return 5.0 if x is None else x + 1


@case
def try_except(n: "size"):
    d = {i: i for i in range(n)}
    try:
        r = d[n]
    except KeyError:
        r = -5
    return r


@case
def integer_division(n: "size", m: "size"):
    return n // m, n % m, (n * m) // m, (n + m * 3) % m, divmod(n, m)


@case
def float_integer(n: "size"):
    return n / 2, float(n), int(n), n * 0.5, bool(n)


@case
def chained_assignment(n: "size"):
    a = b = [n]
    a.append(1)
    return a, b


@case
def delete_item(n: "size"):
    xs = [i for i in range(n)]
    xs.insert(0, 99)
    return xs, xs.index(99)


@case
def pop_item(n: "size"):
    xs = [i for i in range(n)]
    v = xs.pop()
    return v, xs


@case
def set_size(xs: "list i[n]"):
    return len(set(xs)), len(set(range(3)))


@case
def set_of_range(n: "size"):
    s = {i for i in range(n)}
    return len(s), 0 in s, n in s


@case
def string_format(n: "size"):
    return "a" + "b", "x".join(["p", "q"])


# ------------------------------------------------------------------ classes


class Box:
    scale = 2

    def __init__(self, a, b=3):
        self.a = a
        self.b = b

    def total(self):
        return self.a + self.b * self.scale

    @property
    def double(self):
        return 2 * self.total()

    @staticmethod
    def make(x):
        return Box(x, x)

    @classmethod
    def default(cls):
        return cls(1)


class Child(Box):
    scale = 5

    def total(self):
        return self.a - self.b


@case
def class_methods(x: "R"):
    return Box(x).total(), Box.make(x).double, Box.default().b, Child(x).total(), Child(x, 1).double


@case
def class_setattr(n: "size"):
    b = Box(n)
    c = b
    c.a = 10
    return b.total(), c.a


@case
def class_setattr_loop(n: "size"):
    b = Box(0)
    for i in range(n):
        b.a = b.a + i
    return b.a


@case
def class_isinstance(x: "R"):
    c = Child(x)
    return isinstance(c, Box), type(c) is Box, type(c) is Child, hasattr(c, "a"), hasattr(c, "zz"), getattr(c, "zz", 4)


@jdc_pytree
class Pair:
    left: jnp.ndarray
    right: jnp.ndarray


@case
def pytree_dataclass(x: "f[n]"):
    p = Pair(x, 2 * x)
    q = jax.tree_util.tree_map(lambda v: v + 1, p)
    return q.left, q.right


@case
def pytree_replace(x: "f[n]"):
    p = Pair(left=x, right=2 * x)
    q = dataclasses.replace(p, left=x * 3)
    return p.left, q.left, q.right


@case
def pytree_vmap(M: "f[n,m]"):
    p = Pair(M, 2 * M)
    r = jax.vmap(lambda q: q.left.sum() + q.right[0])(p)
    s = jax.vmap(lambda q: Pair(q.right, q.left))(p)
    return r, s.left


@case
def pytree_stack(xs: "list f[n,m]"):
    ps = [Pair(v, v + 1) for v in xs]
    q = jax.tree_util.tree_map(lambda *vs: jnp.stack(vs), *ps)
    return q.left, q.right


@case
def pytree_copy(x: "f[n]"):
    p = Pair(x, 2 * x)
    with jdc.copy_and_mutate(p) as q:
        q.left = q.left + 1
    return p.left, q.left, q.right


# ------------------------------------------------------------------ more arrays


@case
def stacks(M: "f[n,m]", x: "f[m]", y: "f[m]"):
    return jnp.hstack([M, M]), jnp.vstack([x, y]), jnp.hstack([x, y]), jnp.stack([x, y], axis=1), jnp.vstack([M, x[None]])


@case
def moved_axes(M: "f[n,m]"):
    T = M[:, :, None] * jnp.ones(2)
    return jnp.moveaxis(T, 0, 2), jnp.swapaxes(T, 1, 2), T.transpose((2, 0, 1)), jnp.transpose(T, (1, 2, 0)), T.sum(axis=(0, 1)), T.sum(axis=-1)


@case
def rectangular_eye(n: "size", m: "size"):
    return jnp.eye(n, m), jnp.eye(n)[0], 2 * jnp.eye(m)


@case
def reversed_axes(M: "f[n,m]"):
    return M[::-1], M[:, ::-1], M[-1], M[:, -1], M[:-1], M[1:, 1:]


@case
def scalar_index_mixed(M: "f[n,m]", i: "I"):
    return M[0] + M[:1][0], M[0][0], M[:, 0][0]


@case
def newaxis_products(x: "f[n]", y: "f[m]"):
    return x[:, None] * y[None, :], (x[:, None] * y).sum(axis=0), (x[:, None] - y[None]).reshape(-1), jnp.outer(y, x)


@case
def flatten_order(M: "f[n,m]", N: "f[n,m]"):
    return (M + N).flatten(), jnp.concatenate([M.flatten(), N.flatten()]), jnp.concatenate([M, N]).flatten(), jnp.concatenate([M, N], axis=1).flatten(), jnp.stack([M, N]).flatten(), jnp.stack([M, N], axis=-1).flatten()


@case
def flatten_repeat(x: "f[n]", m: "size"):
    return jnp.repeat(x, m).reshape((-1, m)), jnp.tile(x, m).reshape((m, -1)), jnp.tile(x, (m, 1)).flatten(), jnp.repeat(x[:, None], m, axis=1), jnp.repeat(x[None], m, axis=0)


@case
def index_offsets(n: "size", m: "size"):
    starts = jnp.arange(n) * m
    return (starts[:, None] + jnp.arange(m)[None, :]).flatten(), starts.sum()


@case
def gather_offsets(x: "f[m]", n: "size", m: "size"):
    big = jnp.tile(x, n)
    idx = jnp.arange(n)[:, None] * m + jnp.arange(m)[None]
    return big[idx], big[idx].sum(axis=1), big[idx[:, 0]]


@case
def scatter_offsets(v: "f[n,m]", n: "size", m: "size"):
    idx = jnp.arange(n)[:, None] * m + jnp.arange(m)[None]
    return jnp.zeros(n * m).at[idx].set(v), jnp.zeros(n * m).at[idx.flatten()].add(v.flatten())


@case
def scatter_blocks(xs: "list f[n,m]", m: "size", n: "size"):
    out = jnp.zeros(n * m)
    for i, v in enumerate(xs):
        out = out.at[i * m : (i + 1) * m].set(v)
    return out


@case
def scatter_duplicates(ix: "i[n]<m", n: "size", m: "size"):
    return jnp.zeros(m).at[ix].add(jnp.ones(n)), jnp.zeros(m).at[ix].add(1.0)


@case
def scatter_set_scalar(ix: "i[n]<m", n: "size", m: "size"):
    return jnp.zeros(m).at[ix].set(3.0)


@case
def compare_chain(x: "f[n]", a: "R"):
    return jnp.where(jnp.abs(x) <= a, x, jnp.sign(x) * a), (x == 0.0).sum(), jnp.logical_and(x > 0, x < a), jnp.logical_not(x > a)


@case
def mean_variance(M: "f[n,m]"):
    return jnp.mean(M, axis=0), jnp.mean(M, axis=1), jnp.prod(M, axis=1), M.mean()


@case
def boolean_sum(x: "f[n]"):
    return jnp.sum(x > 0), jnp.sum(jnp.where(x > 0, x, 0.0)), (x > 0) * x


@case
def integer_arrays(ix: "i[n]<4"):
    return ix + 1, ix * 2, ix // 2, ix % 2, ix == 1, jnp.max(ix), ix.sum(), ix / 2


@case
def cast(x: "f[n]", ix: "i[n]<4"):
    return ix.astype(float), jnp.asarray(ix, dtype=float) + 0.5, (x > 0).astype(int), jnp.array([1, 2]) * 1.5


@case
def vmap_multiple(M: "f[n,m]", x: "f[n]"):
    return jax.vmap(lambda r, s: r * s)(M, x), jax.vmap(lambda r: (r, r.sum()))(M), jax.vmap(lambda d: d["a"] + 1)({"a": x})


@case
def vmap_closure(M: "f[n,m]", x: "f[m]"):
    def f(r):
        t = jnp.zeros_like(r)
        return (t + r) @ x + r[0]

    return jax.vmap(f)(M), jax.vmap(f, in_axes=0)(M), jax.vmap(jnp.diag)(M), jax.vmap(lambda r: jnp.outer(r, x))(M)


@case
def jit_static(x: "f[n]"):
    return jax.jit(lambda v: v * 2)(x)


@case
def norm_squared(M: "f[n,m]"):
    return jnp.sum(jnp.linalg.norm(M, axis=1) ** 2), jnp.linalg.norm(M.flatten()) ** 2, jnp.sum(M**2, axis=1), jnp.sqrt(jnp.sum(M**2))


@case
def quadratic_form(M: "f[n,m]", x: "f[m]"):
    return x @ (M.T @ (M @ x)), jnp.sum((M @ x) ** 2), (x[None] * M).sum(axis=1)


@case
def batched_matmul(M: "f[n,m]", x: "f[n]"):
    T = M[:, :, None] * M[:, None, :]
    return T @ M[:, :, None], jnp.einsum("nij,nj->ni", T, M), jnp.einsum("nii->n", T), jnp.einsum("nij->nji", T), jnp.einsum("n,nij->ij", x, T)


@case
def diag_products(x: "f[n]", M: "f[n,n]"):
    return jnp.diag(x) @ M, M @ jnp.diag(x), jnp.diag(jnp.diag(M)), x[:, None] * M


@case
def minmax_arrays(x: "f[n]", a: "R"):
    return jnp.maximum(jnp.max(x), a), jnp.clip(x, 0.0, None), jnp.minimum(x, a).sum(), jnp.max(jnp.abs(x)), x.clip(-0.5, a * a)


@case
def empty_concat(x: "f[n]"):
    return jnp.concatenate([x, jnp.zeros(0)]), jnp.zeros((0,)).shape, jnp.concatenate([jnp.zeros(2), x])


@case
def negative_indices(x: "f[n]"):
    return x[-1], x[:-1].shape, x.at[-1].set(2.0) if hasattr(x, "at") else jnp.asarray(x).at[-1].set(2.0)


@case
def array_truth(x: "f[n]"):
    if jnp.sum(x * x) > 2.0:
        return 1
    return 0


@case
def shape_logic(M: "f[n,m]", x: "f[n]"):
    if M.shape[0] == M.shape[1]:
        return "square"
    if M.shape == (x.shape[0], 1):
        return "column"
    return "other"


@case
def assert_shape(M: "f[n,m]", N: "f[m,n]"):
    assert M.shape == N.shape
    return M + N


@case
def ragged_sum(xs: "list ragged[n]"):
    return sum(jnp.sum(v**2) for v in xs), [v.shape[0] for v in xs], jnp.concatenate([v * v for v in xs]).sum(), jnp.concatenate(xs).shape[0]


@case
def ragged_double(xs: "list ragged[n]"):
    return jnp.concatenate([jnp.concatenate([v, 2 * v]) for v in xs]), jnp.concatenate([jnp.ones(v.shape[0]) * i for i, v in enumerate(xs)])


@case
def ragged_indices(xs: "list ragged[n]"):
    out = []
    start = 0
    for v in xs:
        out.append(jnp.arange(v.shape[0]) + start)
        start += v.shape[0]
    return jnp.concatenate(out)


@case
def ragged_gather(xs: "list ragged[n]"):
    v = jnp.concatenate(xs)
    idx = []
    start = 0
    for x in xs:
        idx.append(jnp.arange(x.shape[0]) + start)
        start += x.shape[0]
    return [v[i] for i in idx], v[jnp.concatenate(idx)]


@case
def grouped_rows(keys: "list i[n]", xs: "list f[n,m]"):
    groups = {}
    for k, v in zip(keys, xs):
        groups.setdefault(k, []).append(v)
    out = []
    for k, vs in groups.items():
        out.append(jnp.stack(vs))
    return [o.shape[0] for o in out], jnp.concatenate([o for o in out])


@case
def grouped_indices(keys: "list i[n]"):
    groups = collections.defaultdict(list)
    for i, k in enumerate(keys):
        groups[k].append(i)
    order = [i for v in groups.values() for i in v]
    return order, len(order)


@case
def grouped_positions(keys: "list i[n]"):
    groups = collections.defaultdict(list)
    for i, k in enumerate(keys):
        groups[k].append(i)
    pos = {}
    start = 0
    for k, v in groups.items():
        for j in v:
            pos[j] = start
            start += 2
    return [pos[i] for i in range(len(keys))]


@case
def while_countdown(n: "size"):
    k = n
    s = 0
    while k > 0:
        s += k
        k -= 1
    return s, k


@case
def matrix_writes(n: "size", m: "size", M: "f[n,m]"):
    out = onp.zeros((n, m))
    for i in range(n):
        for j in range(m):
            out[i, j] = M[i, j] * (i + 1)
    return out


@case
def symmetric_writes(n: "size", M: "f[n,n]"):
    out = onp.zeros((n, n))
    for i in range(n):
        for j in range(i + 1):
            out[i, j] = M[i, j]
            out[j, i] = M[i, j]
    return out


@case
def mixed_exit(xs: "list f[n]"):
    out = []
    total = 0.0
    for v in xs:
        if len(out) >= 0:
            out.append(v)
            if v > 0:
                continue
        total += v
    return out, total


@case
def dict_of_len(n: "size"):
    d = {}
    for i in range(n):
        d[5 * i] = len(d)
    return d


@case
def list_len_twice(n: "size"):
    out = [0]
    for i in range(n):
        a = len(out)
        out.append(i)
        b = len(out)
        out.append(a + b)
    return out


@case
def list_len_nested(n: "size", m: "size"):
    out = []
    for i in range(n):
        for j in range(m):
            out.append(len(out))
    return out


@case
def list_len_accumulated(xs: "list ragged[n]"):
    out = []
    total = 0
    for v in xs:
        total += len(out) * v.shape[0]
        out.append(v)
    return total


@case
def sliding(n: "size", x: "f[n]"):
    out = []
    for i in range(n - 1):
        out.append(x[i + 1] - x[i])
    return out


@case
def or_default(a: "R", n: "size"):
    xs = [i for i in range(n)]
    return (a > 0) or 3.0, a > 0 and n, (n or 5) + 1, len(xs) and 7


@case
def raises_any_axis(x: "f[n]"):
    return jnp.any(x > 0, axis=1)



@case
def raises_sum_axis(n: "size", x: "f[n]"):
    return jnp.sum(x, axis=-2) if n > 1 else 0.0



@case
def raises_sum_list(a: "R"):
    return jnp.sum([a, 1.0])



@case
def sum_of_list(a: "R"):
    return onp.sum([a, 1.0]), jnp.sum(jnp.array([a, 2.0]))



@case
def raises_sqrt_list(a: "R"):
    return jnp.sqrt([a * a])



@case
def raises_where_list(a: "R"):
    return jnp.where(a > 0, [1.0], 2.0)



@case
def raises_dot_list(x: "f[n]", a: "R"):
    return jnp.dot(jnp.ones(2), [a, a])



@case
def raises_maximum_tuple(a: "R"):
    return jnp.maximum((a, 1.0), 0.0)



@case
def raises_stack_axis(x: "f[n]"):
    return jnp.stack([x, x], axis=2)



@case
def stack_axes(x: "f[n]"):
    return jnp.stack([x, 2.0 * x], axis=-1), jnp.stack([x, 3.0 * x], axis=-2), onp.stack([x, x], axis=1)



@case
def raises_concat_axis(x: "f[n]"):
    return jnp.concatenate([x, x], axis=1)



@case
def concat_axes(A: "f[n,m]"):
    return jnp.concatenate([A, 2.0 * A], axis=-1), jnp.concatenate([A, A], axis=-2)



@case
def raises_transpose(A: "f[n,m]"):
    return jnp.transpose(A, (0, 0))



@case
def raises_transpose_short(A: "f[n,m]"):
    return jnp.transpose(A, (0,))



@case
def raises_swap(A: "f[n,m]"):
    return jnp.swapaxes(A, 0, 2)



@case
def raises_reshape(x: "f[3]"):
    return x.reshape((2, 2))



@case
def raises_matmul(A: "f[2,3]"):
    return A @ jnp.ones(2)



@case
def raises_add_shapes(x: "f[3]"):
    return x + jnp.ones(2)



@case
def raises_unpack(x: "list f[2]"):
    a, b = (x, x, x)
    return a



@case
def raises_zip_strict(n: "size"):
    return list(zip([1, 2], [1], strict=True))



@case
def raises_squeeze(x: "f[2]"):
    return x.squeeze(axis=0)



@case
def expand(x: "f[n]"):
    return jnp.expand_dims(x, 1), jnp.expand_dims(x, -1), x[:, None]



@case
def raises_expand(x: "f[n]"):
    return jnp.expand_dims(x, 3)



@case
def raises_stack_empty(n: "size"):
    return jnp.stack([])



@case
def raises_concat_scalars(a: "R"):
    return jnp.concatenate([jnp.asarray(a), jnp.asarray(a)])



@case
def typed_arrays(n: "size", x: "f[n]"):
    return jnp.asarray([i for i in range(n)], dtype=float) + 0.5, jnp.arange(n, dtype=float) / 2, jnp.full(n, 1, dtype=float) * 0.5, jnp.zeros_like(x, dtype=int), jnp.float32(3) / 2, onp.asarray(x > 0, dtype=float)



@case
def mean_axis(A: "f[n,m]"):
    return jnp.mean(A, axis=-1), A.sum(axis=-2), A.max(axis=1)



@case
def raises_norm_axis(x: "f[n]"):
    return jnp.linalg.norm(x, axis=1)



@case
def raises_index(x: "f[2]"):
    return onp.asarray([1.0, 2.0])[2]



@case
def raises_key(n: "size"):
    return {1: 2}[3]



@case
def raises_attr_call(a: "R"):
    return (3)(a)



@case
def raises_missing_arg(a: "R"):
    def f(x, y):
        return x
    return f(a)



@case
def raises_too_many(a: "R"):
    def f(x):
        return x
    return f(a, a)


@case
def loop_extend_name(n: "size", x: "f[n]"):
    xs = []
    ys = xs
    for i in range(n):
        xs += [x[i], 2.0 * x[i]]
    return xs, ys


@case
def loop_extend_rebound(n: "size", x: "f[n]"):
    xs = [1.0]
    for i in range(n):
        xs += [x[i]]
        xs = xs + [2.0]
    return xs


@case
def tensordot_axes(A: "f[n,m]", B: "f[m,n]", x: "f[m]"):
    return jnp.tensordot(A, B, axes=1), jnp.tensordot(A, x, axes=1), jnp.tensordot(A, B, axes=([1], [0])), onp.tensordot(A, A), jnp.tensordot(x, x, axes=0), jnp.tensordot(A, A, axes=((0,), (0,)))


@case
def lax_slice(x: "f[n]", A: "f[n,m]", n: "size", m: "size"):
    return jax.lax.slice(x, (0,), (n,)), jax.lax.slice(x, (n - 1,), (n,)), jax.lax.slice(A, (0, m - 1), (n, m))


@case
def array_of_extended_list(n: "size", m: "size"):
    out = []
    for i in range(n):
        out.extend(range(3 * i, 3 * i + m))
    return jnp.array(out), onp.array(out), len(out)


@case
def dict_update_pairs(n: "size"):
    d = {}
    for i in range(n):
        d.update((j, None) for j in range(i, i + 3))
    return list(d)


@case
def iterator_used_twice(xs: "list f[n]"):
    g = (x * 2.0 for x in xs)
    return list(g), list(g)


@case
def iterator_in_loop(xs: "list f[n]", n: "size"):
    z = zip(xs, xs)
    out = []
    for i in range(3):
        out.append(len(list(z)))
    return out


@case
def next_of_iterator(n: "size"):
    it = iter([1, 2, 3])
    a = next(it)
    b = next(it)
    return a, b, list(it), next(iter([]), 7)


@case
def next_of_symbolic(n: "size"):
    it = iter(range(n))
    first = next(it)
    return first, list(it)


@case
def lists_filled_by_index(n: "size", m: "size"):
    rows = [[] for _ in range(m)]
    for i in range(n):
        for j in range(m):
            rows[j].append(i * 10 + j)
    return rows


@case
def lists_filled_by_zip(n: "size", m: "size"):
    rows = tuple([] for _ in range(m))
    for i in range(n):
        for j, row in zip(range(m), rows):
            row.append(i * 10 + j)
    return rows


@case
def lists_filled_by_enumerate(n: "size", m: "size"):
    rows = [[] for _ in range(m)]
    for i in range(n):
        for j, row in enumerate(rows):
            row.append(i - j)
    return rows, [len(r) for r in rows]


@case
def lists_filled_reversed(n: "size", m: "size"):
    rows = [[] for _ in range(m)]
    for i in range(n):
        for j, row in enumerate(reversed(rows)):
            row.append(i - j)
    return rows


@case
def lists_filled_and_read(n: "size", m: "size"):
    rows = [[] for _ in range(m)]
    total = 0
    for i in range(n):
        for row in rows:
            row.append(i)
            total += len(row)
    return rows, total


@case
def lists_shared(n: "size", m: "size"):
    rows = [[]] * 3
    for i in range(n):
        for row in rows:
            row.append(i)
    return rows


@case
def lists_filled_alias(n: "size", m: "size"):
    rows = [[] for _ in range(m)]
    again = rows
    copy = list(rows)
    for i in range(n):
        for row in copy:
            row.append(i)
    return rows, again, copy


@case
def concatenate_any_part(x: "f[n]", y: "f[m]"):
    z = jnp.concatenate([x, y, x])
    return jnp.array([z[i] * 2.0 for i in range(x.shape[0] + y.shape[0])])


@case
def replace_by_concatenate(x: "f[n]", y: "f[m]"):
    z = jnp.concatenate([x, y, x])
    start = x.shape[0]
    w = jnp.concatenate([z[:start], -y, z[start + y.shape[0] :]])
    return w - z, w[::1]


@case
def lists_filled_slice(n: "size", m: "size"):
    rows = [[] for _ in range(m)]
    copy = rows[:]
    for i in range(n):
        for row in rows:
            row.append(i)
    return rows, copy


@case
def lists_filled_comprehension(n: "size", m: "size"):
    rows = [[] for _ in range(m)]
    copy = [r for r in rows]
    for i in range(n):
        for j in range(m):
            rows[j].append(i)
    return rows, copy


@case
def lists_filled_tuple_copy(n: "size", m: "size"):
    rows = [[] for _ in range(m)]
    copy = tuple(rows)
    for i in range(n):
        for j in range(m):
            copy[j].append(i)
    return rows, copy


@case
def lists_filled_pairs(n: "size", m: "size"):
    rows = [[] for _ in range(m)]
    pairs = list(enumerate(rows))
    for i in range(n):
        for j, row in pairs:
            row.append(i - j)
    return rows, pairs


@case
def groups_copied(x: "list i[n]"):
    groups = collections.defaultdict(list)
    for i, k in enumerate(x):
        groups[k].append(i)
    copy = dict(groups)
    for i, k in enumerate(x):
        groups[k].append(i + 100)
    return list(copy.items()), list(groups.items())


@case
def groups_value_kept(n: "size", k: "I"):
    groups = collections.defaultdict(list)
    first = groups[k]
    for i in range(n):
        groups[k].append(i)
    return len(first), [len(v) for v in groups.values()]


@case
def dict_of_lists_copied(n: "size", m: "size"):
    d = {j: [] for j in range(m)}
    e = d.copy()
    for i in range(n):
        for j in range(m):
            d[j].append(i)
    return list(d.values()), list(e.values())


@case
def dict_values_filled(n: "size", m: "size"):
    d = {j: [] for j in range(m)}
    for i in range(n):
        for v in d.values():
            v.append(i)
    return list(d.items())
