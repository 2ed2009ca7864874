"""Random factor graph ingredients for the concrete checks.

Everything here goes through the public interface of the library: variable types and factor
types are written the way a user would write them.
"""
from __future__ import annotations

import os
from typing import Any, Dict, List, NamedTuple, Sequence, Tuple

from . import env  # noqa: F401
import jax
import jax_dataclasses as jdc
import jaxfg
import jaxlie
import numpy as np
from jax import numpy as jnp
from overrides import overrides


class Fail(Exception):
    """A concrete input on which the real code breaks the property."""


def check(cond, msg, **detail):
    if not bool(cond):
        raise Fail(msg + "".join(f"\n  {k} = {short(v)}" for k, v in detail.items()))


_listed = None
KNOWN = {}


def known(prop, name, msg, **detail):
    """A defect that is listed in KNOWN_FINDINGS.txt is noted, any other fails the case."""
    global _listed
    if _listed is None:
        path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "KNOWN_FINDINGS.txt")
        lines = [line.split(None, 3) for line in open(path) if line.startswith("known:")]
        _listed = {(p[1], p[2]): p[3].strip() for p in lines}
    text = _listed.get(("property=" + prop, name + ":"))
    check(text is not None, msg, **detail)
    KNOWN[name] = text


def short(v, n=1200):
    s = np.array2string(np.asarray(v), threshold=200) if hasattr(v, "shape") else repr(v)
    return s if len(s) < n else s[:n] + "..."


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.all(np.abs(a - b) <= tol * (1.0 + np.maximum(np.abs(a), np.abs(b)))))


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b))


def leaves(x):
    return [np.asarray(l) for l in jax.tree_util.tree_leaves(x)]


def flat(x):
    ls = [l.reshape(-1) for l in leaves(x)]
    return np.concatenate(ls) if ls else np.zeros(0)


def tree_same(a, b, tol=None):
    if jax.tree_util.tree_structure(a) != jax.tree_util.tree_structure(b):
        return False
    la, lb = leaves(a), leaves(b)
    return len(la) == len(lb) and all(
        (same(x, y) if tol is None else close(x, y, tol)) for x, y in zip(la, lb)
    )


# ---------------------------------------------------------------- variable types


class PairVal(NamedTuple):
    a: Any
    b: Any


class StructVar(jaxfg.core.VariableBase[PairVal]):
    """Nested value: a vector, a matrix, and a scalar, with a non-zero default."""

    @classmethod
    @overrides
    def get_default_value(cls) -> PairVal:
        return PairVal(
            a={"z": jnp.array([0.5, -1.5]), "k": jnp.array(2.25)},
            b=jnp.array([[1.0, 2.0], [3.0, 4.5]]),
        )


class DerivedVar(StructVar):
    """Subclass of a variable type that is in use itself, with a value of another size."""

    @classmethod
    @overrides
    def get_default_value(cls) -> PairVal:
        return PairVal(a=jnp.array([[-0.75]]), b={"q": jnp.array([1.25, 0.5])})


class CurvedVar(jaxfg.core.VariableBase[Any]):
    """Three parameters, two local ones, non-linear retraction."""

    @classmethod
    @overrides
    def get_default_value(cls):
        return jnp.array([1.0, -2.0, 0.25])

    @classmethod
    @overrides
    def get_local_parameter_dim(cls) -> int:
        return 2

    @classmethod
    @overrides
    def manifold_retract(cls, x, local_delta):
        d0, d1 = local_delta[0], local_delta[1]
        return x + jnp.array([jnp.sin(d0) + x[1] * d1, d1 * (1.0 + x[0] ** 2), d0 * d1 + x[2] * d0])


class BentVar(jaxfg.core.VariableBase[Any]):
    """As many local as stored parameters, non-linear retraction."""

    @classmethod
    @overrides
    def get_default_value(cls):
        return jnp.array([0.5, -1.25])

    @classmethod
    @overrides
    def manifold_retract(cls, x, local_delta):
        return x + jnp.array([jnp.sin(local_delta[1]) * (1.0 + x[1] ** 2), local_delta[0] * (2.0 + local_delta[1]) - x[0] * local_delta[1]])


class ShrunkVar(jaxfg.core.VariableBase[Any]):
    """One local parameter moving a two-leaf value; more leaves than local parameters."""

    @classmethod
    @overrides
    def get_default_value(cls):
        return (jnp.array([0.5]), jnp.array([-0.25, 0.75]))

    @classmethod
    @overrides
    def get_local_parameter_dim(cls) -> int:
        return 1

    @classmethod
    @overrides
    def manifold_retract(cls, x, local_delta):
        d = local_delta[0]
        return (x[0] * (1.0 + d) + d, x[1] + jnp.array([jnp.sin(d), 2.0 * d + d**2]))


class WideVar(jaxfg.core.VariableBase[Any]):
    """More local than stored parameters."""

    @classmethod
    @overrides
    def get_default_value(cls):
        return jnp.array([0.75])

    @classmethod
    @overrides
    def get_local_parameter_dim(cls) -> int:
        return 3

    @classmethod
    @overrides
    def manifold_retract(cls, x, local_delta):
        return x + jnp.array([local_delta[0] + 2.0 * local_delta[1] * x[0] - jnp.tanh(local_delta[2])])


R = jaxfg.core.RealVectorVariable
VECTOR_TYPES = [R[1], R[2], R[3]]
EXOTIC_TYPES = [StructVar, DerivedVar, BentVar, CurvedVar, ShrunkVar, WideVar]
LIE_TYPES = [
    jaxfg.geometry.SO2Variable,
    jaxfg.geometry.SE2Variable,
    jaxfg.geometry.SO3Variable,
    jaxfg.geometry.SE3Variable,
]
ALL_TYPES = VECTOR_TYPES + EXOTIC_TYPES + LIE_TYPES


def tname(t):
    try:
        return f"{t.__name__}({t.get_parameter_dim()}/{t.get_local_parameter_dim()})"
    except Exception:
        return t.__name__


def random_value(rng, t, scale=1.0):
    if t in LIE_TYPES:
        g = t.get_group_type()
        return g.exp(jnp.asarray(rng.normal(size=g.tangent_dim) * scale))
    d = t.get_default_value()
    return jax.tree_util.tree_map(lambda l: jnp.asarray(rng.normal(size=np.shape(l)) * scale), d)


def odd_value(rng, t):
    """A random value, now and then zero, the identity, the default, tiny or large."""
    pick = int(rng.integers(12))
    if pick == 0 and t not in LIE_TYPES:
        return jax.tree_util.tree_map(jnp.zeros_like, t.get_default_value())
    if pick <= 1:
        return t.get_default_value()
    if pick == 2:
        return random_value(rng, t, 1e-9)
    if pick == 3 and t not in LIE_TYPES:
        return random_value(rng, t, 1e6)
    return random_value(rng, t)


def random_variables(rng, n, types=None):
    types = list(types or ALL_TYPES)
    k = int(rng.integers(1, min(4, len(types)) + 1))
    chosen = [types[i] for i in rng.choice(len(types), size=k, replace=False)]
    return [chosen[int(rng.integers(k))]() for _ in range(n)]


def shuffled(rng, xs):
    xs = list(xs)
    return [xs[i] for i in rng.permutation(len(xs))]


# ---------------------------------------------------------------- noise models


def random_noise(rng, dim, kinds=("full", "diag", "huber"), scale=1.0):
    kind = kinds[int(rng.integers(len(kinds)))]
    if kind == "huber":
        inner = random_noise(rng, dim, ("full", "diag"), scale)
        return jaxfg.noises.HuberWrapper(wrapped=inner, delta=float(rng.uniform(0.2, 2.0)))
    if kind == "full":
        m = rng.normal(size=(dim, dim))
        cov = m @ m.T + 0.5 * np.eye(dim)
        return jaxfg.noises.Gaussian.make_from_covariance(jnp.asarray(cov * scale))
    return jaxfg.noises.DiagonalGaussian.make_from_covariance(jnp.asarray(rng.uniform(0.3, 3.0, size=dim) * scale))


def ref_whiten(noise, r):
    """Noise model from first principles."""
    if isinstance(noise, jaxfg.noises.Gaussian):
        return np.asarray(noise.sqrt_precision_matrix) @ np.asarray(r)
    if isinstance(noise, jaxfg.noises.DiagonalGaussian):
        return np.asarray(noise.sqrt_precision_diagonal) * np.asarray(r)
    w = ref_whiten(noise.wrapped, r)
    n = np.linalg.norm(w)
    return w if n < noise.delta else w * np.sqrt(noise.delta / n)


def ref_whiten_jac(noise, J, r):
    """r: raw (unwhitened) residual."""
    J = np.asarray(J)
    if isinstance(noise, jaxfg.noises.Gaussian):
        return np.asarray(noise.sqrt_precision_matrix) @ J
    if isinstance(noise, jaxfg.noises.DiagonalGaussian):
        return np.asarray(noise.sqrt_precision_diagonal)[:, None] * J
    n = np.linalg.norm(ref_whiten(noise.wrapped, r))
    w = 1.0 if n < noise.delta else np.sqrt(noise.delta / n)
    return ref_whiten_jac(noise.wrapped, J, r) * w


# ---------------------------------------------------------------- factors


@jdc.pytree_dataclass
class AffineFactor(jaxfg.core.FactorBase[Tuple[object, ...]]):
    """residual = sum_i A_i flatten(x_i) - b; any arity."""

    A: Any
    b: Any

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[object, ...]) -> jnp.ndarray:
        r = -self.b
        for A, x in zip(self.A, variable_values):
            r = r + A @ jax.flatten_util.ravel_pytree(x)[0]
        return r


@jdc.pytree_dataclass
class CurvedFactor(jaxfg.core.FactorBase[Tuple[object, ...]]):
    """Non-linear, not symmetric in its variables; has a static field and a dict of parameters."""

    params: Dict[str, Any]
    power: jdc.Static[int]

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[object, ...]) -> jnp.ndarray:
        r = -self.params["b"]
        for i, x in enumerate(variable_values):
            f = jax.flatten_util.ravel_pytree(x)[0]
            r = r + jnp.sin(self.params["w"] * (i + 1.0) * jnp.sum(f)) + 0.3 * jnp.sum(f**self.power) * self.params["w"]
        return r


@jdc.pytree_dataclass
class AnalyticFactor(jaxfg.core.FactorBase[Tuple[object]]):
    """Supplies its own (deliberately scaled) Jacobian."""

    s: Any

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[object]) -> jnp.ndarray:
        (x,) = variable_values
        return self.s * jax.flatten_util.ravel_pytree(x)[0]

    @overrides
    def compute_residual_jacobians(self, variable_values: Tuple[object]) -> Tuple[jnp.ndarray]:
        (x,) = variable_values
        t = type(self.variables[0])
        n, l = t.get_parameter_dim(), t.get_local_parameter_dim()
        return (3.0 * self.s * jnp.arange(1.0, n * l + 1).reshape((n, l)),)


@jdc.pytree_dataclass
class SumFactor(jaxfg.core.FactorBase[Tuple[object]]):
    """Weighted sum of a vector; supplies its Jacobian, so that the vector can be long."""

    s: Any

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[object]) -> jnp.ndarray:
        (x,) = variable_values
        return jnp.sum(self.s * x)[None]

    @overrides
    def compute_residual_jacobians(self, variable_values: Tuple[object]) -> Tuple[jnp.ndarray]:
        return (self.s[None, :],)


@jdc.pytree_dataclass
class ShapedFactor(jaxfg.core.FactorBase[Tuple[object]]):
    """Six parameters, whose shape matters."""

    M: Any

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[object]) -> jnp.ndarray:
        f = jax.flatten_util.ravel_pytree(variable_values)[0]
        rows = self.M.reshape((self.M.shape[0], -1))
        return jnp.array([jnp.sum(rows[0]) + f[0], jnp.sum(rows[:, 0]) * jnp.sum(f)])


class NamedValues(NamedTuple):
    """Fields in no alphabetical order."""

    later: object
    early: object
    mid: object


@jdc.pytree_dataclass
class NamedFactor(jaxfg.core.FactorBase[NamedValues]):
    """Three variables, by name."""

    w: Any

    @overrides
    def compute_residual_vector(self, variable_values: NamedValues) -> jnp.ndarray:
        f = lambda x: jnp.sum(jax.flatten_util.ravel_pytree(x)[0])
        v = variable_values
        return jnp.array([self.w * f(v.later) - 2.0 * f(v.early), f(v.early) * f(v.mid)])


LONG = 40000  # does not fit 16 bits


def random_factor(rng, variables, kinds=("affine", "curved", "lie", "analytic"), noise_kinds=("full", "diag", "huber"), pd=None):
    """A random factor over some of `variables`."""
    pd = pd or (lambda v: type(v).get_parameter_dim())
    kind = kinds[int(rng.integers(len(kinds)))]
    lie = [v for v in variables if type(v) in LIE_TYPES]
    if kind == "lie" and lie:
        a = lie[int(rng.integers(len(lie)))]
        mates = [v for v in lie if type(v) is type(a) and v is not a]
        t = type(a).get_group_type()
        T = t.exp(jnp.asarray(rng.normal(size=t.tangent_dim) * 0.7))
        noise = random_noise(rng, t.tangent_dim, noise_kinds)
        if mates and rng.random() < 0.6:
            b = mates[int(rng.integers(len(mates)))]
            return jaxfg.geometry.BetweenFactor.make(a, b, T, noise)
        return jaxfg.geometry.PriorFactor.make(a, T, noise)
    if kind == "analytic":
        v = variables[int(rng.integers(len(variables)))]
        return AnalyticFactor(
            variables=(v,), noise_model=random_noise(rng, pd(v), noise_kinds), s=jnp.asarray(rng.normal())
        )
    arity = int(rng.integers(1, min(3, len(variables)) + 1))
    again = arity > 1 and rng.random() < 0.15  # a variable may occur twice in one factor
    vs = tuple(variables[i] for i in rng.choice(len(variables), size=arity, replace=again))
    rd = int(rng.integers(1, 4))
    noise = random_noise(rng, rd, noise_kinds)
    if kind == "curved":
        return CurvedFactor(
            variables=vs,
            noise_model=noise,
            params={"w": jnp.asarray(rng.normal(size=rd) * 0.5), "b": jnp.asarray(rng.normal(size=rd))},
            power=int(rng.integers(1, 3)),
        )
    return AffineFactor(
        variables=vs,
        noise_model=noise,
        A=tuple(jnp.asarray(rng.normal(size=(rd, pd(v)))) for v in vs),
        b=jnp.asarray(rng.normal(size=rd)),
    )


def random_graph(rng, n_vars=None, n_factors=None, types=None, anchored=False, **kw):
    """(variables, factors); with `anchored`, every variable also has a full-rank prior."""
    n_vars = n_vars or int(rng.integers(1, 6))
    n_factors = n_factors or int(rng.integers(1, 7))
    variables = random_variables(rng, n_vars, types)
    factors = [random_factor(rng, variables, **kw) for _ in range(n_factors)]
    if anchored:
        for v in variables:
            t = type(v)
            n = t.get_parameter_dim()
            factors.append(
                AffineFactor(
                    variables=(v,),
                    noise_model=random_noise(rng, n, kw.get("noise_kinds", ("full", "diag"))),
                    A=(jnp.asarray(rng.normal(size=(n, n)) * 0.3 + 2.0 * np.eye(n)),),
                    b=jnp.asarray(rng.normal(size=n)),
                )
            )
        factors = shuffled(rng, factors)
    used = []
    for f in factors:
        for v in f.variables:
            if v not in used:
                used.append(v)
    return used, factors


def odd_values(rng, variables):
    return {v: odd_value(rng, type(v)) for v in variables}


def random_values(rng, variables, scale=0.7):
    return {v: random_value(rng, type(v), scale) for v in variables}


def factor_values(f, values):
    vs = tuple(values[v] for v in f.variables)
    if isinstance(f, jaxfg.geometry.BetweenFactor):
        from jaxfg.geometry._factors import BetweenValueTuple

        return BetweenValueTuple(*vs)
    if isinstance(f, NamedFactor):
        return NamedValues(vs[0], vs[1], vs[2])
    return vs


def ref_residual(f, values):
    return np.asarray(f.compute_residual_vector(factor_values(f, values)))


def ref_cost(factors, values):
    return sum(float(np.sum(ref_whiten(f.noise_model, ref_residual(f, values)) ** 2)) for f in factors)


def describe_graph(variables, factors):
    names = {v: f"v{i}:{tname(type(v))}" for i, v in enumerate(variables)}
    return [
        f"{type(f).__name__}({', '.join(names[v] for v in f.variables)}; "
        f"{type(f.noise_model).__name__} dim {f.noise_model.get_residual_dim()})"
        for f in factors
    ]
