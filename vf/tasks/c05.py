"""C05: residual and cost of a graph are those of its factors."""
from .. import ir, models, structure
from ..factors import (
    N, Factor, Grouping, Member, coords_spec, coords_stub, factor_list, fvar, graph_spec, grouping, nv, rdim, residual_at, shapes, stack_spec, stack_stub,
    td, variable_set, vt, whitened_at,
)
from ..ir import ZERO, add, and_, app, eq, fresh, is_app, le, lt, mk_sum, mul, sym
from ..models import norm, require_equal, to_arr
from ..structure import BASE, SymVal, assignments, block, contracts, layout, mem, relayout_stub, storage, structure_of
from ..vals import Arr, Comp, Item, NLeaf, Obj, Seq, Unsupported, flat_arr

B = sym("stored_variables", "Set")
LAYOUT = structure.structure("graph_order", B)


def member(eng, name="group"):
    """A group of factors all of whose variables are stored."""
    M = Member(name)
    eng.ctx.assume(lt(ZERO, M.n))
    structure_mem(M)
    return M


def structure_mem(M):
    from .. import prove

    if M.name not in _DONE:
        _DONE.add(M.name)

        @prove.axiom("mem")
        def _stored(args, t):
            b, v = args
            if b is B and is_app(v, "fvar") and is_app(v.args[1][0], "member:" + M.name):
                r, i = v.args[1][0].args[1][0], v.args[1][1]
                return [ir.implies(and_(le(ZERO, r), lt(r, M.n), le(ZERO, i), lt(i, nv(M.t))), t)]
            return []


_DONE = set()


def recovered(eng, g):
    """(grouping, structure) of a graph made from the factors."""
    lay = g.fields["storage_layout"]
    S, _ = structure_of(lay)
    parts = g.fields["factor_stacks"].parts
    if len(parts) != 1 or not isinstance(parts[0], Comp) or not is_app(parts[0].n, "gn"):
        raise Unsupported("factor stacks are not one per group")
    T = parts[0].n.args[1][0]
    if models.GROUPS[T.id][0] is not N:
        raise Unsupported("grouping of something else")
    return Grouping(T), S


def whole_set(eng, S):
    """The layout has exactly the variables of the factors."""
    K = BASE.get(S.id)
    if K is None or K.id not in models.SETS:
        raise Unsupported("variables of the layout")
    k, i, q = fresh("k"), fresh("i"), fresh("q")
    with eng.assuming(le(ZERO, k), lt(k, N), le(ZERO, i), lt(i, nv(td(k)))):
        eng.require(mem(K, fvar(k, i)), "every variable of every factor has a place in the layout")
    idx, kt = models.SETS[K.id]
    m = {s: app(f"setfirst{j}", [K, q], "I") for j, (s, _) in enumerate(idx)}
    if not is_app(kt, "fvar"):
        raise Unsupported("variables of the layout")
    with eng.assuming(le(ZERO, q), lt(q, structure.bn(K))):
        v = structure.bvar(K, q)
        kk, ii = (ir.subst(t, m) for t in kt.args[1])
        eng.require(and_(eq(v, fvar(kk, ii)), le(ZERO, kk), lt(kk, N), le(ZERO, ii), lt(ii, nv(td(kk)))), "the layout has only variables of the factors")


def spec_graph(eng):
    G, K = grouping(), variable_set()
    S = structure.recognise(structure.base_seq(K).parts)
    eng.ctx.assume(lt(ZERO, N))
    return G, S, graph_spec(G, S)


def other_layout(S):
    """Assignments of the graph's variables, in any layout."""
    S2 = structure.structure("assignment_order", BASE[S.id])
    st = storage("storage", S2, False)
    return assignments(S2, False, st), lambda v: block(st, S2, False, v)


def run(P):
    from jaxfg.core import FactorBase, FactorStack, StackedFactorGraph, VariableAssignments

    P.assume("C05: parameters of factors are floating-point arrays; whole numbers among them are covered by the concrete cases only")
    P.assume("C05: contract of StorageLayout.make, discharged in C01; of update_storage_layout, discharged in C03")
    P.assume("C05: a factor's residual and Jacobians depend on its parameters and on the values it is given, not on which variables it is attached to; residual dimension is fixed by tree structure and leaf shapes")

    def make_stack(eng, use_onp):
        M = member(eng)
        got = eng.call(FactorStack.make, [M.seq(), layout(LAYOUT, False)], dict(use_onp=use_onp))
        require_equal(eng, got, stack_spec(M.n, M.fn, LAYOUT), "stack")

    for use_onp in (True, False):
        P.verify(f"FactorStack.make (use_onp={use_onp})", lambda eng, u=use_onp: make_stack(eng, u), ["factors of equal tree structure and leaf shapes", "the layout has their variables"],
                 ["parameters stacked in order along a new first axis", "value indices of variable i of factor r are its storage positions"], contracts=contracts())

    def stack_residual(eng):
        M = member(eng)
        st = storage("storage", LAYOUT, False)
        got = eng.call(eng.getattr(stack_spec(M.n, M.fn, LAYOUT), "compute_residual_vector"), [assignments(LAYOUT, False, st)], {})
        want = Arr([NLeaf(M.n), NLeaf(rdim(M.fn(ZERO)))], lambda r, a: residual_at(M.fn(r[0]), lambda v: block(st, LAYOUT, False, v)).get(a[0]))
        require_equal(eng, got, want, "row r is factor r's residual at the values of its own variables")

    P.verify("FactorStack.compute_residual_vector", stack_residual, ["a stack for the layout of the assignments"], ["row r is the residual of factor r at its variables' values, in its order"], contracts=contracts())

    stubs = contracts() | {FactorStack.make: stack_stub, FactorStack.compute_jacobian_coords: coords_stub}

    def make_graph(eng, use_onp):
        eng.ctx.assume(lt(ZERO, N))
        g = eng.call(StackedFactorGraph.make, [factor_list()], dict(use_onp=use_onp))
        if not isinstance(g, Obj) or g.cls is not StackedFactorGraph:
            return eng.fail("result is a graph", repr(g))
        G, S = recovered(eng, g)
        whole_set(eng, S)
        want = graph_spec(G, S)
        for f in ("factor_stacks", "storage_layout", "local_storage_layout", "residual_dim"):
            require_equal(eng, g.fields[f], want.fields[f], f)
        k = fresh("k")
        with eng.assuming(le(ZERO, k), lt(k, N)):
            gi, r = app("gid", [G.T, k], "I"), app("grank", [G.T, k], "I")
            eng.require(and_(eq(G.mem(gi, r), k), le(ZERO, gi), lt(gi, G.n), le(ZERO, r), lt(r, G.cnt(gi))), "every factor is in one group, once")

    for use_onp in (True, False):
        P.verify(f"StackedFactorGraph.make (use_onp={use_onp})", lambda eng, u=use_onp: make_graph(eng, u), ["any factors, at least one"],
                 ["one stack per group; every factor in exactly one group, once", "layouts of exactly the factors' variables", "residual dimension is the sum over factors"], contracts=stubs)

    stubs2 = contracts() | {VariableAssignments.update_storage_layout: relayout_stub}

    def whitened(eng):
        G, S, g = spec_graph(eng)
        a, value = other_layout(S)
        got = eng.call(eng.getattr(g, "compute_whitened_residual_vector"), [a], {})
        want = Arr([G.rows()], lambda p: whitened_at(G.mem(p[0], p[1]), value).get(p[2]))
        require_equal(eng, got, want, "block of every factor is its noise model applied to its residual")

    P.verify("StackedFactorGraph.compute_whitened_residual_vector", whitened, ["a graph as made by make", "assignments of its variables in any layout"],
             ["one block per factor: its noise model applied to its residual at its variables' values"], contracts=stubs2)

    def cost(eng):
        G, S, g = spec_graph(eng)
        a, value = other_layout(S)
        got = eng.call(eng.getattr(g, "compute_cost"), [a], {})
        if not isinstance(got, tuple) or len(got) != 2:
            return eng.fail("cost and residual vector", repr(got))
        k, i = fresh("k"), fresh("i")
        with eng.assuming(le(ZERO, k), lt(k, N)):
            w = whitened_at(k, value).get(i)
        require_equal(eng, norm(to_arr(got[0])), mk_sum([(k, N), (i, rdim(k))], mul(w, w)), "cost is the sum over the given factors of their squared whitened residuals")
        want = Arr([G.rows()], lambda p: whitened_at(G.mem(p[0], p[1]), value).get(p[2]))
        require_equal(eng, got[1], want, "whitened residual vector")

    P.verify("StackedFactorGraph.compute_cost", cost, ["a graph as made by make", "assignments of its variables in any layout"],
             ["sum over the factors of the squared whitened residuals: independent of grouping, order and layout"], contracts=stubs2)

    def own_values(eng):
        M = member(eng)
        st = storage("storage", LAYOUT, False)
        r = fresh("r")
        with eng.assuming(le(ZERO, r), lt(r, M.n)):
            k = M.fn(r)
            got = eng.call(eng.getattr(Factor(k), "get_variable_values_from_assignments"), [assignments(LAYOUT, False, st)], {})
            want = Seq([Comp(nv(td(k)), lambda i: [Item(SymVal(vt(td(k), i), block(st, LAYOUT, False, fvar(k, i))))])], "tuple")
            require_equal(eng, got, want, "values of the factor's own variables, in its order")

    P.verify("FactorBase.get_variable_values_from_assignments", own_values, ["assignments that have the factor's variables"], ["the values of its own variables, in its order"], contracts=contracts())

    def variables(eng):
        G, S, g = spec_graph(eng)
        vs = eng.call(eng.getattr(g, "get_variables"), [], {})
        require_equal(eng, Seq(eng.iter_parts(vs), "keys"), structure.enumeration(S), "the variables of the graph's layout, in storage order")

    P.verify("StackedFactorGraph.get_variables", variables, ["a graph as made by make"], ["exactly the factors' variables, in storage order"], contracts=contracts())

    build_tuples(P)
    batched_noise(P)


def build_tuples(P):
    """build_variable_value_tuple keeps the values in order, for every kind of type hint it supports."""
    from typing import NamedTuple, Tuple

    import jax.numpy as jnp
    from jaxfg.core import FactorBase

    class Pair(NamedTuple):
        first: jnp.ndarray
        second: jnp.ndarray

    class Triple(NamedTuple):  # no order by name, length or type
        middle: jnp.ndarray
        z: Pair
        after: jnp.ndarray

    def residual(hint):
        def compute_residual_vector(self, variable_values):
            return variable_values[0]

        compute_residual_vector.__override__ = True
        compute_residual_vector.__annotations__ = {"variable_values": hint}
        return compute_residual_vector

    def vec(j):
        return flat_arr(sym(f"n{j}"), lambda i: app(f"value{j}", [i], "R"))

    n = sym("arity")
    many = Seq([Comp(n, lambda j: [Item(flat_arr(app("leafsize", [j], "I"), lambda i: app("value", [j, i], "R")))])], "tuple")
    cases = [
        ("NamedTuple", Pair, (vec(0), vec(1)), Pair(vec(0), vec(1))),
        ("NamedTuple of three", Triple, (vec(0), Pair(vec(1), vec(2)), vec(3)), Triple(vec(0), Pair(vec(1), vec(2)), vec(3))),
        ("Tuple[A]", Tuple[jnp.ndarray], (vec(0),), (vec(0),)),
        ("Tuple[A, B], of two types", Tuple[jnp.ndarray, Pair], (vec(0), Pair(vec(1), vec(2))), (vec(0), Pair(vec(1), vec(2)))),
        ("Tuple[A, B, C]", Tuple[jnp.ndarray, jnp.ndarray, jnp.ndarray], (vec(0), vec(1), vec(2)), (vec(0), vec(1), vec(2))),
        ("Tuple[A, ...], any number of values", Tuple[jnp.ndarray, ...], many, many),
    ]
    for name, hint, given, want in cases:
        cls = type("HintedFactor", (FactorBase,), {"compute_residual_vector": residual(hint)})
        self = Obj(cls, dict(variables=(), noise_model=None))

        def run(eng, self=self, given=given, want=want):
            eng.ctx.assume(le(ZERO, n))
            got = eng.call(FactorBase.__dict__["build_variable_value_tuple"], [self, given], {})
            if isinstance(want, (Pair, Triple)) and type(got) is not type(want):
                return eng.fail("result has the hinted type", repr(got))
            require_equal(eng, got, want, "the values, in order")

        P.verify(f"FactorBase.build_variable_value_tuple ({name})", run, [f"hint {name}; values of the hinted types"], ["the values, in the given order"])


def batched_noise(P):
    """A stack of noise models has the residual dimension of each of them."""
    from jaxfg.noises import DiagonalGaussian, Gaussian, HuberWrapper

    n, d = sym("stacked"), sym("dim")

    def model_of(kind, batch):
        lead = [NLeaf(n)] if batch else []
        full = Obj(Gaussian, dict(sqrt_precision_matrix=Arr(lead + [NLeaf(d), NLeaf(d)], lambda *p: app("S", [q[0] for q in p], "R"))))
        if kind == "Gaussian":
            return full
        diag = Obj(DiagonalGaussian, dict(sqrt_precision_diagonal=Arr(lead + [NLeaf(d)], lambda *p: app("s", [q[0] for q in p], "R"))))
        if kind == "DiagonalGaussian":
            return diag
        return Obj(HuberWrapper, dict(wrapped=full if kind.endswith("(Gaussian)") else diag, delta=Arr(lead, lambda *p: app("delta", [q[0] for q in p], "R"))))

    for kind in ("Gaussian", "DiagonalGaussian", "HuberWrapper(Gaussian)", "HuberWrapper(DiagonalGaussian)"):

        def run(eng, kind=kind):
            eng.ctx.assume(and_(lt(ZERO, n), lt(ZERO, d)))
            for batch in (False, True):
                got = eng.call(eng.getattr(model_of(kind, batch), "get_residual_dim"), [], {})
                require_equal(eng, got, d, f"residual dimension{', stacked' if batch else ''}")

        P.verify(f"{kind}.get_residual_dim (single and stacked)", run, [], ["dimension of one residual"])
