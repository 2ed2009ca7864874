"""C20: variable types flatten, unflatten and retract consistently."""
from .. import classes, ir, lie
from ..classes import ClassVal, Instance, StaticMethod, identical
from ..ir import ONE, ZERO, add, and_, app, const, eq, fresh, ind, lam, le, lt, not_, sym
from ..lie import DIM, GROUP, Element
from ..models import norm, require_equal, to_arr
from ..pytree import RANKS, Structure, Tree, value_term
from ..vals import Arr, Comp, Fn, Item, NLeaf, Seq, flat_arr

S = Structure(sym("type", "Ty"))


def run(P):
    import jax
    import jaxlie
    from jaxfg import geometry
    from jaxfg.core import RealVectorVariable, VariableBase
    from jaxfg.geometry import LieVariableBase

    P.assume("C20: leaves are runs of vectors, scalars and matrices, each run of any length (at least one leaf) and the arrays of any shape; all leaves have one floating-point dtype; a value has the tree structure and leaf shapes of the type's default value")
    P.assume("C20: ravel_pytree flattens the leaves in order, row by row, and the function it returns undoes this (JAX, trusted); jacfwd is the derivative (JAX, trusted)")
    P.assume("C20: rplus(x, d) = x exp(d) and rplus_jacobian_parameters_wrt_delta is its derivative at d = 0 (jaxlie, trusted)")
    P.assume("C20: constructing a variable calls no code of its own")

    x = S.named("x")
    default = S.named("default")

    def user(base=VariableBase, **attrs):
        """A concrete variable type right after its definition, before __init_subclass__."""
        return ClassVal("UserVariable", base, {"get_default_value": StaticMethod(Fn(lambda: default, "get_default_value")), **attrs})

    hook = VariableBase.__dict__["__init_subclass__"]
    hook = hook.__func__ if isinstance(hook, classmethod) else hook

    def ready(eng, base=VariableBase, **attrs):
        """... after __init_subclass__, by its contract."""
        cls = user(base, **attrs)
        eng.call(hook, [cls], {})
        return cls

    def method(eng, cls, name, *args):
        return eng.call(eng.getattr(cls, name), list(args), {})

    def vector(name):
        return flat_arr(S.total(), lambda i: app(name, [i], "R"))

    def unflattened(v):
        return S.value(lambda g, l, idx: v.get(S.offset(g, l, idx)))

    def leaves(v):
        return Seq(v.parts, "list")

    # -------------------------------------------------------------- dimensions and unflattening

    def init_subclass(eng):
        cls = ready(eng)
        require_equal(eng, cls.attrs.get("_parameter_dim"), S.total(), "parameter dimension is the number of elements of the default value")
        v = vector("v")
        if "_unflatten" not in cls.attrs:
            return eng.fail("_unflatten is set", "missing")
        require_equal(eng, eng.call(cls.attrs["_unflatten"], [v], {}), unflattened(v), "unflattening gives the leaves in order, row by row")

    P.verify("VariableBase.__init_subclass__", init_subclass, ["the type is concrete"], ["dimension and unflattening of the default value's structure"])

    def used(eng):
        """A concrete type with other values, whose canonical instance has been asked for."""
        other = Structure(sym("parenttype", "Ty"))
        cls = ready(eng, get_default_value=StaticMethod(Fn(lambda: other.named("parent"))))
        method(eng, cls, "canonical_instance")
        return cls, other

    def init_derived(eng):
        parent, other = used(eng)
        cls = ready(eng, parent)
        require_equal(eng, method(eng, cls, "get_parameter_dim"), S.total(), "dimension of the derived type's own default value")
        require_equal(eng, method(eng, cls, "get_local_parameter_dim"), S.total(), "its local dimension")
        v = vector("v")
        require_equal(eng, method(eng, cls, "unflatten", v), unflattened(v), "unflattening with its own structure")
        require_equal(eng, method(eng, cls, "unflatten", method(eng, cls, "flatten", x)), x, "round trip")
        require_equal(eng, method(eng, parent, "get_parameter_dim"), other.total(), "the parent's dimension stays")
        y = other.named("y")
        require_equal(eng, method(eng, parent, "unflatten", method(eng, parent, "flatten", y)), y, "the parent's round trip stays")
        i = method(eng, cls, "canonical_instance")
        eng.require(isinstance(i, Instance) and i.cls is cls, "an instance of the derived type")
        identical(eng, method(eng, cls, "canonical_instance"), i, "the same instance each time")
        j = method(eng, parent, "canonical_instance")
        eng.require(isinstance(j, Instance) and j.cls is parent, "an instance of the parent")

    P.verify("VariableBase.__init_subclass__ (derived from a type in use)", init_derived, ["the base is a concrete type whose canonical instance has been used"], ["dimension, unflattening and canonical instance are its own; the parent's stay"])

    def init_abstract(eng):
        def no_default(*a):
            eng.fail("the default value of an abstract type is not asked for", "it is")

        cls = ClassVal("AbstractVariable", LieVariableBase, {})
        cls.attrs["get_default_value"] = StaticMethod(Fn(no_default))
        before = dict(cls.attrs)
        eng.call(hook, [cls], {})
        eng.require(cls.attrs == before, "an abstract type is left unchanged")

    P.verify("VariableBase.__init_subclass__ (abstract)", init_abstract, ["the type is abstract"], ["nothing changes"])

    def dims(eng):
        cls = ready(eng)
        require_equal(eng, method(eng, cls, "get_parameter_dim"), S.total(), "parameter dimension")
        require_equal(eng, method(eng, cls, "get_local_parameter_dim"), S.total(), "local dimension defaults to it")
        other = Structure(sym("othertype", "Ty"))
        cls2 = user()
        cls2.attrs["get_default_value"] = StaticMethod(Fn(lambda: other.named("other")))
        eng.call(hook, [cls2], {})
        require_equal(eng, method(eng, cls, "get_parameter_dim"), S.total(), "unchanged by the definition of another type")
        require_equal(eng, method(eng, cls2, "get_parameter_dim"), other.total(), "dimension of the other type")

    P.verify("VariableBase.get_parameter_dim", dims, [], ["the number of elements of a value; also the default local dimension"])

    def flatten(eng):
        cls = ready(eng)
        got = method(eng, cls, "flatten", x)
        eng.require(eq(to_arr(got).doms[0].size(), S.total()), "its length is the parameter dimension")
        require_equal(eng, got, S.flat(lambda g, l, idx: app("x", [const(g), l, *idx], "R")), "elements, leaf by leaf, row by row")

    P.verify("VariableBase.flatten", flatten, ["x has the structure of the type"], ["vector of the parameter dimension with the elements of x in order"])

    def unflatten(eng):
        v = vector("v")
        require_equal(eng, method(eng, ready(eng), "unflatten", v), unflattened(v), "leaves of the unflattened vector")

    P.verify("VariableBase.unflatten", unflatten, ["v has the parameter dimension"], ["value whose leaves are the parts of v in order"])

    def round_trip(eng):
        cls = ready(eng)
        require_equal(eng, method(eng, cls, "unflatten", method(eng, cls, "flatten", x)), x, "unflatten(flatten(x)) = x")
        require_equal(eng, method(eng, Instance(cls), "unflatten", method(eng, Instance(cls), "flatten", x)), x, "the same through an instance")

    P.verify("VariableBase.unflatten after flatten", round_trip, ["x has the structure of the type"], ["x"])

    # -------------------------------------------------------------- retraction

    def retract(eng):
        d = vector("d")
        want = S.value(lambda g, l, idx: add(app("x", [const(g), l, *idx], "R"), d.get(S.offset(g, l, idx))))
        require_equal(eng, method(eng, ready(eng), "manifold_retract", x, d), want, "x + delta, element by element")

    P.verify("VariableBase.manifold_retract", retract, ["delta has the parameter dimension"], ["the flattened value plus delta"])

    def jacobian_leaves(eng, got, dim, want):
        """got: one matrix per leaf; want(g, l, idx, j)."""
        spec = Seq(Structure.value(S, lambda g, l, idx: ZERO).parts, "list")
        spec = [Comp(S.count(g), lambda l, g=g: [Item(Arr([NLeaf(d) for d in S.dims(g, l)] + [NLeaf(dim)], lambda *p: want(g, l, [q[0] for q in p[:-1]], p[-1][0])))]) for g in range(len(RANKS))]
        require_equal(eng, got, Seq(spec, "list"), "derivative of every leaf with respect to the delta at zero")

    def jacobian(eng):
        got = method(eng, ready(eng), "manifold_retract_jacobian", x)
        jacobian_leaves(eng, got, S.total(), lambda g, l, idx, j: ind(eq(S.offset(g, l, idx), j)))

    P.verify("VariableBase.manifold_retract_jacobian", jacobian, ["no override of the retraction"], ["identity, split by leaves"])

    L = sym("local_dim")

    def own_retract(x_, d):
        d = to_arr(d)
        return S.value(lambda g, l, idx: app("retract", [value_term(x_), d.lam(), const(g), l, *idx], "R"))

    def jacobian_override(eng):
        eng.ctx.assume(lt(ZERO, L))
        cls = ready(eng, manifold_retract=StaticMethod(Fn(own_retract)), get_local_parameter_dim=StaticMethod(Fn(lambda: L)))
        got = method(eng, cls, "manifold_retract_jacobian", x)
        s = fresh("s")
        marked, zero = lam(s, app("arg0", [s], "R")), lam(s, ZERO)
        xt = value_term(x)
        jacobian_leaves(eng, got, L, lambda g, l, idx, j: app("D", [app("retract", [xt, marked, const(g), l, *idx], "R"), zero, j], "R"))

    P.verify("VariableBase.manifold_retract_jacobian (own retraction)", jacobian_override, ["any differentiable retraction with any local dimension"], ["its derivative with respect to the delta, at zero delta, leaf by leaf"])

    # -------------------------------------------------------------- Lie group variables

    T = Element.named("T")

    def lie_class():
        return ClassVal("LieVariable", LieVariableBase, {"get_group_type": StaticMethod(Fn(lambda: GROUP))})

    def lie_variable(eng):
        eng.ctx.assume(lt(ZERO, DIM))
        cls = lie_class()
        require_equal(eng, method(eng, cls, "get_default_value"), Element(()), "the default value is the identity")
        require_equal(eng, method(eng, cls, "get_local_parameter_dim"), DIM, "the local dimension is the tangent dimension")
        d = flat_arr(DIM, lambda i: app("d", [i], "R"))
        require_equal(eng, method(eng, cls, "manifold_retract", T, d), T.multiply(lie.exp(d)), "the retraction is x exp(delta)")
        got = method(eng, cls, "manifold_retract_jacobian", T)
        want = Arr([NLeaf(lie.PARAMS), NLeaf(DIM)], lambda p, q: app("rplus_jacobian", [lie.word_term(T.word), p[0], q[0]], "R"))
        require_equal(eng, got, (want,), "Jacobian of the retraction, one leaf")

    P.verify("LieVariableBase", lie_variable, ["any matrix Lie group"], ["identity default, tangent dimension, x exp(delta), and its derivative at zero"])

    def groups(eng):
        for name in ("SO2", "SE2", "SO3", "SE3"):
            cls, group = getattr(geometry, name + "Variable"), getattr(jaxlie, name)
            eng.require(method(eng, cls, "get_group_type") is group, f"group of {name}Variable")
            ls = jax.tree_util.tree_leaves(group.identity())
            eng.require(len(ls) == 1 and ls[0].shape == (group.parameters_dim,), f"a {name} has one leaf, its parameters")

    P.verify("SO2Variable.get_group_type and the other groups", groups, [], ["their own group"])

    # -------------------------------------------------------------- vector types, canonical instances

    n, m = sym("n"), sym("m")

    def vectors(eng):
        eng.ctx.assume(and_(le(ZERO, n), le(ZERO, m), not_(eq(n, m))))
        get = eng.getattr(RealVectorVariable, "__getitem__")
        a = eng.call(get, [n], {})
        b = eng.call(get, [m], {})
        if not isinstance(a, ClassVal) or not isinstance(b, ClassVal):
            return eng.fail("a type", repr(a))
        identical(eng, eng.call(get, [n], {}), a, "equal dimensions give the same type")
        identical(eng, eng.call(get, [m], {}), b, "equal dimensions give the same type (other dimension)")
        eng.require(a is not b, "different dimensions give different types")
        eng.require(issubclass(a.base, VariableBase), "a variable type")
        for cls, k in ((a, n), (b, m)):
            require_equal(eng, to_arr(method(eng, cls, "get_default_value")), flat_arr(k, lambda i: ZERO), "zero default")
            require_equal(eng, method(eng, cls, "get_parameter_dim"), k, "parameter dimension")
            require_equal(eng, method(eng, cls, "get_local_parameter_dim"), k, "local dimension")
            v = flat_arr(k, lambda i: app("v", [i], "R"))
            d = flat_arr(k, lambda i: app("d", [i], "R"))
            require_equal(eng, method(eng, cls, "unflatten", method(eng, cls, "flatten", v)), v, "round trip")
            require_equal(eng, method(eng, cls, "manifold_retract", v, d), flat_arr(k, lambda i: add(app("v", [i], "R"), app("d", [i], "R"))), "retraction")

    P.verify("RealVectorVariable[N]", vectors, [], ["one type per dimension, zero default of that dimension"])

    def canonical(eng):
        a, b = ready(eng), ready(eng)
        i, j = method(eng, a, "canonical_instance"), method(eng, b, "canonical_instance")
        eng.require(isinstance(i, Instance) and i.cls is a, "an instance of the type")
        eng.require(isinstance(j, Instance) and j.cls is b, "an instance of the other type")
        identical(eng, method(eng, a, "canonical_instance"), i, "the same instance each time")
        identical(eng, method(eng, b, "canonical_instance"), j, "the same instance each time (other type)")
        identical(eng, method(eng, method(eng, a, "canonical_instance"), "canonical_instance"), i, "the same when asked through an instance")

    P.verify("VariableBase.canonical_instance", canonical, [], ["one instance per type"])
