"""C07: default factor Jacobians."""
from ..ir import ONE, ZERO, add, app, const, eq, fresh, le, lt, mk_sum, mul, sym
from ..models import norm, require_equal, to_arr
from ..pytree import RANKS, Structure, Tree, value_term
from ..vals import Abstract, Arr, Comp, Fn, Item, NLeaf, Obj, Seq, Unsupported, engine, flat_arr

NV, RD = sym("num_variables"), sym("residual_dim")


def ty(i):
    return app("ty", [i], "Ty")


def local(i):
    return app("local_dim", [ty(i)], "I")


class Variable(Abstract):
    """Variable i of the factor, by the contract of variable types (C20)."""

    def __init__(self, i):
        self.i = i

    def sub(self, m):
        from ..ir import subst

        return Variable(subst(self.i, m))

    def getattr(self, name):
        if name == "get_local_parameter_dim":
            return Fn(lambda: local(self.i), name)
        if name == "get_parameter_dim":
            return Fn(lambda: Structure(ty(self.i)).total(), name)
        if name == "manifold_retract_jacobian":
            return Fn(self.retract_jacobian, name)
        if name == "get_default_value":
            return Fn(lambda: Structure(ty(self.i)).value(lambda g, l, idx: app("default", [ty(self.i), const(g), l, *idx], "R")), name)
        if name == "__class__":
            return self
        return super().getattr(name)

    def retract_jacobian(self, x):
        eng = engine()
        if not isinstance(x, Tree):
            raise Unsupported("retraction Jacobian of something else")
        S = Structure(ty(self.i))
        eng.require(eq(x.structure.ty, S.ty), "the value is one of the variable's type")
        xt = value_term(x)
        return Seq([
            Comp(S.count(g), lambda l, g=g: [Item(Arr([NLeaf(d) for d in S.dims(g, l)] + [NLeaf(local(self.i))],
                                                      lambda *p: app("dretract", [S.ty, xt, const(g), l, *[q[0] for q in p]], "R")))])
            for g in range(len(RANKS))
        ], "list")


class Noise(Abstract):
    def getattr(self, name):
        if name == "get_residual_dim":
            return Fn(lambda: RD, name)
        return super().getattr(name)


def run(P):
    from jaxfg.core import FactorBase

    P.assume("C07: jacfwd is the derivative (JAX, trusted); a variable's retraction Jacobian has one block per leaf, of the leaf's shape followed by the local dimension (C20, or the user's override)")
    P.assume("C07: leaves are runs of vectors, scalars and matrices, each run of any length (at least one leaf) and the arrays of any shape; the residual is a vector of the noise model's dimension, at least 1; local dimensions are at least 1; at least one variable")

    def residual(eng, self, values):
        """Any function of the values."""
        rt = value_term(values)
        return flat_arr(RD, lambda r: app("residual", [rt, r], "R"))

    stubs = {FactorBase.compute_residual_vector: residual}

    def jacobians(eng):
        i, l = fresh("i"), fresh("l")
        eng.ctx.assume(lt(ZERO, NV))
        eng.ctx.assume(lt(ZERO, RD))
        variables = Seq([Comp(NV, lambda i: [Item(Variable(i))])], "tuple")
        values = Seq([Comp(NV, lambda i: [Item(Structure(ty(i)).value(lambda g, l, idx: app("x", [i, const(g), l, *idx], "R")))])], "tuple")
        f = Obj(FactorBase, dict(variables=variables, noise_model=Noise()))
        got = eng.call(eng.getattr(f, "compute_residual_jacobians"), [values], {})

        point = value_term(values)
        # the values with every element replaced by the argument of the derivative
        marked = value_term(Seq([Comp(NV, lambda i: [Item(Structure(ty(i)).value(lambda g, l, idx: app("arg0", [ZERO, i, ZERO, const(g), l, ZERO, *idx], "R")))])], "tuple"))

        def want(i):
            S = Structure(ty(i))
            xt = value_term(S.value(lambda g, l, idx: app("x", [i, const(g), l, *idx], "R")))

            def entry(r, c):
                total = ZERO
                for g in range(len(RANKS)):
                    l, idx = fresh("l"), [fresh("e") for _ in range(RANKS[g])]
                    d = app("D", [app("residual", [marked, r], "R"), point, ZERO, i, ZERO, const(g), l, ZERO, *idx], "R")
                    j = app("dretract", [S.ty, xt, const(g), l, *idx, c], "R")
                    total = add(total, mk_sum([(l, S.count(g))] + list(zip(idx, S.dims(g, l))), mul(d, j)))
                return total

            return Arr([NLeaf(RD), NLeaf(local(i))], lambda p, q: entry(p[0], q[0]))

        require_equal(eng, got, Seq([Comp(NV, lambda i: [Item(want(i))])], "tuple"), "derivative of the residual times derivative of the retraction")

    P.verify("FactorBase.compute_residual_jacobians", jacobians, ["the factor does not override it", "any differentiable residual, any number of variables of any types"],
             ["for every variable, in order, the derivative of the residual with respect to its flattened value times the derivative of its retraction at zero"], contracts=stubs)
