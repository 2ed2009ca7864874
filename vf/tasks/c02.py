"""C02: variable assignments read back what was stored."""
from .. import ir
from ..ir import ONE, ZERO, add, and_, app, eq, fresh, implies, le, lt, mul, not_, sub, sym
from ..models import require_equal
from ..structure import GIVEN_ORDER, SymVal, Var, VarType, assignments, base_seq, block, bn, bvar, cnt, contracts, dflt, enumeration, index, layout, lm, lty, mem, nth, pd, storage, structure, tyof
from ..vals import Abstract, Batched, Comp, Fn, Item, Obj, SDict, Seq, flat_arr

B = sym("variables", "Set")
S = GIVEN_ORDER[B.id] = structure("order", B)


def given(v):
    return app("given", [v], "B")


def value(v):
    return SymVal(tyof(v), flat_arr(pd(tyof(v)), lambda i: app("value", [v, i], "R")))


class Dict(Abstract):
    """A dictionary from variables to values; `has` says which variables are keys."""

    def __init__(self, has, keys=None):
        self.has, self.keys = has, keys

    def contains(self, eng, key):
        return self.has(key.v) if isinstance(key, Var) else False

    def getitem(self, eng, key):
        eng.require(self.has(key.v), "key of the dictionary is present")
        return value(key.v)

    def getattr(self, name):
        if name == "keys" and self.keys is not None:
            return Fn(lambda: self.keys)
        if name == "get":
            return Fn(lambda k, d=None: engine_merge(self.has(k.v), value(k.v), d))
        return super().getattr(name)

    def iter_parts(self, eng):
        if self.keys is None:
            return super().iter_parts(eng)
        return self.keys.parts


def engine_merge(c, a, b):
    from ..models import merge
    from ..vals import engine

    return merge(engine(), c, a, b)


def run(P):
    from jaxfg.core import VariableAssignments

    P.assume("C02: contract of StorageLayout.make, discharged in C01; flatten and unflatten are inverse to each other, discharged in C20")
    stubs = contracts()

    def member(eng):
        v = sym("v", "Var")
        return v

    def holds(eng, a, want, what):
        """The assignments have the layout of the given variables, and hold want(v) for every v."""
        if not isinstance(a, Obj) or a.cls is not VariableAssignments:
            return eng.fail("result is a VariableAssignments", repr(a))
        require_equal(eng, a.fields["storage_layout"], layout(S, False), "layout of the given variables")
        st = a.fields["storage"]
        require_equal(eng, st.doms[0].size(), layout(S, False).fields["dim"], "length of the storage")
        v = sym("v", "Var")
        with eng.assuming(mem(B, v)):
            require_equal(eng, block(st, S, False, v), want(v).flat, what)

    def defaults(eng):
        eng.ctx.assume(lt(ZERO, bn(B)))
        holds(eng, eng.call(VariableAssignments.make_from_defaults, [base_seq(B)], {}), lambda v: SymVal(tyof(v), dflt(tyof(v))), "default of the variable's type")

    P.verify("VariableAssignments.make_from_defaults", defaults, ["distinct variables, at least one"], ["layout of the variables", "every variable has its type's default"], contracts=stubs)

    def partial(eng, none):
        eng.ctx.assume(lt(ZERO, bn(B)))
        d = None if none else Dict(given)
        a = eng.call(VariableAssignments.make_from_partial_dict, [base_seq(B), d], {})

        def want(v):
            x, y = value(v), SymVal(tyof(v), dflt(tyof(v)))
            return y if none else engine_merge(given(v), x, y)

        holds(eng, a, want, "the given value, or the default")

    P.verify("VariableAssignments.make_from_partial_dict", lambda eng: partial(eng, False), ["distinct variables, at least one; any dictionary"], ["given values where given, defaults elsewhere"], contracts=stubs)
    P.verify("VariableAssignments.make_from_partial_dict (no dictionary)", lambda eng: partial(eng, True), ["distinct variables, at least one"], ["defaults"], contracts=stubs)

    def full(eng):
        eng.ctx.assume(lt(ZERO, bn(B)))
        a = eng.call(VariableAssignments.make_from_dict, [Dict(lambda v: mem(B, v), base_seq(B, "keys"))], {})
        holds(eng, a, value, "the given value")

    P.verify("VariableAssignments.make_from_dict", full, ["a dictionary with at least one variable"], ["the given values"], contracts=stubs)

    def read(eng):
        a = assignments(S, False, storage("storage", S, False))
        v = sym("v", "Var")
        with eng.assuming(mem(B, v)):
            got = eng.call(eng.getattr(a, "get_value"), [Var(v)], {})
            require_equal(eng, got, SymVal(tyof(v), block(a.fields["storage"], S, False, v)), "value of a variable is its block")
        require_equal(eng, Seq(eng.iter_parts(eng.call(eng.getattr(a, "get_variables"), [], {})), "keys"), enumeration(S), "get_variables: order of the layout")

    P.verify("VariableAssignments.get_value / get_variables", read, ["assignments of values", "a stored variable"], ["unflattened block of that variable"], contracts=stubs)

    def stacked(eng):
        a = assignments(S, False, storage("storage", S, False))
        u = sym("u")
        with eng.assuming(le(ZERO, u), lt(u, lm(S))):
            got = eng.call(eng.getattr(a, "get_stacked_value"), [VarType(lty(S, u))], {})
            want = Batched(cnt(S, u), lambda j: SymVal(lty(S, u), block(a.fields["storage"], S, False, nth(S, u, j))))
            require_equal(eng, got, want, "stacked values in order of enumeration")

    P.verify("VariableAssignments.get_stacked_value", stacked, ["a stored type"], ["values of the variables of that type, in storage order"], contracts=stubs)

    def as_dict(eng):
        a = assignments(S, False, storage("storage", S, False))
        got = eng.call(eng.getattr(a, "as_dict"), [], {})
        want = SDict([Comp(lm(S), lambda u: [Comp(cnt(S, u), lambda j: [Item((Var(nth(S, u, j)), SymVal(lty(S, u), block(a.fields["storage"], S, False, nth(S, u, j)))))])])], "dict")
        require_equal(eng, got, want, "every variable with its value")

    P.verify("VariableAssignments.as_dict", as_dict, [], ["every variable with its value"], contracts=stubs)

    def write(eng):
        a = assignments(S, False, storage("storage", S, False))
        before = a.fields["storage"]
        v, w = sym("v", "Var"), sym("w", "Var")
        with eng.assuming(mem(B, v), mem(B, w)):
            b = eng.call(eng.getattr(a, "set_value"), [Var(v), value(v)], {})
            require_equal(eng, a.fields["storage"], before, "the old assignments are unchanged")
            require_equal(eng, b.fields["storage_layout"], layout(S, False), "layout is kept")
            st = b.fields["storage"]
            require_equal(eng, st.doms[0].size(), before.doms[0].size(), "length of the storage is kept")
            require_equal(eng, block(st, S, False, v), value(v).flat, "the variable has the new value")
            with eng.assuming(not_(eq(v, w))):
                require_equal(eng, block(st, S, False, w), block(before, S, False, w), "other variables keep their value")

    P.verify("VariableAssignments.set_value", write, ["a stored variable, any value of its type"], ["that variable has the value, all others keep theirs"], contracts=stubs)
