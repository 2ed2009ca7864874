"""C04: retraction moves every variable by its own delta."""
from ..ir import ONE, and_, le, sym
from ..models import require_equal
from ..structure import assignments, block, bn, contracts, layout, lm, mem, relayout_stub, retracted, storage, structure, tyof
from ..vals import Obj

B = sym("variables", "Set")
S, D = structure("order", B), structure("delta_order", B)


def run(P):
    from jaxfg.core import VariableAssignments

    from ..interp import unwrap

    P.assume("C04: contracts of StorageLayout.make (C01) and update_storage_layout (C03), discharged there; flatten and unflatten are inverse (C20)")
    stubs = contracts()
    f = VariableAssignments.__dict__["update_storage_layout"]
    stubs[f] = stubs[unwrap(f)] = relayout_stub

    def retract(eng, order):
        eng.ctx.assume(and_(le(ONE, bn(B)), le(ONE, lm(S)), le(ONE, lm(D))))
        x, d = storage("values", S, False), storage("deltas", order, True)
        a, b = assignments(S, False, x), assignments(order, True, d)
        got = eng.call(eng.getattr(a, "manifold_retract"), [b], {})
        if not isinstance(got, Obj) or got.cls is not VariableAssignments:
            return eng.fail("result is a VariableAssignments", repr(got))
        require_equal(eng, got.fields["storage_layout"], layout(S, False), "storage layout is kept")
        st = got.fields["storage"]
        require_equal(eng, st.doms[0].size(), x.doms[0].size(), "length of the storage is kept")
        require_equal(eng, a.fields["storage"], x, "the old assignments are unchanged")
        v = sym("v", "Var")
        with eng.assuming(mem(B, v)):
            want = retracted(tyof(v), block(x, S, False, v), block(d, order, True, v))
            require_equal(eng, block(st, S, False, v), want, "every variable is retracted by its own delta")

    ens = ["every variable's value is its type's retraction of its old value by its own delta", "storage layout is kept"]
    P.verify("VariableAssignments.manifold_retract", lambda eng: retract(eng, D), ["deltas for the same variables, at least one, in any layout"], ens, contracts=stubs)
    P.verify("VariableAssignments.manifold_retract (layouts in the same order)", lambda eng: retract(eng, S), ["deltas in the layout of the values"], ens, contracts=stubs)
