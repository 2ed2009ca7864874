"""C03: changing the storage layout keeps every variable's value."""
from ..ir import ONE, and_, le, sym
from ..models import require_equal, value_eq
from ..structure import assignments, block, bn, contracts, layout, lm, mem, storage, structure
from ..vals import Obj

B = sym("variables", "Set")
S1, S2 = structure("old_order", B), structure("new_order", B)


def uses_layout(eng, got, S, local, what):
    """got is the layout of S: the same object, or equal to it by =="""
    want = layout(S, local)
    if got.fields["index_from_variable"].tag is want.fields["index_from_variable"].tag:
        return require_equal(eng, got, want, what)
    t = eng.truth(value_eq(eng, got, want))
    eng.require(t, what)


def run(P):
    from jaxfg.core import VariableAssignments

    P.assume("C03: contract of StorageLayout.make, discharged in C01")
    P.assume("C03: two frozendicts compare equal only if they map every key to the same value (Python semantics)")

    def convert(eng, local):
        eng.ctx.assume(and_(le(ONE, bn(B)), le(ONE, lm(S1)), le(ONE, lm(S2))))
        old = storage("storage", S1, local)
        a = assignments(S1, local, old)
        b = eng.call(eng.getattr(a, "update_storage_layout"), [layout(S2, local)], {})
        if not isinstance(b, Obj) or b.cls is not VariableAssignments:
            return eng.fail("result is a VariableAssignments", repr(b))
        uses_layout(eng, b.fields["storage_layout"], S2, local, "result uses the requested layout")
        st = b.fields["storage"]
        require_equal(eng, st.doms[0].size(), old.doms[0].size(), "length of the storage is kept")
        require_equal(eng, a.fields["storage"], old, "the old assignments are unchanged")
        v = sym("v", "Var")
        with eng.assuming(mem(B, v)):
            require_equal(eng, block(st, S2, local, v), block(old, S1, local, v), "value of every variable is kept")

    for local in (False, True):
        P.verify(f"VariableAssignments.update_storage_layout ({'deltas' if local else 'values'})", lambda eng, local=local: convert(eng, local),
                 ["any two layouts of the same variables, at least one"], ["requested layout", "value of every variable is kept"], contracts=contracts())

    def same(eng, local):
        old = storage("storage", S1, local)
        a = assignments(S1, local, old)
        b = eng.call(eng.getattr(a, "update_storage_layout"), [layout(S1, local)], {})
        require_equal(eng, b, assignments(S1, local, old), "nothing changes")

    for local in (False, True):
        P.verify(f"VariableAssignments.update_storage_layout (own layout, {'deltas' if local else 'values'})", lambda eng, local=local: same(eng, local),
                 ["the layout the assignments have"], ["nothing changes"], contracts=contracts())
