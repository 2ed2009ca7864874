"""C06: the Jacobian of a graph consists of its factors' blocks."""
from .. import structure
from ..factors import N, coords_spec, coords_stub, factor_list, fvar, graph_spec, jacobian_at, nv, rdim, stack_spec, stack_stub, td, vt
from ..ir import ZERO, add, app, eq, fresh, le, lt, mul, sym
from ..models import require_equal, to_arr
from ..structure import assignments, block, contracts, dim_of, ld, layout, relayout_stub, storage
from ..vals import Arr, Comp, Item, NComp, NLeaf, Obj, Seq, flat_arr
from .c05 import LAYOUT, member, other_layout, recovered, spec_graph


def run(P):
    from jaxfg.core import FactorStack, StackedFactorGraph, VariableAssignments
    from jaxfg.sparse import SparseCooMatrix

    P.assume("C06: contract of StorageLayout.make, discharged in C01; of update_storage_layout, discharged in C03; of FactorStack.make, discharged in C05")
    P.assume("C06: a factor's residual and Jacobians depend on its parameters and on the values it is given, not on which variables it is attached to; residual dimension is fixed by tree structure and leaf shapes")

    def coords(eng):
        M = member(eng)
        off = sym("row_offset")
        got = eng.call(FactorStack.compute_jacobian_coords, [], dict(factors=M.seq(), local_storage_layout=layout(LAYOUT, True), row_offset=off))
        require_equal(eng, got, coords_spec(M.n, M.fn, LAYOUT, off), "coordinates")

    P.verify("FactorStack.compute_jacobian_coords", coords, ["factors of equal tree structure and leaf shapes", "the layout has their variables"],
             ["one block per variable and factor: rows offset + r * residual dimension + a, columns those of the factor's own variable"], contracts=contracts())

    def stack_jacobian(eng):
        M = member(eng)
        st = storage("storage", LAYOUT, False)
        got = eng.call(eng.getattr(stack_spec(M.n, M.fn, LAYOUT), "compute_residual_jacobian"), [assignments(LAYOUT, False, st)], {})

        def block_of(i):
            ty = vt(M.t, i)
            return [Item(Arr([NLeaf(M.n), NLeaf(rdim(M.fn(ZERO))), NLeaf(ld(ty))], lambda r, a, c: jacobian_at(M.fn(r[0]), i, lambda v: block(st, LAYOUT, False, v)).get(a[0], c[0])))]

        require_equal(eng, got, Seq([Comp(nv(M.t), block_of)], "tuple"), "Jacobians of every factor at its own values, one array per variable")

    P.verify("FactorStack.compute_residual_jacobian", stack_jacobian, ["a stack for the layout of the assignments"], ["one array per variable; row r is the Jacobian of factor r"], contracts=contracts())

    def make_graph(eng):
        eng.ctx.assume(lt(ZERO, N))
        g = eng.call(StackedFactorGraph.make, [factor_list()], {})
        if not isinstance(g, Obj) or g.cls is not StackedFactorGraph:
            return eng.fail("result is a graph", repr(g))
        G, S = recovered(eng, g)
        require_equal(eng, g, graph_spec(G, S), "graph")

    P.verify("StackedFactorGraph.make (Jacobian coordinates)", make_graph, ["any factors, at least one"],
             ["coordinates of all groups in order, rows offset by the rows of the groups before"],
             contracts=contracts() | {FactorStack.make: stack_stub, FactorStack.compute_jacobian_coords: coords_stub})

    def jacobian(eng):
        G, S, g = spec_graph(eng)
        a, value = other_layout(S)
        res = flat_arr(G.start(G.n), lambda i: app("at", [sym("residuals", "Vec"), i], "R"))
        got = eng.call(eng.getattr(g, "compute_whitened_residual_jacobian"), [a, res], {})

        def entry(p):
            gi, i, r, row, c = p
            k = G.mem(gi, r)
            first = add(G.start(gi), mul(r, rdim(k)))
            w = flat_arr(rdim(k), lambda t: res.get(add(first, t))).lam()
            return app("whitej", [k, jacobian_at(k, i, value).lam(), w, row, c], "R")

        spec = g.fields["jacobian_coords"]
        want = Obj(SparseCooMatrix, dict(
            values=Arr(spec.fields["rows"].doms, entry),
            coords=spec,
            shape=(G.start(G.n), layout(S, True).fields["dim"]),
        ))
        require_equal(eng, got, want, "Jacobian")

    P.verify("StackedFactorGraph.compute_whitened_residual_jacobian", jacobian, ["a graph as made by make", "assignments of its variables in any layout", "any residual vector"],
             ["each block is the factor's Jacobian whitened with the factor's own slice of the residual", "values in the order of the coordinates", "shape residual dimension by local dimension"],
             contracts=contracts() | {VariableAssignments.update_storage_layout: relayout_stub})
