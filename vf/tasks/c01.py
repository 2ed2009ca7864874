"""C01: storage layouts partition the storage vector."""
from ..ir import ONE, ZERO, add, app, eq, fresh, le, lt, mul, sub, sym
from ..models import INVERSES, require_equal
from ..structure import Abs, BASE, Grouped, Var, VarType, base_seq, bn, bvar, cnt, dim_of, enumeration, layout, lm, lty, mem, nth, place, start, structure, tyof
from ..vals import Comp, Item, Obj, Seq

B = sym("variables", "Set")
S = structure("order", B)


def lookup(eng, lay, name, key):
    return eng.getitem(eng.getattr(lay, name), key)


def partition(eng, lay, st, local):
    """The statement of C01, read off the object itself."""
    get = lambda u, j: lookup(eng, lay, "index_from_variable", Var(st.nth(u, j)))
    tstart = lambda u: lookup(eng, lay, "index_from_variable_type", VarType(st.ty(u)))
    tcount = lambda u: lookup(eng, lay, "count_from_variable_type", VarType(st.ty(u)))
    u, j = fresh("u"), fresh("j")
    eng.generic[u] = [le(ZERO, u), lt(u, st.m)]
    d = dim_of(st.ty(u), local)
    with eng.assuming(le(ZERO, u), lt(u, st.m)):
        require_equal(eng, tcount(u), st.cnt(u), "count of a type is its number of variables")
        require_equal(eng, tstart(u), get(u, ZERO), "start of a type is the start of its first variable")
        with eng.assuming(le(ZERO, j), lt(add(j, ONE), st.cnt(u))):
            require_equal(eng, get(u, add(j, ONE)), add(get(u, j), d), "a variable's block ends where the next of its type starts")
        with eng.assuming(lt(add(u, ONE), st.m)):
            require_equal(eng, get(add(u, ONE), ZERO), add(get(u, sub(st.cnt(u), ONE)), d), "the last block of a type ends where the next type starts")
        with eng.assuming(eq(add(u, ONE), st.m)):
            require_equal(eng, eng.getattr(lay, "dim"), add(get(u, sub(st.cnt(u), ONE)), d), "the last block ends at the dimension")
        with eng.assuming(eq(u, ZERO)):
            require_equal(eng, get(u, ZERO), ZERO, "the first block starts at zero")
    # any two variables
    u2, j2 = fresh("u"), fresh("j")
    with eng.assuming(le(ZERO, u), lt(u, st.m), le(ZERO, j), lt(j, st.cnt(u)), le(ZERO, u2), lt(u2, st.m), le(ZERO, j2), lt(j2, st.cnt(u2))):
        a, b = get(u, j), get(u2, j2)
        eng.require(le(ZERO, a), "block starts at a position >= 0")
        eng.require(le(add(a, d), eng.getattr(lay, "dim")), "block ends within the storage")
        for what, facts in (("type", [lt(u, u2)]), ("place", [eq(u, u2), lt(j, j2)])):
            with eng.assuming(*facts):
                eng.require(le(add(a, d), b), f"blocks of variables of different {what} are disjoint and ascending")


def run(P):
    from jaxfg.core import StorageLayout

    P.assume("C01: filling a defaultdict(list) under key(x) groups the values by key, keys in order of first use, values in order of insertion (Python dict semantics)")
    P.assume("C01: variables are distinct; dimensions are >= 0")

    def make(eng, local, kw):
        n, fn = bn(B), lambda k: bvar(B, k)
        lay = eng.call(StorageLayout.make, [base_seq(B)], dict(local=local) if kw else {})
        st = Grouped(n, fn)
        if not isinstance(lay, Obj) or lay.cls is not StorageLayout:
            return eng.fail("result is a StorageLayout", repr(lay))
        require_equal(eng, lay, layout(st, local), "layout")
        partition(eng, lay, st, local)
        # every given variable has its block
        k = fresh("k")
        with eng.assuming(le(ZERO, k), lt(k, n)):
            g, r = app("gid", [st.T, k], "I"), app("grank", [st.T, k], "I")
            require_equal(eng, lookup(eng, lay, "index_from_variable", Var(fn(k))), place(st, local, g, r), "every given variable is stored")

    ens = [
        "blocks follow each other without gaps from 0 to dim, grouped by type in order of first occurrence",
        "length of a block is the variable's (local) dimension", "type starts and counts describe the runs",
    ]
    for local, kw in ((False, False), (True, True), (False, True)):
        P.verify(f"StorageLayout.make ({'local' if local else 'values'}{'' if kw else ', by default'})", lambda eng, local=local, kw=kw: make(eng, local, kw), ["distinct variables"], ens)

    def regroup(eng, local):
        lay = eng.call(StorageLayout.make, [enumeration(S)], dict(local=local))
        require_equal(eng, lay, layout(S, local), "layout of an enumeration of another layout's variables")
        partition(eng, lay, Abs(S), local)

    for local in (False, True):
        P.verify(f"StorageLayout.make (variables of another layout, {'local' if local else 'values'})", lambda eng, local=local: regroup(eng, local), ["variables in the order of some layout"], ["the same order"] + ens)

    def enum(eng):
        for local in (False, True):
            lay = layout(S, local)
            vs = eng.call(eng.getattr(lay, "get_variables"), [], {})
            require_equal(eng, Seq(eng.iter_parts(vs), "keys"), enumeration(S), "get_variables: storage order")
            ts = eng.call(eng.getattr(lay, "get_variable_types"), [], {})
            require_equal(eng, Seq(eng.iter_parts(ts), "keys"), Seq([Comp(lm(S), lambda u: [Item(VarType(lty(S, u)))])], "keys"), "get_variable_types: storage order")

    P.verify("StorageLayout.get_variables / get_variable_types", enum, ["a layout made by StorageLayout.make"], ["variables and types in ascending storage position"])
