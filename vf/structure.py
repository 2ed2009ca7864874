"""Variables, variable types and storage layouts as the verifier sees them.

A set of distinct variables B is enumerated by bvar(B, k), k < bn(B).  A structure S orders B for
storage: lm(S) types, type lty(S, u) with cnt(S, u) >= 1 variables nth(S, u, 0), nth(S, u, 1), ...
lu, lj and tu are the inverses.  (S stands for the order in which StorageLayout.make meets variables.)
"""
from . import ir, models, prove, vals
from .ir import ONE, ZERO, Term, add, and_, app, eq, fresh, implies, is_app, lam, le, lt, mk_sum, mul, sub, sym
from .models import INVERSES, SET_EQ_HOOKS, require_equal, to_arr
from .vals import Abstract, Arr, Batched, Comp, Fn, Item, NLeaf, Obj, SDict, Seq, SSet, Unsupported, engine, flat_arr, subval

# ------------------------------------------------------------------ types and values


def pd(ty):
    return app("pd", [ty], "I")


def ld(ty):
    return app("ld", [ty], "I")


def dim_of(ty, local):
    return ld(ty) if local else pd(ty)


@prove.axiom("pd")
def _pd(args, t):
    return [le(ZERO, t)]


@prove.axiom("ld")
def _ld(args, t):
    return [le(ZERO, t)]


prove.NONNEG.update(("pd", "ld", "cnt", "lm", "bn"))


def tyof(v):
    return app("tyof", [v], "Ty")


def vec(a):
    """A vector as a function term."""
    return to_arr(a).lam()


def dflt(ty):
    return flat_arr(pd(ty), lambda i: app("default", [ty, i], "R"))


def retracted(ty, x, delta):
    """Flattened value of the type's retraction."""
    fx, fd = vec(x), vec(delta)
    return flat_arr(pd(ty), lambda i: app("retract", [ty, fx, fd, i], "R"))


class SymVal(Abstract):
    """A value of a variable type, known through its flattening (C20)."""

    def __init__(self, ty, flat):
        self.ty, self.flat = ty, to_arr(flat)

    def sub(self, m):
        return SymVal(ir.subst(self.ty, m), self.flat.sub(m))

    def require_equal(self, eng, got, what):
        if not isinstance(got, SymVal):
            return eng.fail(what, f"expected a value, got {got}")
        eng.require(eq(got.ty, self.ty), f"{what}: type of the value")
        require_equal(eng, got.flat, self.flat, what)

    def merge(self, eng, c, other):
        if isinstance(other, SymVal) and other.ty is self.ty:
            return SymVal(self.ty, models.merge(eng, c, self.flat, other.flat))
        raise Unsupported("choice between values of different types")

    def __repr__(self):
        return f"SymVal({self.ty}, {self.flat})"


class VarType(Abstract):
    def __init__(self, ty):
        self.ty = ty

    def as_term(self):
        return self.ty

    @staticmethod
    def from_term(t):
        return VarType(t)

    def sub(self, m):
        return VarType(ir.subst(self.ty, m))

    def eq(self, eng, other):
        return False if not isinstance(other, VarType) else True if other.ty is self.ty else eq(self.ty, other.ty)

    def require_equal(self, eng, got, what):
        if not isinstance(got, VarType):
            return eng.fail(what, f"expected a variable type, got {got}")
        eng.require(eq(got.ty, self.ty), what)

    def merge(self, eng, c, other):
        return VarType(ir.ite(c, self.ty, other.ty))

    def issubclass(self, eng, t):
        from jaxfg.core import VariableBase

        if t is VariableBase or t is object:
            return True
        raise Unsupported("subclass test of a variable type")

    def getattr(self, name):
        eng, ty = engine(), self.ty
        if name in ("get_parameter_dim", "get_local_parameter_dim"):
            return Fn(lambda: dim_of(ty, name == "get_local_parameter_dim"), name)
        if name == "_parameter_dim":
            return pd(ty)
        if name == "get_default_value":
            return Fn(lambda: SymVal(ty, dflt(ty)), name)
        if name == "flatten":

            def flatten(x):
                if not isinstance(x, SymVal):
                    raise Unsupported("flattening of another value")
                return x.flat

            return Fn(flatten, name)
        if name == "unflatten":

            def unflatten(flat):
                flat = to_arr(flat)
                if flat.ndim != 1:
                    return eng.fail("unflatten: argument is a vector", f"rank {flat.ndim}")
                eng.require(eq(flat.doms[0].size(), pd(ty)), "unflatten: length is the parameter dimension")
                return SymVal(ty, flat)

            return Fn(unflatten, name)
        if name == "manifold_retract":

            def retract(x, local_delta):
                if not isinstance(x, SymVal):
                    raise Unsupported("retraction of another value")
                eng.require(eq(x.ty, ty), "manifold_retract: value of this type")
                d = to_arr(local_delta)
                eng.require(eq(d.doms[0].size(), ld(ty)), "manifold_retract: delta has the local dimension")
                return SymVal(ty, retracted(ty, x.flat, d))

            return Fn(retract, name)
        if name == "canonical_instance":
            return Fn(lambda: Var(app("canonical", [ty], "Var")), name)
        if name in ("__name__", "__qualname__"):
            return "VariableType"
        if name == "__hash__":
            return Fn(lambda: app("hash", [ty], "I"))
        raise Unsupported(f"variable type attribute {name}")

    def __repr__(self):
        return f"VarType({self.ty})"


class Var(Abstract):
    def __init__(self, v):
        self.v = v

    def as_term(self):
        return self.v

    @staticmethod
    def from_term(t):
        return Var(t)

    def sub(self, m):
        return Var(ir.subst(self.v, m))

    def eq(self, eng, other):
        return False if not isinstance(other, Var) else True if other.v is self.v else eq(self.v, other.v)

    def require_equal(self, eng, got, what):
        if not isinstance(got, Var):
            return eng.fail(what, f"expected a variable, got {got}")
        eng.require(eq(got.v, self.v), what)

    def merge(self, eng, c, other):
        return Var(ir.ite(c, self.v, other.v))

    def isinstance(self, eng, t):
        from jaxfg.core import VariableBase

        if isinstance(t, VarType):
            return True if tyof(self.v) is t.ty else eq(tyof(self.v), t.ty)
        if t is VariableBase or t is object:
            return True
        raise Unsupported("isinstance of a variable")

    def getattr(self, name):
        if name == "__class__":
            return VarType(tyof(self.v))
        return VarType(tyof(self.v)).getattr(name)

    def __repr__(self):
        return f"Var({self.v})"


@ir.rule("tyof")
def _tyof(args):
    (v,) = args
    if is_app(v, "nth"):
        return lty(v.args[1][0], v.args[1][1])
    if is_app(v, "canonical"):
        return v.args[1][0]
    if v.op == "ite":
        return ir.ite(v.args[0], tyof(v.args[1]), tyof(v.args[2]))
    return None


# ------------------------------------------------------------------ structures


def lm(S):
    return app("lm", [S], "I")


def cnt(S, u):
    return app("cnt", [S, u], "I")


def lty(S, u):
    return app("lty", [S, u], "Ty")


def nth(S, u, j):
    return app("nth", [S, u, j], "Var")


def lu(S, v):
    return app("lu", [S, v], "I")


def lj(S, v):
    return app("lj", [S, v], "I")


def tu(S, t):
    return app("tu", [S, t], "I")


def collected(B):
    """B is the set of the variables some loop collected."""
    return is_app(B, "keyset")


def bn(B):
    return app("setlen" if collected(B) else "bn", [B], "I")


def bvar(B, k):
    return app("setnth" if collected(B) else "bvar", [B, k], "Var")


def bidx(B, v):
    return app("setpos" if collected(B) else "bidx", [B, v], "I")


def mem(B, v):
    return app("mem", [B, v], "B")


# structure id -> its set of variables
BASE = {}


def structure(name, B):
    S = sym(name, "S")
    BASE[S.id] = B
    return S


INVERSES["nth"] = {1: lambda args, x: lu(args[0], x), 2: lambda args, x: lj(args[0], x)}
INVERSES["lty"] = {1: lambda args, x: tu(args[0], x)}
INVERSES["bvar"] = {1: lambda args, x: bidx(args[0], x)}


@ir.rule("nth")
def _r_nth(args):
    S, u, j = args
    if is_app(u, "lu") and is_app(j, "lj") and u.args[1][0] is S and j.args[1][0] is S and u.args[1][1] is j.args[1][1]:
        return u.args[1][1]
    # tu(S, tyof(v)) is lu(S, v)
    if is_app(u, "tu") and is_app(j, "lj") and u.args[1][0] is S and j.args[1][0] is S and u.args[1][1] is tyof(j.args[1][1]):
        return j.args[1][1]
    return None


@ir.rule("lu")
def _r_lu(args):
    S, v = args
    if is_app(v, "nth") and v.args[1][0] is S:
        return v.args[1][1]
    # one canonical name: the position of the variable's type
    return tu(S, tyof(v))


@ir.rule("lj")
def _r_lj(args):
    S, v = args
    return v.args[1][2] if is_app(v, "nth") and v.args[1][0] is S else None


@ir.rule("tu")
def _r_tu(args):
    S, t = args
    return t.args[1][1] if is_app(t, "lty") and t.args[1][0] is S else None


@ir.rule("lty")
def _r_lty(args):
    S, u = args
    return u.args[1][1] if is_app(u, "tu") and u.args[1][0] is S else None


@ir.rule("bidx")
def _r_bidx(args):
    B, v = args
    return v.args[1][1] if is_app(v, "bvar") and v.args[1][0] is B else None


@ir.rule("bvar")
def _r_bvar(args):
    B, k = args
    return k.args[1][1] if is_app(k, "bidx") and k.args[1][0] is B else None


@ir.rule("mem")
def _r_mem(args):
    B, v = args
    if (is_app(v, "bvar") or is_app(v, "setnth")) and v.args[1][0] is B:
        k = v.args[1][1]
        return and_(le(ZERO, k), lt(k, bn(B)))
    if is_app(v, "nth") and BASE.get(v.args[1][0].id) is B:
        S, u, j = v.args[1]
        return and_(le(ZERO, u), lt(u, lm(S)), le(ZERO, j), lt(j, cnt(S, u)))
    return None


@prove.axiom("mem")
def _ax_mem(args, t):
    """Everything collected is a member."""
    B, v = args
    if B.id not in models.SETS:
        return []
    idx, kt = models.SETS[B.id]
    m = ir.match(kt, v, {s for s, _ in idx})
    return [implies(models.in_range(idx, m), t)] if m is not None and all(s in m for s, _ in idx) else []


@prove.axiom("setpos")
def _ax_setpos(args, t):
    return _ax_bidx(args, t) if args[1].sort == "Var" else []


def _ax_in(args, t):
    """A member of the set has a place in every structure over it."""
    S, v = args
    B = BASE.get(S.id)
    if B is None:
        return []
    u, j = tu(S, tyof(v)), lj(S, v)
    return [implies(mem(B, v), and_(le(ZERO, u), lt(u, lm(S)), le(ZERO, j), lt(j, cnt(S, u))))]


prove.axiom("lj")(_ax_in)


@prove.axiom("tu")
def _ax_tu(args, t):
    """A type that has members has a place."""
    S, ty = args
    B = BASE.get(S.id)
    if B is None:
        return []
    if is_app(ty, "tyof"):
        return [implies(mem(B, ty.args[1][0]), and_(le(ZERO, t), lt(t, lm(S))))]
    if is_app(ty, "lty") and BASE.get(ty.args[1][0].id) is B:
        S2, u2 = ty.args[1]
        return [implies(and_(le(ZERO, u2), lt(u2, lm(S2))), and_(le(ZERO, t), lt(t, lm(S))))]
    return []


@prove.axiom("lm")
def _ax_lm(args, t):
    B = BASE.get(args[0].id)
    return [le(ZERO, t)] + ([implies(lt(ZERO, bn(B)), lt(ZERO, t))] if B is not None else [])


@prove.axiom("bn")
def _ax_bn(args, t):
    return [le(ZERO, t)]


@prove.axiom("cnt")
def _ax_cnt(args, t):
    return [le(ONE, t)]


@prove.axiom("bidx")
def _ax_bidx(args, t):
    B, v = args
    return [implies(mem(B, v), and_(le(ZERO, t), lt(t, bn(B))))]


def _structure_sum(binders, factors):
    """sum over types u of cnt(S, u) f(u)  =  sum over the variables of f(their type)
    sum over types u and places j of f  =  sum over the variables."""
    for u, nu in binders:
        if not is_app(nu, "lm"):
            continue
        S = nu.args[1][0]
        B = BASE.get(S.id)
        if B is None:
            continue
        c = cnt(S, u)
        k = fresh("k")
        v = bvar(B, k)
        m = {u: tu(S, tyof(v))}
        j = next((j for j, nj in binders if nj is c), None)
        if j is not None:
            m[j] = lj(S, v)
            fs = factors
        elif any(a is c and e == 1 for a, e in factors) and not any(ir.occurs(u, n) for b, n in binders if b is not u):
            fs = [(a, e) for a, e in factors if a is not c]
        else:
            continue
        nb = [(k, bn(B))] + [(b, ir.subst(n, m)) for b, n in binders if b is not u and b is not j]
        return mk_sum(nb, mul(*[ir.power(ir.subst(a, m), e) for a, e in fs], ONE))
    return None


ir.SUM_HOOKS.append(_structure_sum)


def _storage_axioms(reds):
    """Sums over the first types of a structure, against the sum over all its variables."""
    out, ids = [], {t.id for t in reds}
    for a in reds:
        if a.args[0] != "sum" or len(a.args[1]) != 1 or not prove.nonneg(a.args[3]):
            continue
        _, ((u, n),), body = ir.red_open(a)
        for S in {t.args[1][0] for t in ir.subterms(body) if is_app(t, "cnt") and t.args[1][1] is u}:
            if BASE.get(S.id) is None:
                continue
            full = mk_sum([(u, lm(S))], body)
            if full.id in ids:
                out.append(implies(and_(le(ZERO, n), lt(n, lm(S))), le(add(a, ir.subst(body, {u: n})), full)))
                out.append(implies(and_(le(ZERO, n), eq(add(n, ONE), lm(S))), eq(add(a, ir.subst(body, {u: n})), full)))
                out.append(implies(eq(n, lm(S)), eq(a, full)))
    return out


prove.SUM_AXIOMS.append(_storage_axioms)


def _injective(terms):
    """Types have different positions; variables of a type have different places."""
    out, tus, ljs = [], {}, {}
    for t in terms:
        if is_app(t, "tu"):
            tus.setdefault(t.args[1][0].id, []).append(t)
        elif is_app(t, "lj"):
            ljs.setdefault(t.args[1][0].id, []).append(t)
    for group in tus.values():
        for i, a in enumerate(group):
            for b in group[:i]:
                out.append(implies(eq(a, b), eq(a.args[1][1], b.args[1][1])))
    for group in ljs.values():
        for i, a in enumerate(group):
            for b in group[:i]:
                v, w = a.args[1][1], b.args[1][1]
                out.append(implies(and_(eq(a, b), eq(tyof(v), tyof(w))), eq(v, w)))
    return out


prove.TERM_AXIOMS.append(_injective)


# ------------------------------------------------------------------ layouts


class Abs:
    """The structure functions of a symbol S."""

    def __init__(self, S):
        self.S, self.m = S, lm(S)
        self.cnt = lambda u: cnt(S, u)
        self.ty = lambda u: lty(S, u)
        self.nth = lambda u, j: nth(S, u, j)


class Grouped:
    """The structure StorageLayout.make derives from a sequence of variables."""

    def __init__(self, n, fn):
        k = fresh("k")
        self.T = T = app("grouping", [n, lam(k, tyof(fn(k)))], "Key")
        self.m = app("gn", [T], "I")
        self.cnt = lambda u: app("gcnt", [T, u], "I")
        self.ty = lambda u: app("gkey0", [T, u], "Ty")
        self.nth = lambda u, j: fn(app("gmem", [T, u, j], "I"))


def start(st, local, u):
    """Storage position of the first variable of type u."""
    w = fresh("u")
    return mk_sum([(w, u)], mul(st.cnt(w), dim_of(st.ty(w), local)))


def place(st, local, u, j):
    return add(start(st, local, u), mul(j, dim_of(st.ty(u), local)))


def layout(st, local):
    from jaxfg.core import StorageLayout

    if isinstance(st, Term):
        st = Abs(st)

    def tagged(d, name):
        if isinstance(st, Abs):
            d.tag = app(name, [st.S, ir.const(int(local))], "Key")
        return d

    def by_type(f, name):
        return tagged(SDict([Comp(st.m, lambda u: [Item((VarType(st.ty(u)), f(u)))])], "frozendict"), name)

    return Obj(
        StorageLayout,
        dict(
            local_flag=local,
            dim=start(st, local, st.m),
            index_from_variable=tagged(SDict([Comp(st.m, lambda u: [Comp(st.cnt(u), lambda j: [Item((Var(st.nth(u, j)), place(st, local, u, j)))])])], "frozendict"), "varmap"),
            index_from_variable_type=by_type(lambda u: start(st, local, u), "typemap"),
            count_from_variable_type=by_type(st.cnt, "countmap"),
        ),
    )


def _mappings(terms):
    """Equal index mappings give every variable the same index."""
    terms = list(terms)
    maps = [t for t in terms if is_app(t, "varmap")]
    vs = {t.args[1][1] for t in terms if is_app(t, "lj") or is_app(t, "mem")}
    out = []
    for i, a in enumerate(maps):
        for b in maps[:i]:
            (S1, l1), (S2, l2) = a.args[1], b.args[1]
            B = BASE.get(S1.id)
            if l1 is not l2 or B is None or BASE.get(S2.id) is not B:
                continue
            for v in vs:
                local = bool(l1.args[0])
                out.append(implies(and_(eq(a, b), mem(B, v)), eq(index(S1, local, v), index(S2, local, v))))
    return out


prove.TERM_AXIOMS.append(_mappings)


def _same_set(eng, a, b):
    """Two enumerations of one set of variables."""
    sets = []
    for s in (a, b):
        S = recognise(s.seq.parts)
        if S is None:
            return None
        sets.append(BASE.get(S.id))
    return True if sets[0] is not None and sets[0] is sets[1] else None


SET_EQ_HOOKS.append(_same_set)


def base_seq(B, kind="list"):
    return Seq([Comp(bn(B), lambda k: [Item(Var(bvar(B, k)))])], kind)


def enumeration(S):
    return Seq([Comp(lm(S), lambda u: [Comp(cnt(S, u), lambda j: [Item(Var(nth(S, u, j)))])])], "keys")


def index(S, local, v):
    return place(Abs(S), local, lu(S, v), lj(S, v))


def block(arr, S, local, v):
    """The part of a storage vector that belongs to v."""
    return flat_arr(dim_of(tyof(v), local), lambda i: to_arr(arr).get(add(index(S, local, v), i)))


# ------------------------------------------------------------------ StorageLayout.make by contract (C01)

# set of variables -> the structure made from its own enumeration
GIVEN_ORDER = {}


def recognise(parts):
    """The structure (or set) whose enumeration these parts are."""
    if len(parts) != 1 or not isinstance(parts[0], Comp):
        return None
    p, k, j = parts[0], fresh("k"), fresh("j")
    inner = p.fn(k)
    if len(inner) != 1:
        return None
    if isinstance(inner[0], Item) and isinstance(inner[0].value, Var):
        v = inner[0].value.v
        if (is_app(v, "bvar") or is_app(v, "setnth")) and v.args[1][1] is k and bn(v.args[1][0]) is p.n:
            B = v.args[1][0]
            if collected(B) and B.id not in GIVEN_ORDER:
                GIVEN_ORDER[B.id] = structure(f"order{B.id}", B)
            return GIVEN_ORDER.get(B.id)
    elif isinstance(inner[0], Comp):
        q = inner[0].fn(j)
        if len(q) == 1 and isinstance(q[0], Item) and isinstance(q[0].value, Var):
            v = q[0].value.v
            if is_app(v, "nth") and v.args[1][1] is k and v.args[1][2] is j:
                S = v.args[1][0]
                if p.n is lm(S) and inner[0].n is cnt(S, k):
                    return S
    return None


def make_stub(eng, variables, local=False):
    from jaxfg.core import StorageLayout

    S = recognise(eng.iter_parts(variables))
    if S is None or not isinstance(local, bool):
        return eng.call_function(StorageLayout.make, [variables], dict(local=local))
    return layout(S, local)


def contracts():
    from jaxfg.core import StorageLayout

    return {StorageLayout.make: make_stub}


def assignments(S, local, storage):
    from jaxfg.core import VariableAssignments

    return Obj(VariableAssignments, dict(storage=storage, storage_layout=layout(S, local)))


def storage(name, S, local):
    return flat_arr(start(Abs(S), local, lm(S)), lambda i: app("at", [sym(name, "Vec"), i], "R"))


# ------------------------------------------------------------------ update_storage_layout by contract (C03)


def structure_of(lay):
    """(S, local) of a layout object."""
    tag = lay.fields["index_from_variable"].tag if isinstance(lay, Obj) else None
    if tag is None:
        raise Unsupported("layout that is not known to come from StorageLayout.make")
    return tag.args[1][0], bool(tag.args[1][1].args[0])


def relayout_stub(eng, self, storage_layout):
    from jaxfg.core import VariableAssignments

    old, new = self.fields["storage_layout"], storage_layout
    (S1, l1), (S2, l2) = structure_of(old), structure_of(new)
    if l1 != l2 or BASE.get(S1.id) is None or BASE.get(S1.id) is not BASE.get(S2.id):
        return eng.fail("update_storage_layout: layouts of the same variables", f"{S1}, {S2}")
    if S1 is S2:
        return self
    st = to_arr(self.fields["storage"])
    dom = vals.NComp(lm(S2), lambda u: vals.NComp(cnt(S2, u), lambda j: NLeaf(dim_of(lty(S2, u), l2))))
    arr = Arr([dom], lambda p: st.get(add(index(S1, l1, nth(S2, p[0], p[1])), p[2])))
    return Obj(VariableAssignments, dict(storage=arr, storage_layout=new))
