"""Terms of the verifier: hash-consed, with canonical polynomials and multi-binder sums.

A term is closed under bound variables: binders are opened with fresh symbols and closed again,
so alpha-equivalent terms are the same object.  Arithmetic is ideal (exact rationals, reals).

Sorts: 'I' integers, 'R' reals, 'B' truth values, any other string: uninterpreted.
"""
from __future__ import annotations

import itertools
import re
from fractions import Fraction
from typing import Callable, Dict, Iterable, List, Optional, Sequence, Tuple

_table: Dict[tuple, "Term"] = {}
_counter = itertools.count()
_fresh = itertools.count()


class Term:
    __slots__ = ("op", "args", "sort", "id", "fv", "maxb", "size")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    # arithmetic sugar for specifications
    def __add__(self, o):
        return add(self, lift(o))

    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, lift(o))

    def __rsub__(self, o):
        return sub(lift(o), self)

    def __mul__(self, o):
        return mul(self, lift(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, lift(o))

    def __rtruediv__(self, o):
        return div(lift(o), self)

    def __neg__(self):
        return neg(self)

    def __bool__(self):
        raise TypeError("truth value of a symbolic term: " + show(self))


def _mk(op, args, sort, fv, maxb, size=1) -> Term:
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort = op, args, sort
        t.id = next(_counter)
        t.fv, t.maxb, t.size = fv, maxb, size
        _table[key] = t
    return t


EMPTY = frozenset()


def _join(ts: Iterable[Term]):
    fv, mb, sz = EMPTY, 0, 1
    for t in ts:
        if t.fv:
            fv = fv | t.fv if fv else t.fv
        if t.maxb > mb:
            mb = t.maxb
        sz += t.size
    return fv, mb, sz


# ------------------------------------------------------------------ leaves


def const(v) -> Term:
    if isinstance(v, bool):
        return _mk("const", (v,), "B", EMPTY, 0)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return _mk("app", ("float", (repr(v),)), "R", EMPTY, 0)
        v = Fraction(repr(v))
    v = Fraction(v)
    return _mk("const", (v,), "I" if v.denominator == 1 else "R", EMPTY, 0)


TRUE, FALSE = const(True), const(False)
ZERO, ONE = const(0), const(1)


def lift(v) -> Term:
    if isinstance(v, Term):
        return v
    if hasattr(v, "item") and getattr(v, "shape", None) == ():
        v = v.item()
    return const(v)


def sym(name: str, sort: str = "I") -> Term:
    return _mk("sym", (name,), sort, frozenset(((name, sort),)), 0)


def fresh(prefix: str = "x", sort: str = "I") -> Term:
    return sym(f"{prefix}~{next(_fresh)}", sort)


def bvar(k: int) -> Term:
    return _mk("bvar", (k,), "I", EMPTY, 0)


def is_const(t: Term) -> bool:
    return t.op == "const"


def cval(t: Term):
    return t.args[0]


def occurs(s: Term, t: Term) -> bool:
    return (s.args[0], s.sort) in t.fv


# ------------------------------------------------------------------ applications

APP_RULES: Dict[str, List[Callable]] = {}


def app(fname: str, args: Sequence[Term] = (), sort: str = "R") -> Term:
    args = tuple(lift(a) for a in args)
    for rule in APP_RULES.get(fname, ()):
        r = rule(args)
        if r is not None:
            return r
    fv, mb, sz = _join(args)
    return _mk("app", (fname, args), sort, fv, mb, sz)


def rule(fname):
    def deco(f):
        APP_RULES.setdefault(fname, []).append(f)
        return f

    return deco


def is_app(t: Term, fname: str) -> bool:
    return t.op == "app" and t.args[0] == fname


def inverse_pair(f: str, gs: Sequence[str]):
    """g_i(f(x_1..x_n)) = x_i."""
    for i, g in enumerate(gs):

        def r(args, i=i):
            (a,) = args
            if is_app(a, f):
                return a.args[1][i]
            if a.op == "ite":
                c, x, y = a.args
                if is_app(x, f) and is_app(y, f):
                    return ite(c, x.args[1][i], y.args[1][i])
            return None

        APP_RULES.setdefault(g, []).append(r)


# ------------------------------------------------------------------ polynomials
# poly: args = tuple(sorted((monomial, coeff))), monomial = tuple(sorted((atom, exp)))


def _poly_items(t: Term):
    """dict monomial -> coeff"""
    if t.op == "const":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args)
    return {((t, 1),): Fraction(1)}


def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


def _from_items(d) -> Term:
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        ((m, c),) = d.items()
        if not m:
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: _mono_key(mc[0])))
    atoms = [a for m, _ in items for a, _ in m]
    fv, mb, sz = _join(atoms)
    sort = "I" if all(a.sort == "I" for a in atoms) and all(c.denominator == 1 for _, c in items) else "R"
    return _mk("poly", items, sort, fv, mb, sz + len(items))


def _mono_mul(m1, m2):
    """Product of two monomials; indicators are idempotent."""
    d: Dict[Term, int] = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == "ind":
            e = 1
        out.append((a, e))
    inds = [a for a, _ in out if a.op == "ind"]
    if len(inds) > 1:
        cs = {a.args[0].id for a in inds}
        if any(not_(a.args[0]).id in cs for a in inds):
            return None
    return tuple(sorted(out, key=lambda ae: ae[0].id))


def add(*ts) -> Term:
    d: Dict[tuple, Fraction] = {}
    for t in ts:
        for m, c in _poly_items(t).items():
            d[m] = d.get(m, 0) + c
    return _from_items(d)


def neg(t: Term) -> Term:
    return _from_items({m: -c for m, c in _poly_items(t).items()})


def sub(a: Term, b: Term) -> Term:
    return add(a, neg(b))


def scale(t: Term, c) -> Term:
    return _from_items({m: k * Fraction(c) for m, k in _poly_items(t).items()})


def mul(*ts) -> Term:
    acc = {(): Fraction(1)}
    for t in ts:
        items = _poly_items(t)
        nxt: Dict[tuple, Fraction] = {}
        for m1, c1 in acc.items():
            for m2, c2 in items.items():
                m = _mono_mul(m1, m2)
                if m is not None:
                    nxt[m] = nxt.get(m, 0) + c1 * c2
        acc = nxt
        if not acc:
            return ZERO
    return _from_items(acc)


def power(t: Term, n: int) -> Term:
    if n == 0:
        return ONE
    if n < 0:
        return inv(power(t, -n))
    if t.op not in ("poly", "const"):
        if t.op == "ind":
            return t
        return _from_items({((t, n),): Fraction(1)})
    r = ONE
    for _ in range(n):
        r = mul(r, t)
    return r


def inv(t: Term) -> Term:
    """Reciprocal; total, with an unspecified value at zero."""
    if t.op == "const":
        if t.args[0] == 0:
            return app("inv0", (), "R")
        return const(Fraction(1) / t.args[0])
    if t.op == "poly" and len(t.args) == 1:
        ((m, c),) = t.args
        out = const(Fraction(1) / c)
        for a, e in m:
            out = mul(out, power(inv(a), e))
        return out
    if is_app(t, "inv"):
        # inv(inv(x)) = x only for x != 0; keep
        pass
    if t.op == "poly":
        # make the leading coefficient one, so that inv(-x) and inv(x) share an atom
        lead = t.args[0][1]
        if lead != 1:
            return scale(inv(scale(t, Fraction(1) / lead)), Fraction(1) / lead)
    return app("inv", (t,), "R")


def div(a: Term, b: Term) -> Term:
    return mul(a, inv(b))


def poly_terms(t: Term):
    return list(_poly_items(t).items())


# ------------------------------------------------------------------ booleans, comparisons


def _lead_norm(p: Term, sign: bool):
    """Divide by the (absolute) leading coefficient."""
    items = poly_terms(p)
    items.sort(key=lambda mc: _mono_key(mc[0]), reverse=True)
    c = items[0][1]
    if not sign:
        c = abs(c)
    if p.sort == "I":
        # keep integer coefficients: divide by the gcd
        from math import gcd

        g = 0
        for _, k in items:
            g = gcd(g, int(k))
        return scale(p, Fraction(1, g) * (-1 if sign and c < 0 else 1))
    return scale(p, Fraction(1) / c)


def le(a, b) -> Term:
    p = sub(lift(a), lift(b))
    if is_const(p):
        return const(cval(p) <= 0)
    if p.sort == "I":
        # integers: p <= 0 with gcd tightening
        items = dict(poly_terms(p))
        c0 = items.pop((), Fraction(0))
        from math import gcd, floor

        g = 0
        for k in items.values():
            g = gcd(g, int(k))
        if g > 1:
            # g*q + c0 <= 0  <=>  q <= floor(-c0/g)
            q = _from_items({m: k / g for m, k in items.items()})
            p = add(q, const(-floor(Fraction(-c0) / g)))
    else:
        p = _lead_norm(p, False)
    return _mk("le0", (p,), "B", p.fv, p.maxb, p.size + 1)


def lt(a, b) -> Term:
    p = sub(lift(a), lift(b))
    if is_const(p):
        return const(cval(p) < 0)
    if p.sort == "I":
        return le(add(p, ONE), ZERO)
    p = _lead_norm(p, False)
    return _mk("lt0", (p,), "B", p.fv, p.maxb, p.size + 1)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


ARITH = ("I", "R")


def eq(a, b) -> Term:
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE
    if a.sort in ARITH and b.sort in ARITH:
        p = sub(a, b)
        if is_const(p):
            return const(cval(p) == 0)
        p = _lead_norm(p, True)
        return _mk("eq0", (p,), "B", p.fv, p.maxb, p.size + 1)
    if a.sort == "B" and b.sort == "B":
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if is_const(a) and is_const(b):
        return const(cval(a) == cval(b))
    if a.id > b.id:
        a, b = b, a
    fv, mb, sz = _join((a, b))
    return _mk("eqo", (a, b), "B", fv, mb, sz)


def ne(a, b):
    return not_(eq(a, b))


def not_(t: Term) -> Term:
    if t.op == "const":
        return const(not t.args[0])
    if t.op == "not":
        return t.args[0]
    if t.op == "le0":
        return lt(ZERO, t.args[0])
    if t.op == "lt0":
        return le(ZERO, t.args[0])
    if t.op == "and":
        return or_(*[not_(a) for a in t.args])
    if t.op == "or":
        return and_(*[not_(a) for a in t.args])
    return _mk("not", (t,), "B", t.fv, t.maxb, t.size + 1)


def _nary(op, unit, ts):
    out = {}
    for t in ts:
        t = lift(t)
        if t.op == "const":
            if t is unit:
                continue
            return not_(unit)
        for a in t.args if t.op == op else (t,):
            out[a.id] = a
    for a in out.values():
        n = not_(a)
        if n.id in out:
            return not_(unit)
    if not out:
        return unit
    if len(out) == 1:
        return next(iter(out.values()))
    args = tuple(sorted(out.values(), key=lambda a: a.id))
    fv, mb, sz = _join(args)
    return _mk(op, args, "B", fv, mb, sz)


def and_(*ts):
    return _nary("and", TRUE, ts)


def or_(*ts):
    return _nary("or", FALSE, ts)


def implies(a, b):
    return or_(not_(a), b)


def ite(c: Term, a: Term, b: Term) -> Term:
    c, a, b = lift(c), lift(a), lift(b)
    if c.op == "const":
        return a if c.args[0] else b
    if a is b:
        return a
    if a.sort == "B" and b.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    n = not_(c)
    if n.id < c.id:
        c, a, b = n, b, a
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    sort = a.sort if a.sort == b.sort else "R"
    fv, mb, sz = _join((c, a, b))
    return _mk("ite", (c, a, b), sort, fv, mb, sz)


def ind(c: Term) -> Term:
    """1 if c else 0, in the algebra used inside sums."""
    if c.op == "const":
        return ONE if c.args[0] else ZERO
    if c.op == "and":
        return mul(*[ind(a) for a in c.args])
    if c.op == "not" or c.op == "or":
        return sub(ONE, ind(not_(c)))
    return _mk("ind", (c,), "I", c.fv, c.maxb, c.size + 1)


def max_(a, b):
    return ite(le(b, a), a, b)


def min_(a, b):
    return ite(le(a, b), a, b)


def abs_(a):
    if is_const(a):
        return const(abs(cval(a)))
    return app("abs", (a,), "R" if a.sort == "R" else a.sort)


@rule("log")
def _log_rule(args):
    (a,) = args
    if a.op == "ite":
        c, x, y = a.args
        return ite(c, app("log", (x,)), app("log", (y,)))
    return None


@rule("abs")
def _abs_rule(args):
    (a,) = args
    if a.op == "ite":
        c, x, y = a.args
        return ite(c, abs_(x), abs_(y))
    if is_const(a):
        return const(abs(cval(a)))
    # |-x| = |x|
    items = poly_terms(a)
    items.sort(key=lambda mc: _mono_key(mc[0]), reverse=True)
    if items and items[0][1] < 0:
        return app("abs", (neg(a),), "R")
    if is_app(a, "abs") or is_app(a, "sqrt"):
        return a
    if len(items) == 1 and items[0][1] != 1:
        ((m, c),) = items
        return scale(app("abs", (_from_items({m: Fraction(1)}),), "R"), abs(c))
    return None


def sqrt(a):
    return app("sqrt", (lift(a),), "R")


@rule("sqrt")
def _sqrt_rule(args):
    (a,) = args
    if is_const(a):
        c = cval(a)
        from math import isqrt

        if c >= 0:
            n, d = isqrt(c.numerator), isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return const(Fraction(n, d))
    return None


# ------------------------------------------------------------------ binders


def lam(x: Term, body: Term) -> Term:
    """Function of an integer."""
    k = body.maxb + 1
    b = _replace(body, x, bvar(k))
    return _mk("lam", (k, b), "L" + b.sort, b.fv - {(x.args[0], x.sort)}, k, b.size + 1)


def lam_open(t: Term, x: Optional[Term] = None):
    assert t.op == "lam"
    x = fresh("b") if x is None else x
    k, b = t.args
    return x, _unbind(b, {k: x})


def lam_apply(t: Term, a: Term) -> Term:
    if t.op == "lam":
        x, b = lam_open(t)
        return subst(b, {x: a})
    if t.op == "ite":
        return ite(t.args[0], lam_apply(t.args[1], a), lam_apply(t.args[2], a))
    return app("sel", (t, a), t.sort[1:] if t.sort.startswith("L") else "R")


def _replace(t: Term, x: Term, y: Term) -> Term:
    """Raw replacement of a free symbol by a bound variable (no capture possible: the number is
    larger than every binder inside)."""
    key = (x.args[0], x.sort)

    memo = {}

    def go(t):
        if key not in t.fv:
            return t
        r = memo.get(t.id)
        if r is None:
            r = memo[t.id] = _raw_map(t, go) if t is not x else y
        return r

    return go(t)


def _unbind(t: Term, m: Dict[int, Term]) -> Term:
    memo = {}

    def go(t):
        if t.op == "bvar":
            return m.get(t.args[0], t)
        if not _has_bvar(t):
            return t
        r = memo.get(t.id)
        if r is None:
            r = memo[t.id] = _raw_map(t, go)
        return r

    return go(t)


_hb: Dict[int, frozenset] = {}


def _bvars(t: Term) -> frozenset:
    """Unbound bvars of t."""
    r = _hb.get(t.id)
    if r is not None:
        return r
    if t.op == "bvar":
        r = frozenset((t.args[0],))
    elif t.op == "lam":
        r = _bvars(t.args[1]) - {t.args[0]}
    elif t.op == "red":
        kind, ks, ns, b = t.args
        r = _bvars(b)
        for n in ns:
            r = r | _bvars(n)
        r = r - frozenset(ks)
    else:
        r = EMPTY
        for c in children(t):
            x = _bvars(c)
            if x:
                r = r | x
    _hb[t.id] = r
    return r


def _has_bvar(t: Term) -> bool:
    return bool(_bvars(t))


def children(t: Term):
    if t.op in ("const", "sym", "bvar"):
        return ()
    if t.op == "app":
        return t.args[1]
    if t.op == "poly":
        return tuple(a for m, _ in t.args for a, _ in m)
    if t.op == "lam":
        return (t.args[1],)
    if t.op == "red":
        return t.args[2] + (t.args[3],)
    return t.args


def _raw_map(t: Term, f) -> Term:
    """Rebuild with mapped children; binders kept as they are (used only for bound variable
    bookkeeping, where the structure of sums does not change)."""
    if t.op in ("const", "sym", "bvar"):
        return t
    if t.op == "app":
        args = tuple(f(a) for a in t.args[1])
        fv, mb, sz = _join(args)
        if any(_has_bvar(a) for a in args):
            # do not run rules on open terms
            return _mk("app", (t.args[0], args), t.sort, fv, mb, sz)
        return app(t.args[0], args, t.sort)
    if t.op == "poly":
        out = None
        d: Dict[tuple, Fraction] = {}
        for m, c in t.args:
            acc = {(): c}
            for a, e in m:
                b = f(a)
                items = _poly_items(power(b, e) if e >= 0 else b)
                nxt = {}
                for m1, c1 in acc.items():
                    for m2, c2 in items.items():
                        mm = _mono_mul(m1, m2)
                        if mm is None:
                            continue
                        nxt[mm] = nxt.get(mm, 0) + c1 * c2
                acc = nxt
            for mm, cc in acc.items():
                d[mm] = d.get(mm, 0) + cc
        return _from_items(d)
    if t.op == "lam":
        k, b = t.args
        b = f(b)
        return _mk("lam", (k, b), "L" + b.sort, b.fv, k, b.size + 1)
    if t.op == "red":
        kind, ks, ns, b = t.args
        ns = tuple(f(n) for n in ns)
        b = f(b)
        fv, mb, sz = _join(ns + (b,))
        return _mk("red", (kind, ks, ns, b), t.sort, fv, max(ks), sz)
    if t.op == "le0":
        return le(f(t.args[0]), ZERO)
    if t.op == "lt0":
        return lt(f(t.args[0]), ZERO)
    if t.op == "eq0":
        return eq(f(t.args[0]), ZERO)
    if t.op == "eqo":
        return eq(f(t.args[0]), f(t.args[1]))
    if t.op == "not":
        return not_(f(t.args[0]))
    if t.op == "and":
        return and_(*[f(a) for a in t.args])
    if t.op == "or":
        return or_(*[f(a) for a in t.args])
    if t.op == "ite":
        return ite(*[f(a) for a in t.args])
    if t.op == "ind":
        return ind(f(t.args[0]))
    raise AssertionError(t.op)


def _bind(kind, binders, body) -> Term:
    """Raw reduction node with canonical binder numbering and order."""
    names = {(x.args[0], x.sort) for x, _ in binders}
    best = None
    perms = itertools.permutations(binders) if len(binders) <= 5 else [tuple(binders)]
    for perm in perms:
        # a range may only mention earlier binders
        seen = set()
        ok = True
        for x, n in perm:
            if (n.fv & names) - seen:
                ok = False
                break
            seen.add((x.args[0], x.sort))
        if not ok:
            continue
        base = max([body.maxb] + [n.maxb for _, n in perm])
        ks, ns, b = [], [], body
        cur = list(perm)
        for i, (x, _) in enumerate(perm):
            k = base + 1 + i
            ks.append(k)
            b = _replace(b, x, bvar(k))
            cur = [(y, _replace(n, x, bvar(k))) for y, n in cur]
        ns = tuple(n for _, n in cur)
        fv, mb, sz = _join(ns + (b,))
        sort = "B" if kind in ("any", "all") else ("I" if kind == "sum" and body.sort == "I" else "R")
        if kind in ("max", "min"):
            sort = body.sort
        t = _mk("red", (kind, tuple(ks), ns, b), sort, fv, max(ks), sz)
        key = (len(binders), t.id)
        # compare by a structural key that does not depend on creation order of this node
        key = (_okey(b), tuple(_okey(n) for n in ns))
        if best is None or key < best[0]:
            best = (key, t)
    assert best is not None, "circular ranges"
    return best[1]


_ok: Dict[int, str] = {}


def _okey(t: Term) -> str:
    """Structural ordering key."""
    r = _ok.get(t.id)
    if r is None:
        if t.op in ("const", "sym", "bvar"):
            r = f"{t.op[0]}{t.args[0]}"
        elif t.op == "app":
            r = f"{t.args[0]}({','.join(_okey(a) for a in t.args[1])})"
        elif t.op == "poly":
            r = "+".join(sorted(f"{c}" + "*".join(sorted(f"{_okey(a)}^{e}" for a, e in m)) for m, c in t.args))
        elif t.op == "red":
            kind, ks, ns, b = t.args
            r = f"{kind}{ks}[{','.join(map(_okey, ns))}]({_okey(b)})"
        elif t.op in ("and", "or"):
            r = t.op + "(" + ",".join(sorted(_okey(a) for a in t.args)) + ")"
        elif t.op == "eqo":
            r = "eqo(" + ",".join(sorted(_okey(a) for a in t.args)) + ")"
        elif t.op == "lam":
            r = f"lam{t.args[0]}({_okey(t.args[1])})"
        else:
            r = t.op + "(" + ",".join(_okey(a) for a in t.args) + ")"
        _ok[t.id] = r
    return r


def red_open(t: Term):
    """-> kind, [(sym, range)], body"""
    kind, ks, ns, b = t.args
    m, out = {}, []
    for k, n in zip(ks, ns):
        x = fresh("s")
        out.append((x, _unbind(n, m)))
        m[k] = x
    return kind, out, _unbind(b, m)


class RangeOracle:
    """Decides side conditions of sum rewriting; replaced by the prover."""

    def holds(self, t: Term) -> bool:
        return t is TRUE


ORACLE = RangeOracle()


def mk_sum(binders: Sequence[Tuple[Term, Term]], body: Term) -> Term:
    """sum over x_1<n_1, .. of body, in normal form (ranges start at zero)."""
    if body is ZERO:
        return ZERO
    binders = list(binders)
    # small constant ranges are expanded
    for i, (x, n) in enumerate(binders):
        if is_const(n):
            if cval(n) <= 0:
                return ZERO
            if cval(n) <= 6:
                rest = binders[:i] + binders[i + 1 :]
                return add(
                    *[
                        mk_sum([(y, subst(m, {x: const(v)})) for y, m in rest], subst(body, {x: const(v)}))
                        if rest
                        else subst(body, {x: const(v)})
                        for v in range(int(cval(n)))
                    ]
                )
    out = []
    for m, c in poly_terms(body):
        out.append(scale(_sum_mono(binders, list(m)), c))
    return add(*out)


def _sum_mono(binders, factors) -> Term:
    names = {(x.args[0], x.sort) for x, _ in binders}
    # the range of a binder holds
    if any(a.op == "ind" and a.args[0].op != "eq0" for a, _ in factors):
        known = {c for x, n in binders for c in (ind(le(ZERO, x)), ind(lt(x, n)))}
        factors = [(a, e) for a, e in factors if a not in known]
    # expand factors that are not in product form
    for i, (a, e) in enumerate(factors):
        if not (a.fv & names):
            continue
        if a.op == "red" and a.args[0] == "sum":
            rest = factors[:i] + factors[i + 1 :] + ([(a, e - 1)] if e > 1 else [])
            _, bs, b = red_open(a)
            return mk_sum(list(binders) + bs, mul(_prod(rest), b))
        if a.op == "ite":
            rest = factors[:i] + factors[i + 1 :]
            c, x, y = a.args
            p = _prod(rest)
            return add(
                mk_sum(binders, mul(p, ind(c), power(x, e))),
                mk_sum(binders, mul(p, ind(not_(c)), power(y, e))),
            )
    # sifting
    for i, (a, e) in enumerate(factors):
        if a.op == "ind" and a.args[0].op == "eq0" and (a.fv & names):
            p = a.args[0].args[0]
            for j, (x, n) in enumerate(binders):
                if not occurs(x, p) or any(occurs(x, m) for _, m in binders):
                    continue
                items = dict(poly_terms(p))
                c = items.get(((x, 1),))
                if c is None or abs(c) != 1:
                    continue
                rest = _from_items({m: k for m, k in items.items() if m != ((x, 1),)})
                if occurs(x, rest):
                    continue
                t = scale(rest, -1 / c)
                if t.sort != "I":
                    continue
                # the range of x may mention other binders; t may as well
                if n.fv & {(y.args[0], y.sort) for y, m in binders if occurs(x, m)}:
                    continue
                others = binders[:j] + binders[j + 1 :]
                fs = factors[:i] + factors[i + 1 :]
                body = subst(_prod(fs), {x: t})
                side = range_side(t, n, others)
                body = mul(body, side)
                if not others:
                    return body
                return mk_sum(others, body)
    # split off what does not depend on the binders, and independent components
    outside = [f for f in factors if not (f[0].fv & names)]
    inside = [f for f in factors if f[0].fv & names]
    if not inside:
        r = ONE
        todo = list(binders)
        # sum of 1 over dependent ranges: innermost first
        while todo:
            for i, (x, n) in enumerate(todo):
                if not any(occurs(x, m) for y, m in todo):
                    rest = todo[:i] + todo[i + 1 :]
                    if n.fv & {(y.args[0], y.sort) for y, _ in rest}:
                        return mul(_prod(outside), r, mk_sum(rest, n))
                    r = mul(r, n)
                    todo = rest
                    break
            else:
                raise AssertionError("circular ranges")
        return mul(_prod(outside), r)
    # union-find over binders
    idx = {(x.args[0], x.sort): i for i, (x, _) in enumerate(binders)}
    parent = list(range(len(binders)))

    def find(i):
        while parent[i] != i:
            i = parent[i]
        return i

    def join(vs):
        vs = [idx[v] for v in vs]
        for v in vs[1:]:
            parent[find(v)] = find(vs[0])

    for a, _ in inside:
        join(list(a.fv & names))
    for x, n in binders:
        join([(x.args[0], x.sort)] + list(n.fv & names))
    groups: Dict[int, list] = {}
    for i, b in enumerate(binders):
        groups.setdefault(find(i), []).append(b)
    if len(groups) > 1:
        acc = _prod(outside)
        for g in groups.values():
            ns = {(x.args[0], x.sort) for x, _ in g}
            acc = mul(acc, _sum_mono(g, [f for f in inside if f[0].fv & ns]))
        return acc
    # a trailing binder on which only ranges depend cannot occur here; unfold range k+c
    for i, (x, n) in enumerate(binders):
        if len(binders) == 1 and n.op == "poly":
            d = dict(n.args)
            c = d.get((), Fraction(0))
            if c >= 1 and c.denominator == 1:
                m = sub(n, const(c))
                body = _prod(inside)
                acc = _sum_mono(binders=[(x, m)], factors=inside)
                for v in range(int(c)):
                    acc = add(acc, subst(body, {x: add(m, const(v))}))
                return mul(_prod(outside), acc)
    for hook in SUM_HOOKS:
        r = hook(binders, inside)
        if r is not None:
            return mul(_prod(outside), r)
    return mul(_prod(outside), _bind("sum", binders, _prod(inside)))


# rewriting of sums registered by object models (re-indexing by a bijection)
SUM_HOOKS: List[Callable] = []
RED_HOOKS: List[Callable] = []  # the same for other reductions: hook(kind, binders, body)


def range_side(t, n, binders=()):
    lo, hi = le(ZERO, t), lt(t, n)
    hyp = [and_(le(ZERO, y), lt(y, m)) for y, m in binders]
    out = ONE
    for c in (lo, hi):
        if not ORACLE.holds(implies(and_(*hyp), c) if hyp else c):
            out = mul(out, ind(c))
    return out


def _prod(factors) -> Term:
    acc = {(): Fraction(1)}
    simple = True
    for a, e in factors:
        if a.op in ("poly", "const"):
            simple = False
    if simple:
        return mul(*[power(a, e) for a, e in factors]) if factors else ONE
    return mul(*[power(a, e) for a, e in factors])


def mk_red(kind, binders, body) -> Term:
    if kind == "sum":
        return mk_sum(binders, body)
    binders = list(binders)
    for i, (x, n) in enumerate(binders):
        if is_const(n) and 0 < cval(n) <= 6:
            rest = binders[:i] + binders[i + 1 :]
            vals = []
            for v in range(int(cval(n))):
                b = subst(body, {x: const(v)})
                vals.append(mk_red(kind, [(y, subst(m, {x: const(v)})) for y, m in rest], b) if rest else b)
            r = vals[0]
            for v in vals[1:]:
                r = {"max": max_, "min": min_, "prod": mul, "any": or_, "all": and_}[kind](r, v)
            return r
    if kind in ("max", "min") and not (body.fv & {(x.args[0], x.sort) for x, _ in binders}):
        return body
    for hook in RED_HOOKS:
        r = hook(kind, binders, body)
        if r is not None:
            return r
    return _bind(kind, binders, body)


# ------------------------------------------------------------------ substitution


def subst(t: Term, m: Dict[Term, Term]) -> Term:
    """Capture-free substitution of free symbols, renormalising."""
    keys = {(x.args[0], x.sort): v for x, v in m.items()}
    if not keys:
        return t
    ks = frozenset(keys)
    memo = {}

    def go(t):
        if not (t.fv & ks):
            return t
        r = memo.get(t.id)
        if r is None:
            if t.op == "sym":
                r = keys[(t.args[0], t.sort)]
            else:
                r = rebuild(t, go)
            memo[t.id] = r
        return r

    return go(t)


def rebuild(t: Term, f) -> Term:
    """Apply f to the children and rebuild through the smart constructors."""
    if t.op == "lam":
        x, b = lam_open(t)
        return lam(x, f(b))
    if t.op == "red":
        kind, bs, b = red_open(t)
        return mk_red(kind, [(x, f(n)) for x, n in bs], f(b))
    if t.op == "app":
        return app(t.args[0], [f(a) for a in t.args[1]], t.sort)
    if t.op == "poly":
        return add(*[scale(mul(*[power(f(a), e) for a, e in m]), c) for m, c in t.args])
    return _raw_map(t, f)


def transform(t: Term, f) -> Term:
    """Bottom-up rewriting: f maps a rebuilt node to a term or None."""
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is None:
            r = t if t.op in ("const", "sym", "bvar") else rebuild(t, go)
            s = f(r)
            if s is not None and s is not r:
                r = s
            memo[t.id] = r
        return r

    return go(t)


def subterms(t: Term):
    seen, out, stack = set(), [], [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        stack.extend(children(x))
    return out


# ------------------------------------------------------------------ matching


def match(pattern: Term, t: Term, holes: set, env: Optional[dict] = None) -> Optional[dict]:
    """First-order matching; holes: set of symbols of the pattern. Bound variables do not match
    holes' contents that mention outer binders."""
    env = {} if env is None else env
    if pattern.op == "sym" and pattern in holes:
        if pattern in env:
            return env if env[pattern] is t else None
        if _has_bvar(t):
            return None
        env[pattern] = t
        return env
    if pattern is t:
        return env
    if not any(occurs(h, pattern) for h in holes):
        return None
    if pattern.op != t.op:
        return None
    if pattern.op == "app":
        if pattern.args[0] != t.args[0] or len(pattern.args[1]) != len(t.args[1]):
            return None
        for p, q in zip(pattern.args[1], t.args[1]):
            if match(p, q, holes, env) is None:
                return None
        return env
    if pattern.op == "lam":
        if pattern.args[0] != t.args[0]:
            return None
        return match(pattern.args[1], t.args[1], holes, env)
    if pattern.op == "red":
        if pattern.args[:2] != t.args[:2]:
            return None
        for p, q in zip(pattern.args[2] + (pattern.args[3],), t.args[2] + (t.args[3],)):
            if match(p, q, holes, env) is None:
                return None
        return env
    if pattern.op == "poly":
        if len(pattern.args) != len(t.args):
            return None
        # same coefficients, monomials in some order
        used = set()

        def go(i):
            if i == len(pattern.args):
                return True
            m, c = pattern.args[i]
            for j, (m2, c2) in enumerate(t.args):
                if j in used or c != c2 or len(m) != len(m2):
                    continue
                snap = dict(env)
                if _match_mono(m, m2, holes, env):
                    used.add(j)
                    if go(i + 1):
                        return True
                    used.discard(j)
                env.clear()
                env.update(snap)
            return False

        return env if go(0) else None
    if pattern.op in ("and", "or", "eqo"):
        if len(pattern.args) != len(t.args):
            return None
        for perm in itertools.permutations(t.args):
            snap = dict(env)
            if all(match(p, q, holes, env) is not None for p, q in zip(pattern.args, perm)):
                return env
            env.clear()
            env.update(snap)
        return None
    if pattern.op in ("const", "sym", "bvar"):
        return None
    for p, q in zip(pattern.args, t.args):
        if match(p, q, holes, env) is None:
            return None
    return env


def _match_mono(m, m2, holes, env):
    for perm in itertools.permutations(m2):
        snap = dict(env)
        if all(e == e2 and match(a, a2, holes, env) is not None for (a, e), (a2, e2) in zip(m, perm)):
            return True
        env.clear()
        env.update(snap)
    return False


# ------------------------------------------------------------------ printing


def show(t: Term, depth=0) -> str:
    if depth > 14:
        return ".."
    s = lambda x: show(x, depth + 1)
    if t.op == "const":
        return str(t.args[0])
    if t.op == "sym":
        return t.args[0]
    if t.op == "bvar":
        return f"#{t.args[0]}"
    if t.op == "app":
        return f"{t.args[0]}({', '.join(s(a) for a in t.args[1])})" if t.args[1] and not isinstance(t.args[1][0], str) else f"{t.args[0]}{t.args[1] if t.args[1] else ''}"
    if t.op == "poly":
        parts = []
        for m, c in t.args:
            fs = [s(a) + (f"^{e}" if e != 1 else "") for a, e in m]
            if c != 1 or not fs:
                fs = [str(c)] + fs
            parts.append("*".join(fs))
        return "(" + " + ".join(parts) + ")"
    if t.op == "le0":
        return f"{s(t.args[0])} <= 0"
    if t.op == "lt0":
        return f"{s(t.args[0])} < 0"
    if t.op == "eq0":
        return f"{s(t.args[0])} = 0"
    if t.op == "eqo":
        return f"{s(t.args[0])} = {s(t.args[1])}"
    if t.op == "not":
        return f"!({s(t.args[0])})"
    if t.op in ("and", "or"):
        return "(" + (" & " if t.op == "and" else " | ").join(s(a) for a in t.args) + ")"
    if t.op == "ite":
        return f"if({s(t.args[0])}, {s(t.args[1])}, {s(t.args[2])})"
    if t.op == "ind":
        return f"[{s(t.args[0])}]"
    if t.op == "lam":
        return f"(\\#{t.args[0]}. {s(t.args[1])})"
    if t.op == "red":
        kind, ks, ns, b = t.args
        return f"{kind}({', '.join(f'#{k}<{s(n)}' for k, n in zip(ks, ns))}: {s(b)})"
    return t.op
