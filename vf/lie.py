"""Matrix Lie groups: elements are words in the free group on the given elements and exponentials.

Used of jaxlie (trusted): associativity, inverses and identity; log(exp(x)) = x near zero;
g exp(x) g^-1 = exp(Ad_g x); Ad is a homomorphism with Ad_e = I; rplus(g, x) = g exp(x);
rminus(a, b) = log(a^-1 b).
"""
import ast

import jaxlie

from . import ir, models
from .ir import ONE, ZERO, Term, app, const, eq, fresh, ind, is_app, lam, mk_sum, mul, sym
from .models import model, to_arr
from .vals import Abstract, Arr, Fn, NLeaf, Unsupported, engine, flat_arr

DIM, PARAMS = sym("tangent_dim"), sym("parameters_dim")


def reduce(word):
    out = []
    for letter, s in word:
        if out and out[-1] == (letter, -s):
            out.pop()
        else:
            out.append((letter, s))
    return tuple(out)


def inverse(word):
    return tuple((l, -s) for l, s in reversed(word))


def rename(word, m):
    """Replace letters by words."""
    out = []
    for l, s in word:
        w = m.get(l, ((l, 1),))
        out.extend(w if s > 0 else inverse(w))
    return reduce(out)


def word_term(word):
    return app("word", [app("g" if s > 0 else "ginv", [l], "G") for l, s in word], "Word") if word else app("word", [sym("identity", "G")], "Word")


class Group(Abstract):
    """The class of the group."""

    def getattr(self, name):
        if name == "tangent_dim":
            return DIM
        if name == "parameters_dim":
            return PARAMS
        if name == "identity":
            return Fn(lambda: Element(()), name)
        if name == "exp":
            return Fn(exp, name)
        if name in ("inverse", "log", "adjoint", "multiply"):
            return Fn(lambda x, *a: engine().call(x.getattr(name), list(a), {}), name)
        if name in ("__name__", "__qualname__"):
            return "MatrixLieGroup"
        raise Unsupported(f"group attribute {name}")

    def eq(self, eng, other):
        return self is other


GROUP = Group()


def exp(x):
    x = to_arr(x)
    if x.ndim != 1:
        engine().fail("tangent is a vector", f"rank {x.ndim}")
    engine().require(eq(x.doms[0].size(), DIM), "tangent has the dimension of the group")
    return Element(((app("exp", [x.lam()], "G"), 1),))


class Element(Abstract):
    def __init__(self, word):
        self.word = reduce(word)

    @staticmethod
    def named(name):
        return Element(((sym(name, "G"), 1),))

    def inverse(self):
        return Element(inverse(self.word))

    def multiply(self, other):
        if not isinstance(other, Element):
            raise Unsupported("group element times something else")
        return Element(self.word + other.word)

    def log(self):
        t = word_term(self.word)
        if not self.word:
            return flat_arr(DIM, lambda i: ZERO)
        return flat_arr(DIM, lambda i: app("grouplog", [t, i], "R"))

    def adjoint(self):
        return adjoint(self.word)

    def getattr(self, name):
        if name in ("inverse", "multiply", "log", "adjoint"):
            return Fn(getattr(self, name), name)
        if name == "__class__":
            return GROUP
        if name in ("tangent_dim", "parameters_dim"):
            return GROUP.getattr(name)
        raise Unsupported(f"group element attribute {name}")

    def binop(self, eng, k, a, b):
        if k is ast.MatMult and isinstance(a, Element) and isinstance(b, Element):
            return a.multiply(b)
        raise Unsupported("operator on a group element")

    def isinstance(self, eng, t):
        if t in (jaxlie.MatrixLieGroup, object) or t is GROUP:
            return True
        raise Unsupported("isinstance of a group element")

    def require_equal(self, eng, got, what):
        if not isinstance(got, Element):
            return eng.fail(what, f"expected a group element, got {got}")
        if got.word == self.word:
            return eng.require(ir.TRUE, what)
        eng.fail(what, f"expected {self.word}, got {got.word}")


def adjoint(word):
    t = word_term(reduce(word))
    return Arr([NLeaf(DIM), NLeaf(DIM)], lambda a, b: app("Ad", [t, a[0], b[0]], "R"))


@ir.rule("Ad")
def _ad_identity(args):
    w, i, j = args
    if is_app(w, "word") and len(w.args[1]) == 1 and w.args[1][0].op == "sym":
        return ind(eq(i, j))
    return None


def letters(t):
    if t.args[1][0].op == "sym":
        return ()
    return tuple((a.args[1][0], 1 if a.args[0] == "g" else -1) for a in t.args[1])


def _ad_product(binders, inside):
    """sum_k Ad(u)[i,k] Ad(v)[k,j] = Ad(uv)[i,j]"""
    for x, n in binders:
        if n is not DIM:
            continue
        fs = [(i, a) for i, (a, e) in enumerate(inside) if ir.occurs(x, a)]
        if len(fs) == 2 and all(is_app(a, "Ad") and inside[i][1] == 1 for i, a in fs):
            for (i, a), (j, b) in (fs, fs[::-1]):
                if a.args[1][2] is x and b.args[1][1] is x and not ir.occurs(x, a.args[1][1]) and not ir.occurs(x, b.args[1][2]):
                    w = word_term(reduce(letters(a.args[1][0]) + letters(b.args[1][0])))
                    rest = [f for q, f in enumerate(inside) if q not in (i, j)]
                    body = mul(ir._prod(rest), app("Ad", [w, a.args[1][1], b.args[1][2]], "R"))
                    others = [p for p in binders if p[0] is not x]
                    return mk_sum(others, body) if others else body
    return None


ir.SUM_HOOKS.append(_ad_product)


@model(jaxlie.manifold.rminus)
def _rminus(eng, a, b):
    if isinstance(a, Element) and isinstance(b, Element):
        return a.inverse().multiply(b).log()
    raise Unsupported("rminus")


@model(jaxlie.manifold.rplus)
def _rplus(eng, a, d):
    if isinstance(a, Element):
        return a.multiply(exp(d))
    raise Unsupported("rplus")


@model(jaxlie.manifold.rplus_jacobian_parameters_wrt_delta)
def _rplus_jacobian(eng, a):
    if isinstance(a, Element):
        t = word_term(a.word)
        return Arr([NLeaf(PARAMS), NLeaf(DIM)], lambda p, q: app("rplus_jacobian", [t, p[0], q[0]], "R"))
    raise Unsupported("rplus_jacobian_parameters_wrt_delta")


def derivative_at_zero(word, delta, relation):
    """Derivative of log(word) with respect to delta at zero, where word is the identity at delta = 0.

    word = u exp(+-delta) v with u v = e, so log(word) = +-Ad_u delta.
    """
    hits = [i for i, (l, s) in enumerate(word) if l is delta]
    if len(hits) != 1:
        raise Unsupported("the perturbation occurs more than once")
    (i,) = hits
    u, v = rename(word[:i], relation), rename(word[i + 1 :], relation)
    assert reduce(u + v) == (), "residual is not zero here"
    s = word[i][1]
    a = adjoint(u)
    return Arr(a.doms, lambda p, q: mul(const(s), a.get(p[0], q[0])))
