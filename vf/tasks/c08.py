"""C08: prior and between factors."""
from .. import ir, lie, prove
from ..ir import app, eq, le, lt, sym, ZERO, ONE
from ..lie import DIM, GROUP, Element, derivative_at_zero, inverse, reduce, rename, word_term
from ..models import require_equal, to_arr
from ..vals import Abstract, Arr, Fn, Obj, flat_arr


class LieVar(Abstract):
    """A Lie group variable."""

    def __init__(self, name):
        self.name = name

    def getattr(self, name):
        if name == "get_group_type":
            return Fn(lambda: GROUP, name)
        if name == "__class__":
            return LIE_TYPE
        return super().getattr(name)

    def require_equal(self, eng, got, what):
        if got is self:
            return eng.require(ir.TRUE, what)
        eng.fail(what, f"expected {self.name}, got {getattr(got, 'name', got)}")


class LieType(Abstract):
    def eq(self, eng, other):
        return self is other


LIE_TYPE = LieType()


class Opaque(LieVar):
    def getattr(self, name):
        return Abstract.getattr(self, name)


def run(P):
    from jaxfg.geometry import BetweenFactor, PriorFactor
    from jaxfg.geometry._factors import BetweenValueTuple

    P.assume("C08: group laws, g exp(x) g^-1 = exp(Ad_g x), Ad a homomorphism, log(exp(x)) = x near zero, rminus(a, b) = log(a^-1 b), adjoint() = Ad (jaxlie, trusted; for every matrix Lie group)")
    T, mu, a, b, m = (Element.named(n) for n in ("T", "mu", "T_world_a", "T_world_b", "T_a_b"))
    noise = Opaque("noise model")
    delta = Element(((app("exp", [sym("delta", "Vec")], "G"), 1),))
    dl = delta.word[0][0]

    def start(eng):
        eng.ctx.assume(lt(ZERO, DIM))

    def prior(variables=None):
        return Obj(PriorFactor, dict(variables=variables, noise_model=noise, mu=mu))

    def between(variables=None):
        return Obj(BetweenFactor, dict(variables=variables, noise_model=noise, T_a_b=m))

    def prior_word(T):
        return T.inverse().multiply(mu).word

    def between_word(a, b):
        return a.inverse().multiply(b).inverse().multiply(m).word

    def prior_make(eng):
        v = LieVar("variable")
        f = eng.call(PriorFactor.make, [v, mu, noise], {})
        if not isinstance(f, Obj) or f.cls is not PriorFactor:
            return eng.fail("result is a PriorFactor", repr(f))
        require_equal(eng, f.fields["variables"], (v,), "its variable")
        require_equal(eng, f.fields["mu"], mu, "its mean")
        require_equal(eng, f.fields["noise_model"], noise, "its noise model")

    P.verify("PriorFactor.make", prior_make, [], ["a prior factor of the given variable, mean and noise model"])

    def between_make(eng):
        va, vb = LieVar("a"), LieVar("b")
        f = eng.call(BetweenFactor.make, [va, vb, m, noise], {})
        if not isinstance(f, Obj) or f.cls is not BetweenFactor:
            return eng.fail("result is a BetweenFactor", repr(f))
        require_equal(eng, f.fields["variables"], (va, vb), "its variables, a first")
        require_equal(eng, f.fields["T_a_b"], m, "its measurement")
        require_equal(eng, f.fields["noise_model"], noise, "its noise model")

    P.verify("BetweenFactor.make", between_make, ["both variables of one type, whose group is the measurement's"], ["a between factor of the given variables, measurement and noise model"])

    def residual(eng, f, values, word, what):
        start(eng)
        got = eng.call(eng.getattr(f, "compute_residual_vector"), [values], {})
        require_equal(eng, got, Element(word).log(), what)

    P.verify("PriorFactor.compute_residual_vector", lambda eng: residual(eng, prior(), (T,), prior_word(T), "log(T^-1 mu)"), [], ["log(T^-1 mu)"])
    P.verify("BetweenFactor.compute_residual_vector", lambda eng: residual(eng, between(), BetweenValueTuple(a, b), between_word(a, b), "log((a^-1 b)^-1 T_a_b)"), [], ["log((a^-1 b)^-1 T_a_b)"])

    def jacobians(eng, f, values, words, relation):
        start(eng)
        got = eng.call(eng.getattr(f, "compute_residual_jacobians"), [values], {})
        if hasattr(got, "items") and not isinstance(got, tuple):
            got = tuple(got.items())
        if not isinstance(got, tuple) or len(got) != len(words):
            return eng.fail("one Jacobian per variable", repr(got))
        for i, (J, w) in enumerate(zip(got, words)):
            want = derivative_at_zero(w, dl, relation)
            J = renamed(to_arr(J), relation)
            require_equal(eng, J, want, f"derivative with respect to a right perturbation of variable {i}")

    def renamed(J, relation):
        """J where the residual is zero."""
        letters = {}

        def go(t):
            for s in ir.subterms(t):
                if ir.is_app(s, "word"):
                    letters[s] = word_term(rename(lie.letters(s), relation))
            for s, w in letters.items():
                t = prove.replace_atom(t, s, w)
            return t

        return Arr(J.doms, lambda *p: go(J.at_path(*p)), J.kind)

    P.verify("PriorFactor.compute_residual_jacobians", lambda eng: jacobians(eng, prior(), (T,), [prior_word(T.multiply(delta))], {mu.word[0][0]: T.word}),
             ["the residual is zero"], ["derivative of the residual with respect to T exp(delta)"])
    P.verify("BetweenFactor.compute_residual_jacobians",
             lambda eng: jacobians(eng, between(), BetweenValueTuple(a, b), [between_word(a.multiply(delta), b), between_word(a, b.multiply(delta))], {m.word[0][0]: a.inverse().multiply(b).word}),
             ["the residual is zero"], ["derivatives of the residual with respect to a exp(delta) and b exp(delta), in this order"])
