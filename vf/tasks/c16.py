"""C16: the dogleg step."""
from .. import contracts as K
from .. import ir
from ..contracts import ND, NR, value_of
from ..ir import ONE, ZERO, add, and_, app, div, eq, fresh, le, lt, mk_sum, mul, ne, not_, power, scale, sqrt, sub, sym
from ..models import require_equal
from ..solverspec import IT, RADIUS, V0, delta_vec, gn_step, retr_delta, lemma, run_step, squares, sumsq
from ..vals import Unsupported, flat_arr

NAME = "DoglegSolver"


def coefficient(t, atom):
    """Coefficient of `atom` in the polynomial t, which must be linear in it."""
    out = []
    for m, c in ir.poly_terms(t):
        e = dict(m).get(atom, 0)
        if e > 1 or any(ir.occurs(atom, a) for a, _ in m if a is not atom):
            raise Unsupported("step is not linear in the Gauss-Newton step")
        if e == 1:
            out.append(mul(ir.const(c), *[power(a, k) for a, k in m if a is not atom]))
    return add(*out) if out else ZERO


def run(P):
    from .c14 import ASSUME

    for a in ASSUME:
        P.assume("C16: " + a)
    P.assume("C16: radius > 0 and the Jacobian times the gradient is not zero (otherwise the optimal steepest-descent length is undefined)")

    def sums(eng):
        f = lambda k: ir.app("f", [k], "R")
        m, k = ir.fresh("m"), ir.fresh("k")
        total = lambda n: ir.mk_sum([(k, n)], mul(f(k), f(k)))
        eng.require(eq(total(ZERO), ZERO), "empty sum")
        with eng.assuming(le(ZERO, m), le(ZERO, total(m))):
            eng.require(le(ZERO, add(total(m), mul(f(m), f(m)))), "one more square")

    P.verify("lemma: a sum of squares is not negative", sums, ["any number of reals"], ["the sum of their squares is at least 0 (induction on their number)"])
    stubs = K.solver_contracts()

    def setup(eng):
        g, s, st, out = run_step(eng, NAME)
        V1 = value_of(out.fields["assignments"])
        prop, D = retr_delta(eng, V1)
        d = delta_vec(D, g.L)
        gr = K.negative_gradient(g, V0)
        gn = gn_step(g, NAME)
        A = g.jacobian(V0)

        def Ag(i):
            j = fresh("j")
            return mk_sum([(j, ND)], mul(A.fn(i, j), gr.get(j)))

        g2, ag2, b2 = sumsq(ND, gr.get), sumsq(NR, Ag), sumsq(ND, gn.get)
        j = fresh("j")
        gb = mk_sum([(j, ND)], mul(gr.get(j), gn.get(j)))
        eng.ctx.assume(lt(ZERO, RADIUS))
        eng.ctx.assume(lt(ZERO, ag2))
        alpha = div(g2, ag2)
        squares(eng, ND, gr.get)
        lemma(
            eng, "length of the steepest-descent point", [g2, ag2, sqrt(g2), sqrt(sumsq(ND, lambda j: mul(alpha, gr.get(j))))],
            lambda g, h, s, u: [le(ZERO, g), lt(ZERO, h), le(ZERO, s), eq(mul(s, s), g), le(ZERO, u), eq(mul(u, u), mul(power(div(g, h), 2), g))],
            lambda g, h, s, u: eq(u, mul(div(g, h), s)),
        )
        return d, gr, gn, alpha, g2, ag2, b2, gb

    def inside(eng):
        d, gr, gn, alpha, g2, ag2, b2, gb = setup(eng)
        with eng.assuming(le(sqrt(b2), RADIUS)):
            require_equal(eng, d, gn, "Gauss-Newton step when it lies within the radius")
            eng.require(le(sumsq(ND, d.get), power(RADIUS, 2)), "norm of the step is at most the radius")

    def descent(eng):
        d, gr, gn, alpha, g2, ag2, b2, gb = setup(eng)
        with eng.assuming(and_(lt(RADIUS, sqrt(b2)), le(RADIUS, mul(alpha, sqrt(g2))))):
            eng.require(lt(ZERO, g2), "gradient is not zero")
            k = div(RADIUS, sqrt(g2))
            require_equal(eng, d, flat_arr(ND, lambda j: mul(k, gr.get(j))), "steepest-descent step cut to the radius")
            eng.require(eq(sumsq(ND, d.get), power(RADIUS, 2)), "norm of the step is the radius")

    def blend(eng, sign):
        d, gr, gn, alpha, g2, ag2, b2, gb = setup(eng)
        a = lambda j: mul(alpha, gr.get(j))
        a2 = sumsq(ND, a)
        j = fresh("j")
        c = mk_sum([(j, ND)], mul(a(j), sub(gn.get(j), a(j))))
        with eng.assuming(and_(lt(RADIUS, sqrt(b2)), lt(sqrt(a2), RADIUS), le(c, ZERO) if sign < 0 else lt(ZERO, c))):
            k = fresh("k")
            dj = eng.ctx.simp(d.get(k))
            t = coefficient(dj, eng.ctx.simp(gn.get(k)))
            if ir.occurs(k, t):
                raise Unsupported("blending factor differs between coordinates")
            want = flat_arr(ND, lambda j: add(a(j), mul(t, sub(gn.get(j), a(j)))))
            require_equal(eng, d, want, "step lies on the line from the steepest-descent point to the Gauss-Newton point")
            B = squares(eng, ND, lambda j: sub(gn.get(j), a(j)))
            Q = sub(power(RADIUS, 2), a2)
            eng.require(lt(ZERO, Q), "steepest-descent point lies inside")
            eng.ctx.assume(lt(ZERO, Q))
            eng.require(lt(Q, add(B, scale(c, 2))), "Gauss-Newton point lies outside")
            eng.ctx.assume(lt(Q, add(B, scale(c, 2))))
            if sign < 0:
                eng.require(lt(ZERO, B), "the two points differ")
                eng.ctx.assume(lt(ZERO, B))
            eng.require(eq(sumsq(ND, want.get), add(a2, scale(mul(c, t), 2), mul(B, power(t, 2)))), "norm of the step")
            lemma(eng, "discriminant", [c, B, Q], lambda c, B, Q: [le(ZERO, B), lt(ZERO, Q)], lambda c, B, Q: le(ZERO, add(power(c, 2), mul(B, Q))))
            root = eq(add(mul(B, power(t, 2)), scale(mul(c, t), 2)), Q)
            eng.require(root, "the blending factor solves |a + t (gn - a)| = radius")
            eng.ctx.assume(root)
            eng.require(le(ZERO, t), "blending factor is not negative")
            eng.ctx.assume(le(ZERO, t))
            lemma(
                eng, "blending factor below one", [c, B, Q, t],
                lambda c, B, Q, t: [le(ZERO, B), lt(ZERO, Q), lt(Q, add(B, scale(c, 2))), le(ZERO, t), eq(add(mul(B, power(t, 2)), scale(mul(c, t), 2)), Q)],
                lambda c, B, Q, t: lt(t, ONE),
            )

    P.verify(f"{NAME}._step, Gauss-Newton case", inside, ["|gn| <= radius"], ["step = gn", "|step| <= radius"], stubs)
    P.verify(f"{NAME}._step, steepest-descent case", descent, ["|gn| > radius", "|a| >= radius"], ["step = (radius/|a|) a", "|step| = radius"], stubs)
    for sign, cond in ((-1, "a.(gn - a) <= 0"), (1, "a.(gn - a) > 0")):
        P.verify(f"{NAME}._step, blend case, {cond}", lambda eng, sign=sign: blend(eng, sign), ["|gn| > radius", "|a| < radius", cond], ["step = a + t (gn - a)", "0 < t < 1", "|step| = radius"], stubs)
