"""Prover: decides ground goals over the terms of ir.py under a list of facts.

1. normaliser: rewriting to canonical form (polynomials, sums), facts used as rewrites;
2. congruence: lambdas and sums compared point-wise under their range conditions;
3. z3 on the ground formula (every sum / lambda / uninterpreted application is an atom), with
   instances of the axiom schemas registered for the functions that occur;
4. cvc5 on the same formula, when z3 gives up.
"""
from __future__ import annotations

import sys
import time
from fractions import Fraction
from typing import Callable, Dict, List, Optional

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3

from . import ir
from .ir import (
    FALSE, ONE, TRUE, ZERO, Term, add, and_, app, const, cval, eq, fresh, implies, inv, is_app,
    is_const, ite, lam, lam_open, le, lt, mul, ne, not_, occurs, or_, poly_terms, power, red_open,
    scale, sub, subst, subterms, transform,
)

# fname -> list of functions (args, term) -> list of facts that hold for every application
AXIOMS: Dict[str, List[Callable]] = {}


def axiom(fname):
    def deco(f):
        AXIOMS.setdefault(fname, []).append(f)
        return f

    return deco


@axiom("sqrt")
def _ax_sqrt(args, t):
    (x,) = args
    return [implies(le(ZERO, x), and_(le(ZERO, t), eq(mul(t, t), x))), le(ZERO, t)]


@axiom("inv")
def _ax_inv(args, t):
    (x,) = args
    return [
        implies(ne(x, ZERO), eq(mul(x, t), ONE)),
        implies(lt(ZERO, x), lt(ZERO, t)),
        implies(lt(x, ZERO), lt(t, ZERO)),
    ]


@axiom("abs")
def _ax_abs(args, t):
    (x,) = args
    return [eq(t, ite(le(ZERO, x), x, ir.neg(x)))]


class Stats:
    def __init__(self):
        self.z3_calls = 0
        self.z3_time = 0.0
        self.cvc5_calls = 0
        self.cvc5_time = 0.0


STATS = Stats()


class Result:
    def __init__(self, ok: Optional[bool], how: str, detail: str = ""):
        self.ok, self.how, self.detail = ok, how, detail

    def __bool__(self):
        return self.ok is True


_SIGS: Dict[frozenset, int] = {}


class Ctx:
    """Facts in force."""

    def __init__(self, facts=(), parent: Optional["Ctx"] = None):
        self.facts: List[Term] = []
        self.ids: Dict[int, bool] = {}  # atom id -> truth value
        self.eqs: List = []  # (atom, replacement)
        self._cache: Dict[int, bool] = {}
        self._simp: Dict[int, Term] = {}
        self._sig = None
        if parent is not None:
            self.facts = list(parent.facts)
            self.ids = dict(parent.ids)
            self.eqs = list(parent.eqs)
        for f in facts:
            self.assume(f)

    def copy(self) -> "Ctx":
        return Ctx(parent=self)

    @property
    def sig(self) -> int:
        """Number identifying the set of facts."""
        n = len(self.facts)
        if self._sig is None or self._sig[0] != n:
            key = frozenset(f.id for f in self.facts)
            self._sig = (n, _SIGS.setdefault(key, len(_SIGS)))
        return self._sig[1]

    def extend(self, *facts) -> "Ctx":
        return Ctx(facts, self)

    def assume(self, f: Term):
        if f.op == "and":
            for a in f.args:
                self.assume(a)
            return
        if f is TRUE or f.id in self.ids and self.ids[f.id]:
            return
        self._cache = {}
        self._simp = {}
        self.facts.append(f)
        self.ids[f.id] = True
        n = not_(f)
        self.ids[n.id] = False
        if f.op == "eq0":
            self._orient(f)
        elif f.op == "eqo":
            a, b = f.args
            # prefer replacing a plain symbol, else the larger term
            if a.op == "sym" and not occurs(a, b):
                self.eqs.append((a, b))
            elif b.op == "sym" and not occurs(b, a):
                self.eqs.append((b, a))
            elif b not in subterms(a):
                self.eqs.append((a, b) if a.size >= b.size else (b, a))

    def _orient(self, f):
        p = f.args[0]
        best = None
        for m, c in poly_terms(p):
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                rest = scale(sub(p, scale(a, c)), -1 / c)
                if a in subterms(rest):
                    continue
                if a.sort == "I" and rest.sort != "I":
                    continue
                if a.op in ("ite", "ind"):
                    continue
                key = (a.op != "sym", -a.size, a.id)
                if a.op == "sym":
                    key = (0, 0, -a.id)
                if best is None or key < best[0]:
                    best = (key, a, rest)
        if best:
            self.eqs.append((best[1], best[2]))

    # -------------------------------------------------------------- simplification

    def simp(self, t: Term, depth=0) -> Term:
        r = self._simp.get(t.id)
        if r is not None:
            return r
        old, ir.ORACLE = ir.ORACLE, Oracle(self)
        try:
            cur = t
            for _ in range(6):
                nxt = transform(cur, self._rewrite)
                for a, b in self.eqs:
                    if a in subterms(nxt):
                        nxt = replace_atom(nxt, a, b)
                if nxt is cur:
                    break
                cur = nxt
        finally:
            ir.ORACLE = old
        self._simp[t.id] = cur
        return cur

    def _rewrite(self, t: Term):
        if t.sort == "B":
            v = self.ids.get(t.id)
            if v is not None:
                return const(v)
            return None
        if t.op == "ind":
            v = self.ids.get(t.args[0].id)
            if v is not None:
                return ONE if v else ZERO
            if self.quick(t.args[0]):
                return ONE
            if self.quick(not_(t.args[0])):
                return ZERO
            return None
        if t.op == "ite":
            c = t.args[0]
            v = self.ids.get(c.id)
            if v is not None:
                return t.args[1] if v else t.args[2]
            return None
        if t.op == "poly":
            out, changed = [], False
            for m, c in t.args:
                nm, ch = self._mono(m)
                changed |= ch
                out.append(scale(nm, c))
            if changed:
                return add(*out)
        return None

    def _mono(self, m):
        """sqrt(x)^2 = x, |x|^2 = x^2, x * inv(x) = 1."""
        d = dict(m)
        changed = False
        extra = []
        for a in list(d):
            e = d[a]
            if is_app(a, "sqrt") and e >= 2 and self.nonneg(a.args[1][0]):
                extra.append(power(a.args[1][0], e // 2))
                d[a] = e % 2
                changed = True
            elif is_app(a, "abs") and e >= 2:
                extra.append(power(a.args[1][0], e - e % 2))
                d[a] = e % 2
                changed = True
            elif is_app(a, "inv"):
                x = a.args[1][0]
                if is_app(x, "sqrt") and e >= 2 and self.nonneg(x.args[1][0]):
                    extra.append(power(inv(x.args[1][0]), e // 2))
                    d[a] = e % 2
                    changed = True
                elif x in d and d[x] > 0 and self.nonzero(x):
                    k = min(e, d[x])
                    d[a] -= k
                    d[x] -= k
                    changed = True
                elif is_app(x, "sqrt") and d.get(x, 0) == 0:
                    pass
        if not changed:
            return ir._from_items({m: Fraction(1)}), False
        return mul(*([power(a, e) for a, e in d.items() if e > 0] + extra + [ONE])), True

    def nonneg(self, t: Term) -> bool:
        return nonneg(t) or self.quick(le(ZERO, t))

    def nonzero(self, t: Term) -> bool:
        return self.quick(ne(t, ZERO))

    def quick(self, goal: Term) -> bool:
        """Cheap proof attempt: facts, then z3 with a small budget."""
        if goal.op == "const":
            return goal.args[0]
        v = self.ids.get(goal.id)
        if v is not None:
            return v
        r = self._cache.get(goal.id)
        if r is None:
            if goal.op == "and":
                r = all(self.quick(g) for g in goal.args) or self._z3(goal, rlimit=400_000)[0] is True
            elif goal.op == "le0" and nonneg(ir.neg(goal.args[0])):
                r = True
            else:
                r = self._z3(goal, rlimit=400_000, linear=_real(goal) and goal.size + sum(f.size for f in self.facts) > 400)[0] is True
            self._cache[goal.id] = r
        return r

    # -------------------------------------------------------------- full proof

    def prove(self, goal: Term, depth: int = 0) -> Result:
        goal = self.simp(goal)
        if goal is TRUE:
            return Result(True, "normaliser")
        if goal is FALSE:
            r, det = self._z3(FALSE, rlimit=4_000_000)
            if r is True:
                return Result(True, "z3", "hypotheses contradictory")
            return Result(False if r is False else None, "z3", det or "reduces to false")
        if goal.op == "and":
            how = []
            for g in goal.args:
                r = self.prove(g, depth)
                if not r:
                    # axioms about terms of the other conjuncts may help
                    return Result(True, "z3") if self._z3(goal, rlimit=2_000_000)[0] is True else r
                how.append(r.how)
            return Result(True, _worst(how))
        if goal.op == "or" and depth < 6:
            # assume the negations of all but one disjunct
            for i, g in enumerate(goal.args):
                if g.op in ("eq0", "eqo"):
                    rest = [not_(h) for j, h in enumerate(goal.args) if j != i]
                    r = self.extend(*rest).prove(g, depth + 1)
                    if r:
                        return r
                    break
        if goal.op in ("eq0", "eqo"):
            r = self.prove_eq(goal, depth)
            if r:
                return r
            eqres = r
        else:
            eqres = None
        r, det = self._z3(goal, rlimit=6_000_000)
        if r is True:
            return Result(True, "cvc5" if det.startswith("cvc5") else "z3")
        if depth < 5:
            c = _split_atom(goal)
            if c is not None:
                a = self.extend(c).prove(goal, depth + 1)
                if a:
                    b = self.extend(not_(c)).prove(goal, depth + 1)
                    if b:
                        return Result(True, _worst([a.how, b.how]))
                    return b
                return a
        if r is False:
            return Result(False, "z3", det)
        if "no proof" in det:
            return Result(None, det[: det.index(":")], det)
        r, how = self._separate(goal)
        return Result(r, how, "" if r is True else det or "unknown")

    def prove_eq(self, goal: Term, depth) -> Result:
        if goal.op == "eqo":
            a, b = goal.args
            if self.eqv(a, b, depth):
                return Result(True, "congruence")
            return Result(None, "congruence", f"{a} =?= {b}")
        p = goal.args[0]
        p2 = self.clear(p)
        if p2 is ZERO:
            return Result(True, "normaliser")
        if self.match_poly(p2, depth):
            return Result(True, "congruence")
        p3 = self.last_terms(p2)
        if p3 is not p2 and (p3 is ZERO or self.match_poly(p3, depth)):
            return Result(True, "congruence")
        return Result(None, "congruence", str(p2)[:2000])

    def last_terms(self, p: Term) -> Term:
        """Split off the last term of sums over a range n + 1 where the goal also has sums over n."""
        sums = {a for m, _ in poly_terms(p) for a, _ in m if a.op == "red" and a.args[0] == "sum"}
        ranges = {n for a in sums for n in a.args[2]}
        for a in sums:
            _, bs, body = red_open(a)
            for i, (x, n) in enumerate(bs):
                n1 = sub(n, ONE)
                if n1 in ranges and self.quick(le(ZERO, n1)):
                    rest = bs[:i] + bs[i + 1 :]
                    if (x.args[0], x.sort) in set().union(*[m.fv for _, m in bs[:i]], set()):
                        continue
                    last = {x: n1}
                    t = ir.mk_sum([(y, subst(m, last)) for y, m in rest], subst(body, last)) if rest else subst(body, last)
                    p = replace_atom(p, a, add(ir.mk_sum(bs[:i] + [(x, n1)] + bs[i + 1 :], body), t))
                    break
        return p

    def clear(self, p: Term) -> Term:
        """Multiply p = 0 by its (provably non-zero) denominators."""
        for _ in range(6):
            dens: Dict[Term, int] = {}
            for m, _c in poly_terms(p):
                for a, e in m:
                    if is_app(a, "inv"):
                        dens[a] = max(dens.get(a, 0), e)
            dens = {a: e for a, e in dens.items() if self.nonzero(a.args[1][0])}
            if not dens:
                break
            out = []
            for m, c in poly_terms(p):
                d = dict(m)
                f = const(c)
                for a, e in dens.items():
                    k = d.pop(a, 0)
                    f = mul(f, power(a.args[1][0], e - k))
                out.append(mul(f, *[power(a, e) for a, e in d.items()]))
            p = self.simp(add(*out))
            if p is ZERO:
                break
        return p

    def eqv(self, a: Term, b: Term, depth=0) -> bool:
        a, b = self.simp(a), self.simp(b)
        if a is b:
            return True
        if depth > 12:
            return False
        if a.op == "lam" and b.op == "lam":
            x, ba = lam_open(a)
            _, bb = lam_open(b, x)
            return self.eqv(ba, bb, depth + 1)
        if a.op == "app" and b.op == "app" and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
            if all(self.eqv(x, y, depth + 1) for x, y in zip(a.args[1], b.args[1])):
                return True
        if a.op == "red" and b.op == "red" and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
            ka, bsa, bodya = red_open(a)
            kb, bsb, bodyb = red_open(b)
            import itertools

            for perm in itertools.permutations(range(len(bsb))):
                ren = {bsb[j][0]: bsa[i][0] for i, j in enumerate(perm)}
                ctx, ok = self.copy(), True
                for i, j in enumerate(perm):
                    if not ctx.eqv(bsa[i][1], subst(bsb[j][1], ren), depth + 1):
                        ok = False
                        break
                    ctx.assume(le(ZERO, bsa[i][0]))
                    ctx.assume(lt(bsa[i][0], bsa[i][1]))
                if ok and ctx.eqv(bodya, subst(bodyb, ren), depth + 1):
                    return True
        if a.op == "lam" or b.op == "lam":
            return False
        if a.sort in ir.ARITH and b.sort in ir.ARITH:
            return bool(self.prove(eq(a, b), depth + 2))
        if a.op == "ite" or b.op == "ite":
            t = a if a.op == "ite" else b
            c = t.args[0]
            return self.extend(c).eqv(a, b, depth + 1) and self.extend(not_(c)).eqv(a, b, depth + 1)
        for t in (a, b):
            c = _split_atom(t)
            if c is not None and depth < 8:
                return self.extend(c).eqv(a, b, depth + 1) and self.extend(not_(c)).eqv(a, b, depth + 1)
        return self._z3(eq(a, b), rlimit=1_000_000)[0] is True

    def match_poly(self, p: Term, depth) -> bool:
        """p = 0 by pairing monomials that are equal factor by factor."""
        if depth > 8:
            return False
        pos = [(m, c) for m, c in poly_terms(p) if c > 0]
        neg = [(m, -c) for m, c in poly_terms(p) if c < 0]
        if len(pos) > 24 or len(pos) != len(neg):
            return False
        for m, c in pos:
            for i, (m2, c2) in enumerate(neg):
                if c == c2 and self._mono_eqv(m, m2, depth):
                    neg.pop(i)
                    break
            else:
                return False
        return not neg

    def _mono_eqv(self, m, m2, depth):
        if not any(a.op in ("red", "app", "ite", "ind") for a, _ in m):
            return False
        l1 = [a for a, e in m for _ in range(e)]
        l2 = [a for a, e in m2 for _ in range(e)]
        for a in list(l1):
            if a in l2:
                l1.remove(a)
                l2.remove(a)
        if len(l1) != len(l2):
            return False
        for a in l1:
            for i, b in enumerate(l2):
                if _compatible(a, b) and self.eqv(a, b, depth + 2):
                    l2.pop(i)
                    break
            else:
                return False
        return True

    # -------------------------------------------------------------- back ends

    def _problem(self, goal: Term):
        facts = list(self.facts) + [not_(goal)]
        seen = {f.id for f in facts}
        terms: Dict[int, Term] = {}
        frontier = facts
        for _round in range(3):
            new_terms = []
            for f in frontier:
                for t in ground_subterms(f):
                    if t.id not in terms:
                        terms[t.id] = t
                        new_terms.append(t)
            added = []
            for t in new_terms:
                if t.op == "app":
                    for ax in AXIOMS.get(t.args[0], ()):
                        added.extend(ax(t.args[1], t))
            if _round == 0:
                added.extend(_sum_axioms([t for t in terms.values() if t.op == "red"]))
            if _round < 2:
                for ax in TERM_AXIOMS:
                    added.extend(ax(terms.values()))
            added = [a for a in added if a is not TRUE and a.id not in seen]
            for a in added:
                seen.add(a.id)
            facts.extend(added)
            frontier = added
            if not added:
                break
        return facts

    def _z3(self, goal: Term, rlimit: int, linear=False):
        facts = self._problem(goal)
        s = z3.Solver()
        s.set("rlimit", rlimit)
        s.set("timeout", 10000)
        tr = Z3Tr(linear)
        for f in facts:
            s.add(tr(f))
        if tr.products and rlimit > 1_000_000:
            # nonlinear procedures do not heed the limits
            r, how = self._separate(goal, s)
            return r, f"{how}: " + ("no proof" if r is None else "refuted" if r is False else "")
        t0 = time.time()
        r = s.check()
        STATS.z3_calls += 1
        STATS.z3_time += time.time() - t0
        if r == z3.unsat:
            return True, ""
        if r == z3.sat:
            return False, "countermodel: " + str(s.model())[:1500]
        return None, "z3: " + s.reason_unknown()

    def _separate(self, goal: Term, s=None):
        """z3 with all its procedures and cvc5, as processes of their own that are stopped after a while."""
        import subprocess

        if s is None:
            s = z3.Solver()
            tr = Z3Tr()
            for f in self._problem(goal):
                s.add(tr(f))
        text = s.to_smt2()
        if text in SEPARATE:
            return SEPARATE[text]
        # per obligation: a total of 20 s (6 s if others have failed), then a second each
        limit = max(1, min(2, 6 - int(SPENT[0])) if HURRY[0] else min(10, 20 - int(SPENT[0])))
        running = {}
        for name, command, start in (
            ("z3", ["z3", "-in", f"-T:{limit}"], ""),
            ("cvc5", ["cvc5", "--lang=smt2", f"--tlimit={limit}000"], "(set-logic ALL)\n"),
        ):
            try:
                p = subprocess.Popen(command, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                p.stdin.write(start + text)
                p.stdin.close()
            except OSError:
                continue
            running[name] = p
        t0 = time.time()
        answer, how = None, "z3"
        done = set()
        while len(done) < len(running) and answer is None and time.time() - t0 < limit + 5:
            time.sleep(0.01)
            for name, p in running.items():
                if name in done or p.poll() is None:
                    continue
                done.add(name)
                out = p.stdout.read().strip()
                if out.startswith("unsat"):
                    answer, how = True, name
                elif out.startswith("sat"):
                    answer, how = False, name
        for p in running.values():
            if p.poll() is None:
                p.kill()
            p.wait()
            p.stdout.close()
        used = time.time() - t0
        SPENT[0] += used
        SEPARATE[text] = answer, how
        STATS.z3_calls += "z3" in running
        STATS.cvc5_calls += "cvc5" in running
        STATS.z3_time += used
        STATS.cvc5_time += used
        return answer, how


# answers of _separate; time it used for the current obligation
SEPARATE = {}
SPENT = [0.0]
# several obligations of this function have failed: spend less time on its others
HURRY = [False]


def _worst(hows):
    for h in ("cvc5", "z3", "congruence", "normaliser"):
        if h in hows:
            return h
    return "normaliser"


def _compatible(a, b):
    if a.op != b.op:
        return False
    if a.op == "app":
        return a.args[0] == b.args[0]
    if a.op == "red":
        return a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1])
    return True


class Oracle(ir.RangeOracle):
    def __init__(self, ctx):
        self.ctx = ctx

    def holds(self, t):
        return self.ctx.quick(t)


def replace_atom(t: Term, a: Term, b: Term) -> Term:
    return transform(t, lambda x: b if x is a else None) if a.op != "sym" else subst(t, {a: b})


def nonneg(t: Term) -> bool:
    """Syntactic: t >= 0."""
    if t.op == "const":
        return t.args[0] >= 0
    if t.op == "ind":
        return True
    if t.op == "poly":
        return all(
            c >= 0 and all(e % 2 == 0 or nonneg(a) for a, e in m) for m, c in t.args
        )
    if t.op == "app":
        if t.args[0] in ("sqrt", "abs") or t.args[0] in NONNEG:
            return True
        if t.args[0] == "inv":
            return nonneg(t.args[1][0])
    if t.op == "red" and t.args[0] in ("sum", "max", "prod"):
        return nonneg(t.args[3])
    if t.op == "ite":
        return nonneg(t.args[1]) and nonneg(t.args[2])
    return False


# functions whose values are never negative
NONNEG = set()


def ground_subterms(f: Term):
    """Subterms outside binders."""
    seen, out, stack = set(), [], [f]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        if x.op in ("red", "lam"):
            continue
        stack.extend(ir.children(x))
    return out


def _split_atom(t: Term) -> Optional[Term]:
    """A condition worth a case split."""
    for s in subterms(t):
        if s.op == "ite" and not ir._has_bvar(s.args[0]):
            return s.args[0] if s.args[0].op not in ("and", "or") else s.args[0].args[0]
        if s.op == "ind" and not ir._has_bvar(s.args[0]):
            return s.args[0]
    return None


def _sum_axioms(reds):
    """Non-negative sums are >= 0; sums of the same non-negative body are monotone in the range."""
    out = []
    singles = []
    for t in reds:
        if t.args[0] == "sum" and nonneg(t.args[3]):
            out.append(le(ZERO, t))
        if t.args[0] == "sum" and len(t.args[1]) == 1 and nonneg(t.args[3]):
            singles.append(t)
            if t.sort == "I":
                _, ((x, n),), body = red_open(t)
                out.append(implies(lt(ZERO, n), le(subst(body, {x: ZERO}), t)))
    for i, a in enumerate(singles):
        for b in singles:
            if a is b or a.args[3] is not b.args[3] or a.args[1] != b.args[1]:
                continue
            n, m = a.args[2][0], b.args[2][0]
            _, bs, body = red_open(a)
            last = subst(body, {bs[0][0]: n})
            out.append(implies(le(n, m), le(a, b)))
            out.append(implies(and_(lt(n, m), le(ZERO, n)), le(add(a, last), b)))
            out.append(implies(and_(eq(add(n, ONE), m), le(ZERO, n)), eq(add(a, last), b)))
    for f in SUM_AXIOMS:
        out.extend(f(reds))
    return out


SUM_AXIOMS = []
# facts about all terms of a problem
TERM_AXIOMS = []


def _real(goal: Term) -> bool:
    """Does the goal compare reals?"""
    while goal.op == "not":
        goal = goal.args[0]
    return goal.op in ("le0", "lt0", "eq0") and goal.args[0].sort == "R"


class Z3Tr:
    """linear: products of reals are opaque (a sound weakening, for cheap attempts on big goals)."""

    def __init__(self, linear=False):
        self.linear = linear
        self.memo = {}
        self.sorts = {}
        self.funcs = {}
        self.products = False

    def sort(self, s):
        if s == "I":
            return z3.IntSort()
        if s == "R":
            return z3.RealSort()
        if s == "B":
            return z3.BoolSort()
        if s not in self.sorts:
            self.sorts[s] = z3.DeclareSort(s)
        return self.sorts[s]

    def real(self, t):
        e = self(t)
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e

    def num(self, t, want):
        e = self(t)
        return z3.ToReal(e) if want == "R" and e.sort() == z3.IntSort() else e

    def __call__(self, t: Term):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self.go(t)
        return r

    def go(self, t: Term):
        op = t.op
        if op == "const":
            v = t.args[0]
            if isinstance(v, bool):
                return z3.BoolVal(v)
            return z3.IntVal(int(v)) if t.sort == "I" else z3.RealVal(f"{v.numerator}/{v.denominator}")
        if op == "sym":
            return z3.Const(f"{t.args[0]}", self.sort(t.sort))
        if op in ("red", "lam"):
            return z3.Const(f"{op}!{t.id}", self.sort(t.sort))
        if op == "app":
            fname, args = t.args
            if not args or isinstance(args[0], str):
                return z3.Const(fname + "".join(map(str, args)), self.sort(t.sort))
            es = [self(a) for a in args]
            key = (fname, tuple(str(e.sort()) for e in es), t.sort)
            if key not in self.funcs:
                self.funcs[key] = z3.Function(
                    f"{fname}!{len(self.funcs)}", *[e.sort() for e in es], self.sort(t.sort)
                )
            return self.funcs[key](*es)
        if op == "poly":
            acc = []
            for m, c in t.args:
                fs = []
                for a, e in m:
                    x = self.num(a, t.sort)
                    fs.extend([x] * e)
                if c != 1 or not fs:
                    fs.insert(0, z3.IntVal(int(c)) if t.sort == "I" else z3.RealVal(f"{c.numerator}/{c.denominator}"))
                if self.linear and t.sort == "R" and sum(e for _, e in m) > 1:
                    key = ",".join(f"{a.id}^{e}" for a, e in m)
                    fs = [z3.RealVal(f"{c.numerator}/{c.denominator}"), z3.Const("mono!" + key, z3.RealSort())]
                elif t.sort == "R" and sum(e for _, e in m) > 1:
                    self.products = True
                acc.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
            return z3.Sum(*acc) if len(acc) > 1 else acc[0]
        if op == "le0":
            return self(t.args[0]) <= 0
        if op == "lt0":
            return self(t.args[0]) < 0
        if op == "eq0":
            return self(t.args[0]) == 0
        if op == "eqo":
            return self(t.args[0]) == self(t.args[1])
        if op == "not":
            return z3.Not(self(t.args[0]))
        if op == "and":
            return z3.And(*[self(a) for a in t.args])
        if op == "or":
            return z3.Or(*[self(a) for a in t.args])
        if op == "ite":
            c, a, b = t.args
            return z3.If(self(c), self.num(a, t.sort), self.num(b, t.sort))
        if op == "ind":
            return z3.If(self(t.args[0]), z3.IntVal(1), z3.IntVal(0))
        raise AssertionError(op)
