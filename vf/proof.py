"""Runs the contract verifications of one property and collects their obligations."""
from __future__ import annotations

import importlib
import os
import signal
import sys
import time
import traceback

for _k, _v in dict(JAX_PLATFORMS="cpu", MPLBACKEND="Agg").items():
    os.environ.setdefault(_k, _v)
sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

TRUSTED = [
    "vf/interp.py: symbolic interpreter of the Python subset used by the verified functions (own VC generator)",
    "vf/ir.py, vf/prove.py: normaliser for polynomials, finite sums and uninterpreted functions",
    "z3 and cvc5",
    "vf/library.py: assumed contracts of Python built-ins, NumPy and JAX functions (tested by vf/conformance.py, not proved)",
    "jax.jit / vmap / lax.cond do not change the value computed by the traced Python function",
]


class Verification:
    """One function verified against its contract, or a lemma the contracts use."""

    def __init__(self, function, requires, ensures):
        self.function, self.requires, self.ensures = function, requires, ensures
        self.lemma = function.startswith("lemma: ")
        self.obligations = []
        self.unsupported = None
        self.paths = 0
        self.seconds = 0.0


class TimeUp(BaseException):
    """The proofs of a property have used up their time."""


LIMIT = {"quick": 300.0, "thorough": 400.0}


def describe(v):
    return dict(
        function=v.function,
        requires=v.requires,
        ensures=v.ensures,
        paths=v.paths,
        obligations=len(v.obligations),
        discharged=sum(o.ok for o in v.obligations),
        seconds=round(v.seconds, 2),
        status="bounded stand-in" if v.unsupported else "proved" if all(o.ok for o in v.obligations) else "failed",
    )


class Proof:
    def __init__(self, prop, tier, refuted=lambda: False):
        self.prop, self.tier = prop, tier
        self.refuted = refuted  # a failing input is known already
        self.running = False
        self.verifs = []
        self.assumptions = []
        self.executed = {}
        self.t0, self.t1 = time.time(), None
        self.failed = []

    def tick(self, *_):
        used = time.time() - self.t0
        if self.running and (used > LIMIT[self.tier] or used > 60 and self.refuted()):
            raise TimeUp

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def verify(self, function, run, requires=(), ensures=(), contracts=None, raises=()):
        """Symbolically execute `run(eng)` on all paths and prove every obligation raised.

        `run` builds arbitrary inputs satisfying the precondition, calls the real function and
        states the postcondition with eng.require / models.require_equal.
        """
        from . import vals
        from .interp import Engine

        v = Verification(function, list(requires), list(ensures))
        self.verifs.append(v)
        t0 = time.time()
        eng = Engine(contracts)
        vals.set_engine(eng)
        over = False
        try:
            self.running = True
            self.tick()
            results = eng.explore(lambda: run(eng))
            v.paths = len(results)
            feasible = 0
            for kind, val, ctx, log in results:
                dead = ctx._z3(_false(), rlimit=2_000_000)[0] is True
                if not dead:
                    feasible += 1
                if kind == "raise" and not dead:
                    name = getattr(val, "__name__", str(val))
                    if name not in raises:
                        self._fail(v, f"{function}: no exception", f"raises {name} on path [{'; '.join(log)}]", 0.0)
            if not feasible:
                self._fail(v, f"{function}: precondition satisfiable", "the precondition is contradictory (vacuous)", 0.0)
        except TimeUp:
            over = True
        except vals.Unsupported as e:
            v.unsupported = str(e)
        except RecursionError as e:
            v.unsupported = "recursion limit of the verifier"
        except Exception as e:
            # a defect of the verifier, or code it does not understand: nothing is proved
            v.unsupported = f"verifier error {type(e).__name__}: {e} at {traceback.extract_tb(e.__traceback__)[-1]}"
            if os.environ.get("VERBOSE"):
                traceback.print_exc()
        finally:
            self.running = False
        if over and all(o.ok for o in eng.obligations):
            v.unsupported = "the proofs of this property have used up their time"
        if eng.unsure and v.unsupported is None and not all(o.ok for o in eng.obligations):
            v.unsupported = eng.unsure
        seen_fail = set()
        for o in eng.obligations:
            v.obligations.append(o)
            if not o.ok and (o.name, o.detail) not in seen_fail:
                seen_fail.add((o.name, o.detail))
                if v.unsupported is None:
                    self.failed.append(dict(name=f"{function} / {o.name}", detail=o.detail))
        if v.unsupported is None and not v.obligations:
            self._fail(v, f"{function}: obligations generated", "no obligation was generated", 0.0)
        self.executed.update(eng.executed)
        for a in eng.assumed:
            self.assume(a)
        v.seconds = time.time() - t0
        return v

    def _fail(self, v, name, detail, secs):
        from .interp import Obligation

        v.obligations.append(Obligation(name, False, "structure", secs, detail))
        self.failed.append(dict(name=name, detail=detail))

    # -------------------------------------------------------------- reporting

    def proved(self):
        return [v for v in self.verifs if v.unsupported is None and all(o.ok for o in v.obligations)]

    def outside(self):
        return [v for v in self.verifs if v.unsupported is not None]

    def fill(self, ev, conc):
        from .prove import STATS

        obl = [o for v in self.verifs if v.unsupported is None for o in v.obligations]
        ok = [o for o in obl if o.ok]
        how = {}
        for o in ok:
            how[o.how] = how.get(o.how, 0) + 1
        bounded = [f"{v.function}: {v.unsupported}" for v in self.verifs if v.unsupported is not None]
        ev["level"] = "proof" if obl else "other"
        ev["coverage"] = dict(
            obligations=len(obl),
            discharged=len(ok),
            checker_cmd=f"VERIF_TIER={self.tier} ./check.sh {self.prop}",
            trusted_base=TRUSTED,
            functions_under_contract=[describe(v) for v in self.verifs if not v.lemma],
            lemmas=[describe(v) for v in self.verifs if v.lemma],
            back_ends=how,
            z3_calls=STATS.z3_calls,
            z3_seconds=round(STATS.z3_time, 2),
            cvc5_calls=STATS.cvc5_calls,
            cvc5_seconds=round(STATS.cvc5_time, 2),
            source_read=self.executed,
            bounded_stand_ins=bounded,
            concrete_cross_check_cases=conc.done,
            explanation="concrete_cross_check_cases: contracts evaluated on real runs (bounded, not counted as proof)",
        )
        ev["assumptions"] = list(self.assumptions)

    def summary(self):
        obl = [o for v in self.verifs if v.unsupported is None for o in v.obligations]
        b = [v for v in self.verifs if v.unsupported is not None]
        s = f"obligations={len(obl)} discharged={sum(o.ok for o in obl)} functions={sum(not v.lemma for v in self.verifs)} proof_s={(self.t1 or time.time()) - self.t0:.1f}"
        for v in b:
            s += f"\n  bounded stand-in for {v.function}: {v.unsupported}"
        return s


def _false():
    from .ir import FALSE

    return FALSE


def run_task(prop, tier, refuted=lambda: False):
    p = Proof(prop, tier, refuted)
    signal.signal(signal.SIGALRM, p.tick)
    signal.setitimer(signal.ITIMER_REAL, 5, 5)
    m = importlib.import_module("vf.tasks." + prop.lower())
    try:
        m.run(p)
    except Exception as e:
        # the contracts do not fit the code any more (a function is gone or renamed)
        v = Verification(f"contracts of {prop}", [], [])
        v.unsupported = f"{type(e).__name__}: {e}"
        p.verifs.append(v)
        if os.environ.get("VERBOSE"):
            traceback.print_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    p.t1 = time.time()
    return p


def main(argv):
    """python -m vf.proof C09 ...: proofs only, verbose."""
    for prop in argv:
        p = run_task(prop, os.environ.get("VERIF_TIER", "quick"))
        for v in p.verifs:
            print(f"{v.function}: {len(v.obligations)} obligations, {sum(o.ok for o in v.obligations)} discharged, {v.paths} paths, {v.seconds:.2f}s" + (f"  UNSUPPORTED: {v.unsupported}" if v.unsupported else ""))
            for o in v.obligations:
                if not o.ok or os.environ.get("VERBOSE"):
                    print("   ", "ok  " if o.ok else "FAIL", o.how, o.name, o.detail[:1500])
        print(prop, p.summary())


if __name__ == "__main__":
    main(sys.argv[1:])
