"""Differential test of the verifier itself.

Every function of vf/conformance_cases.py is executed twice: symbolically, with arbitrary sizes and
contents, as the verified functions are; and by Python, NumPy and JAX on random inputs of several
sizes.  The terms of the symbolic result are evaluated on the same inputs and compared.  This checks
the interpreter, the loop summaries, the normaliser and the assumed library contracts against the
implementations they describe.
"""
from __future__ import annotations

import inspect
import itertools
import math
import json
import os
import random
import sys
import time

sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import jax
import numpy as onp

jax.config.update("jax_enable_x64", True)

from . import ir, library, models, vals  # noqa: E402,F401
from .interp import Engine
from .ir import ZERO, app, le, lt, sym
from .vals import Arr, Comp, Item, NComp, NLeaf, NSeq, Obj, SDict, Seq, Term, Unsupported


class Mismatch(Exception):
    pass


# ------------------------------------------------------------------ evaluation of terms


class World:
    """Values of the symbols and functions of one random input."""

    def __init__(self, syms, funs):
        self.syms, self.funs = dict(syms), dict(funs)

    def ev(self, t: Term, b=None):
        b = b or {}
        op = t.op
        if op == "const":
            v = t.args[0]
            return v if isinstance(v, bool) else (int(v) if v.denominator == 1 else float(v))
        if op == "sym":
            if t.args[0] not in self.syms:
                raise Mismatch(f"no value for {t.args[0]}")
            return self.syms[t.args[0]]
        if op == "bvar":
            return b[t.args[0]]
        if op == "poly":
            out = 0
            for m, c in t.args:
                x = int(c) if c.denominator == 1 else float(c)
                for a, e in m:
                    x = x * self.ev(a, b) ** int(e)
                out = out + x
            return out
        if op == "le0":
            return bool(self.ev(t.args[0], b) <= 1e-12)
        if op == "lt0":
            return bool(self.ev(t.args[0], b) < -1e-12)
        if op == "eq0":
            return bool(abs(self.ev(t.args[0], b)) <= 1e-12)
        if op == "eqo":
            return self.ev(t.args[0], b) == self.ev(t.args[1], b)
        if op == "not":
            return not self.ev(t.args[0], b)
        if op == "and":
            return all(self.ev(a, b) for a in t.args)
        if op == "or":
            return any(self.ev(a, b) for a in t.args)
        if op == "ite":
            return self.ev(t.args[1] if self.ev(t.args[0], b) else t.args[2], b)
        if op == "ind":
            return int(self.ev(t.args[0], b))
        if op == "lam":
            k, body = t.args
            return lambda x: self.ev(body, {**b, k: x})
        if op == "red":
            return self.red(t, b)
        if op == "app":
            return self.app(t, b)
        raise Mismatch(f"no value for {op}")

    def red(self, t, b):
        kind, ks, ns, body = t.args
        out = []

        def go(i, b):
            if i == len(ks):
                out.append(self.ev(body, b))
                return
            for x in range(int(self.ev(ns[i], b))):
                go(i + 1, {**b, ks[i]: x})

        go(0, b)
        if kind == "sum":
            return sum(out)
        if kind == "prod":
            return math.prod(out)
        return {"max": max, "min": min, "any": any, "all": all}[kind](out)

    def app(self, t, b):
        f, args = t.args
        if f in self.funs:
            return self.funs[f](*[self.ev(a, b) for a in args])
        if f == "float":
            return float(args[0])
        if f.startswith("pyobj:"):
            return f
        xs = [self.ev(a, b) for a in args]
        if f in SIMPLE:
            return SIMPLE[f](*xs)
        if f.startswith("gkey"):
            T, g = xs
            key = T.keys[g]
            return key[int(f[4:])] if isinstance(key, tuple) else key
        raise Mismatch(f"no value for {f}")


class Groups:
    """What the grouping of k < n by key means: groups and members in order of first occurrence."""

    def __init__(self, n, key):
        d = {}
        for k in range(int(n)):
            d.setdefault(key(k), []).append(k)
        self.keys, self.mem = list(d), list(d.values())

    def gid(self, k):
        return next(g for g, m in enumerate(self.mem) if k in m)


def matrix(n, f):
    return onp.array([[f(i)(j) for j in range(int(n))] for i in range(int(n))], float).reshape(int(n), int(n))


def _inv(x):
    if x == 0:
        raise Mismatch("division by zero")
    return 1.0 / x


def _flat_keys(s):
    """The elements of a set given as nested families of keys."""
    if isinstance(s, tuple) and s and s[0] == "comp":
        return list(dict.fromkeys(itertools.chain(*[_flat_keys(x) for x in s[1]])))
    if isinstance(s, tuple) and s and s[0] == "pack":
        return list(s[1])
    return [s]


SIMPLE = {
    "abs": abs,
    "sqrt": lambda x: math.sqrt(max(x, 0.0)),
    "log": math.log,
    "exp": math.exp,
    "sin": math.sin,
    "cos": math.cos,
    "atan2": math.atan2,
    "isnan": lambda x: x != x,
    "isfinite": lambda x: math.isfinite(x),
    "fdiv": lambda a, b: a // b,
    "pow": lambda a, b: a**b,
    "inv": _inv,
    "to_int": lambda x: int(x),
    "det": lambda n, f: float(onp.linalg.det(matrix(n, f))),
    "matinv": lambda n, f, i, j: float(onp.linalg.inv(matrix(n, f))[i, j]),
    "chol": lambda n, f, i, j: float(onp.linalg.cholesky(matrix(n, f))[i, j]),
    "tuple": lambda *xs: tuple(xs),
    "grouping": Groups,
    "gn": lambda T: len(T.mem),
    "gcnt": lambda T, g: len(T.mem[g]) if 0 <= g < len(T.mem) else 0,
    "gmem": lambda T, g, r: T.mem[g][r],
    "gid": lambda T, k: T.gid(k),
    "grank": lambda T, k: T.mem[T.gid(k)].index(k),
    "pack": lambda *xs: ("pack", xs),
    "comp": lambda n, f: ("comp", [f(k) for k in range(int(n))]),
    "keyset": _flat_keys,
    "setlen": len,
    "setnth": lambda s, i: s[i],
    "setpos": lambda s, x: s.index(x),
}


# ------------------------------------------------------------------ evaluation of values


def positions(node, w: World):
    """Symbolic paths of a domain with the values of their symbols: (path, {name: value})."""
    if isinstance(node, NLeaf):
        s = ir.fresh("i")
        for v in range(int(w.ev(node.n))):
            yield (s,), {s.args[0]: v}, [le(ZERO, s), lt(s, node.n)]
    elif isinstance(node, NComp):
        s = ir.fresh("k")
        inner = node.at(s)
        facts = [le(ZERO, s), lt(s, node.n)]
        for v in range(int(w.ev(node.n))):
            w2 = World({**w.syms, s.args[0]: v}, w.funs)
            for p, m, fs in positions(inner, w2):
                yield (s,) + p, {s.args[0]: v, **m}, facts + fs
    elif isinstance(node, NSeq):
        for i, n in enumerate(node.nodes):
            for p, m, fs in positions(n, w):
                yield (i,) + p, m, fs
    else:
        raise Mismatch(f"domain {type(node).__name__}")


def array_value(eng, a: Arr, w: World):
    shape = tuple(int(w.ev(ir.lift(n))) for n in a.shape)
    dtype = {"f": float, "i": int, "b": bool}[a.kind]
    out = onp.zeros(shape, dtype)
    seen = onp.zeros(shape, int)
    for combo in itertools.product(*[list(positions(d, w)) for d in a.doms]):
        paths = [c[0] for c in combo]
        m = {k: v for c in combo for k, v in c[1].items()}
        facts = [f for c in combo for f in c[2]]
        with eng.assuming(*facts):
            t = a.at_path(*paths)
            pos = [d.offset(p) for d, p in zip(a.doms, paths)]
        w2 = World({**w.syms, **m}, w.funs)
        idx = tuple(int(w2.ev(p)) for p in pos)
        out[idx] = w2.ev(t)
        seen[idx] += 1
    if not (seen == 1).all():
        raise Mismatch("positions of an array are not a partition")
    return out


def parts_value(eng, parts, w: World):
    out = []
    for p in parts:
        if isinstance(p, Item):
            out.append(value(eng, p.value, w))
        elif isinstance(p, Comp):
            s = ir.fresh("k")
            with eng.assuming(le(ZERO, s), lt(s, p.n)):
                inner = p.at(s)
                for v in range(int(w.ev(p.n))):
                    out += parts_value(eng, inner, World({**w.syms, s.args[0]: v}, w.funs))
        else:
            raise Mismatch(f"part {type(p).__name__}")
    return out


def value(eng, v, w: World):
    if isinstance(v, Term):
        return w.ev(v)
    if isinstance(v, Arr):
        return array_value(eng, v, w)
    if isinstance(v, Seq):
        return parts_value(eng, v.parts, w)
    if isinstance(v, SDict):
        return dict(parts_value(eng, v.parts, w))
    if isinstance(v, vals.SSet):
        return set(parts_value(eng, v.seq.parts, w))
    if isinstance(v, vals.Batched):
        s = ir.fresh("r")
        with eng.assuming(le(ZERO, s), lt(s, v.n)):
            inner = v.at(s)
            return onp.array([value(eng, inner, World({**w.syms, s.args[0]: k}, w.funs)) for k in range(int(w.ev(v.n)))])
    if isinstance(v, models.KeyVal):
        return w.ev(models.key_term(v))
    if isinstance(v, (tuple, list)):
        return [value(eng, x, w) for x in v]
    if isinstance(v, dict):
        return {value(eng, k, w): value(eng, x, w) for k, x in v.items()}
    if isinstance(v, Obj):
        raise Mismatch("object")
    return v


def same(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and len(a) == len(b) and all(same(x, y) for x, y in zip(a.items(), b.items()))
    if isinstance(a, (set, frozenset)):
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return False
    if isinstance(a, str) or a is None or isinstance(b, str) or b is None:
        return a == b
    x, y = onp.asarray(a), onp.asarray(b)
    if x.shape != y.shape:
        return False
    if x.dtype.kind == "b" and y.dtype.kind != "b" or y.dtype.kind == "b" and x.dtype.kind != "b":
        return False
    return bool(onp.allclose(x.astype(float), y.astype(float), rtol=1e-8, atol=1e-9, equal_nan=True))


# ------------------------------------------------------------------ inputs

SIZES = {"n": (1, 5), "m": (1, 4), "d": (2, 2)}
"""Symbolic sizes with the range their concrete values are drawn from."""


def symbolic(name, spec):
    """The symbolic input and the facts known of it."""
    kind, dims, extra = parse(spec)
    if kind == "size":
        return sym(name)
    if kind == "scalar":
        return vals.scalar(sym(name, extra)).at_path()
    sort = {"f": "R", "i": "I", "b": "B"}
    if kind == "list":
        if not dims:
            raise AssertionError(spec)
        n = dim(dims[0])
        if extra == "ragged":
            return Seq([Comp(n, lambda k: [Item(vals.flat_arr(app(name + "_len", [k], "I"), lambda i: app(name, [k, i], "R")))])], "list")
        if len(dims) == 2:
            return Seq([Comp(n, lambda k: [Item(vals.flat_arr(dim(dims[1]), lambda i: app(name, [k, i], "R")))])], "list")
        return Seq([Comp(n, lambda k: [Item(app(name, [k], sort[extra]))])], "list")
    jaxy = name.isupper() or True
    a = Arr([NLeaf(dim(d)) for d in dims], lambda *p: app(name, [q[0] for q in p], sort[extra]), extra)
    a.jax = jaxy
    return a


def dim(d):
    return ir.lift(int(d)) if d.isdigit() else sym(d)


def parse(spec):
    """'size', 'R', 'I', 'f[n,m]', 'i[n]<m', 'list f[n]', 'list ragged[n]', 'list f[n,m]'"""
    if spec == "size":
        return "size", [], ""
    if spec in ("R", "I", "B"):
        return "scalar", [], spec
    kind = "array"
    if spec.startswith("list "):
        kind, spec = "list", spec[5:]
    spec = spec.split("<")[0]
    head, rest = spec.split("[")
    return kind, rest.rstrip("]").split(","), head


def concrete(name, spec, sizes, rng):
    """The Python input and what the symbols of the symbolic input mean for it."""
    kind, dims, extra = parse(spec)
    if kind == "size":
        return sizes[name], {}
    if kind == "scalar":
        return {"R": lambda: round(rng.uniform(-3, 3), 2), "I": lambda: rng.randint(0, 4), "B": lambda: rng.random() < 0.5}[extra](), {}
    ns = [int(d) if d.isdigit() else sizes[d] for d in dims]
    if kind == "list" and extra == "ragged":
        xs = [onp.array([rng.uniform(-2, 2) for _ in range(rng.randint(1, 3))]) for _ in range(ns[0])]
        return xs, {name: lambda k, i: float(xs[k][i]), name + "_len": lambda k: len(xs[k])}
    bound = spec.split("<")[1] if "<" in spec else None
    if extra == "f":
        a = onp.array([round(rng.choice([rng.uniform(-2, 2), rng.choice([-1.0, 0.0, 1.0])]), 3) for _ in range(math.prod(ns))])
    elif extra == "b":
        a = onp.array([rng.random() < 0.5 for _ in range(math.prod(ns))])
    else:
        top = sizes[bound] if bound in sizes else int(bound or 3)
        a = onp.array([rng.randrange(top) for _ in range(math.prod(ns))], int)
    if bound == "pos":
        a = onp.abs(a) + 0.25
    a = a.reshape(ns)
    fun = {name: lambda *ix: a[tuple(int(i) for i in ix)].item()}
    if kind == "list":
        return [x.item() if x.ndim == 0 else x for x in a], fun
    return a, fun


# ------------------------------------------------------------------ cases


def run_case(fn, samples, seed):
    specs = {p.name: p.annotation for p in inspect.signature(fn).parameters.values()}
    eng = Engine()
    vals.set_engine(eng)
    sizes = sorted({d for s in specs.values() for d in parse(s)[1] if not d.isdigit()} | {k for k, s in specs.items() if s == "size"})

    def run():
        for s in sizes:
            eng.ctx.assume(lt(ZERO, sym(s)))
        for name, spec in specs.items():
            if parse(spec)[2] == "ragged":
                k = ir.fresh("k")
                eng.ctx.assume(le(ZERO, app(name + "_len", [k], "I")))
        return eng.call_function(fn, [symbolic(k, s) for k, s in specs.items()], {})

    results = eng.explore(run)
    rng = random.Random(seed)
    n = flagged = 0  # flagged: the symbolic run has a failed obligation, as it should
    for _ in range(samples):
        sz = {s: rng.randint(*SIZES[s]) for s in sizes}
        args, funs, syms = [], {}, dict(sz)
        for name, spec in specs.items():
            v, f = concrete(name, spec, sz, rng)
            args.append(v)
            funs.update(f)
            if parse(spec)[0] == "scalar":
                syms[name] = v
        w = World(syms, funs)
        try:
            want = ("return", native_value(fn(*[onp.array(a) if isinstance(a, onp.ndarray) else (list(a) if isinstance(a, list) else a) for a in args])))
        except (ValueError, KeyError, AssertionError, IndexError, TypeError) as e:
            want = ("raise", type(e).__name__)
        hits = []
        for kind, v, ctx, log in results:
            try:
                ok = all(w.ev(f) for f in ctx.facts if not any(s.op == "sym" and s.args[0] not in w.syms for s in ir.subterms(f)))
            except Mismatch:
                ok = True
            if ok:
                hits.append((kind, v, ctx))
        if len(hits) != 1:
            if any(not o.ok for o in eng.obligations):
                flagged += 1
                continue
            raise Mismatch(f"{len(hits)} of {len(results)} paths apply to {args}")
        kind, v, ctx = hits[0]
        old, eng.ctx = eng.ctx, ctx
        try:
            got = (kind, value(eng, v, w) if kind == "return" else getattr(v, "__name__", type(v).__name__))
        finally:
            eng.ctx = old
        if want[0] == "raise" and got[0] == "return" and any(not o.ok for o in eng.obligations):
            flagged += 1
            continue
        if want[0] != got[0] or (want[0] == "return" and not same(got[1], want[1])):
            raise Mismatch(f"inputs {dict(zip(specs, args))}: symbolic result {got}, Python {want}")
        n += 1
    return n


def native_value(v):
    if isinstance(v, (list, tuple)) or type(v).__name__ in ("dict_keys", "dict_values", "dict_items", "odict_keys", "odict_values"):
        return [native_value(x) for x in v]
    if isinstance(v, dict):
        return {k: native_value(x) for k, x in v.items()}
    if isinstance(v, (onp.ndarray, jax.Array)):
        return onp.asarray(v)
    return v


def run_all(samples=6, seed=0, names=(), verbose=False):
    from . import conformance_cases as cc

    out = {"cases": 0, "inputs": 0, "outside": [], "mismatches": []}
    t0 = time.time()
    for name, fn in cc.CASES.items():
        if names and name not in names:
            continue
        out["cases"] += 1
        try:
            out["inputs"] += run_case(fn, samples, seed)
        except Unsupported as e:
            out["outside"].append(name)
            if verbose:
                print(f"outside  {name}: {str(e)[:200]}")
        except Mismatch as e:
            out["mismatches"].append(f"{name}: {str(e)[:600]}")
            if verbose:
                print(f"MISMATCH {name}: {str(e)[:900]}")
        except Exception as e:  # noqa
            out["mismatches"].append(f"{name}: {type(e).__name__}: {str(e)[:400]}")
            if verbose:
                import traceback

                traceback.print_exc()
                print(f"MISMATCH {name}: {type(e).__name__}: {str(e)[:400]}")
    out["seconds"] = round(time.time() - t0, 1)
    return out


if __name__ == "__main__":
    r = run_all(int(os.environ.get("SAMPLES", "6")), int(os.environ.get("VERIF_SEED", "0")), sys.argv[1:], True)
    print(f"{r['cases']} functions, {r['inputs']} inputs agree, {len(r['outside'])} outside the verifier's reach, {len(r['mismatches'])} mismatches, {r['seconds']} s")
    if "JSON" in os.environ:
        json.dump(r, open(os.environ["JSON"], "w"))
    sys.exit(1 if r["mismatches"] else 0)
