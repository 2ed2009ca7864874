"""Statements with a meaning of their own inside symbolic loops."""
import ast

from .ir import ONE, ZERO, Term, add, le, lift, sub
from .vals import Comp, Item, SDict, SSet, Seq, Unsupported


def same(a, b):
    return ast.dump(a) == ast.dump(b)


def load(t):
    """The target of an assignment, as an expression."""
    return ast.parse(ast.unparse(t), mode="eval").body


def is_empty_list(e):
    return isinstance(e, ast.List) and not e.elts or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "list" and not e.args


def entry(s):
    """(container, key, value) of a statement `container[key] = value`"""
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript):
        t = load(s.targets[0])
        return t.value, t.slice, s.value
    return None


def method(s, *names):
    """(receiver, argument) of a statement `receiver.name(argument)`"""
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in names and len(s.value.args) == 1 and not s.value.keywords:
        return s.value.func.value, s.value.args[0]
    return None


def simple(e):
    return all(isinstance(n, (ast.Name, ast.Attribute, ast.Load, ast.Call, ast.Subscript, ast.Constant)) and not (isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id == "type")) for n in ast.walk(e))


def insertion(eng, s, rest, env):
    """`if x not in c: ...` where the body inserts x.  True if done; "all" if `rest` is done as well."""
    t = s.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.In, ast.NotIn))):
        return False
    x, c = t.left, t.comparators[0]
    if not (simple(x) and isinstance(c, (ast.Name, ast.Attribute)) and simple(c)):
        return False
    present, absent = (s.body, s.orelse) if isinstance(t.ops[0], ast.In) else (s.orelse, s.body)
    whole = False
    if len(present) == 1 and isinstance(present[0], ast.Continue) and not absent:
        # the rest of the loop body is for new elements only
        present, absent, whole = [], rest, True
    o = eng.ev(c, env)
    if isinstance(o, SSet):
        o = o.seq
    if not isinstance(o, (SDict, Seq)) or o.depth >= eng.depth or not absent:
        return False
    if isinstance(o, SDict):
        if len(absent) != 1:
            return False
        e = entry(absent[0])
        if e is None or not same(e[0], c) or not same(e[1], x):
            return False
        if not present and (is_empty_list(e[2]) or isinstance(e[2], ast.Constant) and e[2].value is None):
            eng.call(eng.getattr(o, "setdefault"), [eng.ev(x, env), eng.ev(e[2], env)], {})
            return "all" if whole else True
        if len(present) == 1 and isinstance(e[2], ast.List) and len(e[2].elts) == 1:
            m = method(present[0], "append")
            if m is not None and same(m[1], e[2].elts[0]) and isinstance(m[0], ast.Subscript) and same(m[0].value, c) and same(m[0].slice, x):
                b = eng.call(eng.getattr(o, "setdefault"), [eng.ev(x, env), Seq([], "list")], {})
                eng.call(eng.getattr(b, "append"), [eng.ev(m[1], env)], {})
                return True
        return False
    if present:
        return False
    from .models import Once

    targets = []
    for a in absent:
        m, e = method(a, "append", "add"), entry(a)
        if m is not None and same(m[1], x):
            r = eng.ev(m[0], env)
        elif e is not None and same(e[1], x) and isinstance(e[2], ast.Constant) and e[2].value is None:
            r = eng.ev(e[0], env)
        else:
            return False
        r = r.seq if isinstance(r, SSet) else r
        if not isinstance(r, Seq) or r.depth >= eng.depth or any(r is q for q in targets):
            return False
        targets.append(r)
    if not any(r is o for r in targets):
        return False
    v = eng.ev(x, env)
    for r in targets:
        eng.touch(r)
        r.parts = r.parts + [Item(Once(v))]
    return "all" if whole else True


def joined(s):
    """`if c: xs.append(a)  else: xs.append(b)` as one statement"""
    if len(s.body) != 1 or len(s.orelse) != 1:
        return None
    a, b = s.body[0], s.orelse[0]
    m, q = method(a, "append"), method(b, "append")
    if m is not None and q is not None and same(m[0], q[0]):
        return ast.Expr(ast.Call(ast.Attribute(m[0], "append", ast.Load()), [ast.IfExp(s.test, m[1], q[1])], []))
    m, q = entry(a), entry(b)
    if m is not None and q is not None and same(m[0], q[0]) and same(m[1], q[1]):
        return ast.Assign([a.targets[0]], ast.IfExp(s.test, m[2], q[2]), lineno=0)
    return None


def unfiltered(g):
    """sum(e for x in xs if c) as the sum of `e if c else 0`"""
    last = g.generators[-1]
    if not last.ifs or any(q.ifs for q in g.generators[:-1]):
        return g
    cond = last.ifs[0] if len(last.ifs) == 1 else ast.BoolOp(ast.And(), last.ifs)
    gens = g.generators[:-1] + [ast.comprehension(last.target, last.iter, [], last.is_async)]
    return ast.GeneratorExp(ast.IfExp(cond, g.elt, ast.Constant(0)), gens)


def counting_loop(eng, s, env):
    """`while i < n: ...; i += 1` as a loop over range(i, n)"""
    from .interp import assigned_names, written_names

    t, last = s.test, s.body[-1]
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name)):
        return False
    i, bound = t.left.id, t.comparators[0]
    if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == i and isinstance(last.value, ast.Constant) and last.value.value == 1):
        return False
    if any(isinstance(n, (ast.Break, ast.Return, ast.Continue, ast.While, ast.Nonlocal)) for b in s.body for n in ast.walk(b)) or s.orelse:
        return False
    if not all(isinstance(n, (ast.Name, ast.Attribute, ast.Constant, ast.Load)) for n in ast.walk(bound)):
        return False
    body = ast.For(ast.Name("_", ast.Store()), bound, s.body[:-1], [])
    names = assigned_names(body)
    names += [x for x in written_names(body) if x not in names and eng.own_array(ast.Name(x), env) is not None]
    used = {n.id for n in ast.walk(bound) if isinstance(n, ast.Name)}
    if i in names or used & set(names) or any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) for b in s.body for n in ast.walk(b)):
        return False
    lo, hi = env.lookup(i), eng.ev(bound, env)
    if not all(isinstance(v, (int, Term)) and not isinstance(v, bool) for v in (lo, hi)) or not isinstance(hi, Term) and not isinstance(lo, Term):
        return False
    lo, hi = lift(lo), lift(hi)
    if lo.sort != "I" or hi.sort != "I" or not eng.ctx.quick(le(lo, hi)):
        return False

    def run(v):
        env.set(i, v)
        k, _ = eng.exec_block(s.body[:-1], env, "loop")

    env.vars.pop(i, None)
    eng.run_loop([Comp(sub(hi, lo), lambda m: [Item(add(lo, m))])], run, env, [n for n in names if n != "_"] + [i])
    env.set(i, hi)
    return True
