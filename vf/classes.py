"""Classes known by their bases and attributes, and classes defined inside a verified function."""
import builtins
import functools
import inspect
import types
import typing

import overrides

from . import library  # noqa: F401
from .interp import Bound, Closure, PyExc, model
from .vals import Abstract, Fn, Unsupported, engine


class ClassMethod:
    def __init__(self, f):
        self.f = f


class StaticMethod:
    def __init__(self, f):
        self.f = f


class Cached:
    """functools.lru_cache(maxsize)(f)"""

    def __init__(self, f, maxsize):
        self.f, self.maxsize = f, maxsize


model(builtins.classmethod)(lambda eng, f: ClassMethod(f))
model(builtins.staticmethod)(lambda eng, f: StaticMethod(f))
model(overrides.overrides, overrides.final, overrides.override, typing.final)(lambda eng, f=None, **kw: f if f is not None else Fn(lambda g: g))


@model(inspect.isabstract)
def _isabstract(eng, cls):
    if isinstance(cls, ClassVal):
        return cls.is_abstract()
    return inspect.isabstract(cls)


class ClassVal(Abstract):
    """A class with one base, which may be such a class itself."""

    def __init__(self, name, base, attrs):
        self.name, self.base, self.attrs = name, base, dict(attrs)

    def is_abstract(self):
        if isinstance(self.base, ClassVal) and not self.base.is_abstract():
            return False
        return any(all(n not in k.attrs for k in self.line()) for n in self.native().__abstractmethods__)

    def line(self):
        """The class and its bases among the classes known this way."""
        return [self] + (self.base.line() if isinstance(self.base, ClassVal) else [])

    def native(self):
        return self.base.native() if isinstance(self.base, ClassVal) else self.base

    def lookup(self, name):
        if name in self.attrs:
            return self.attrs[name]
        if isinstance(self.base, ClassVal):
            return self.base.lookup(name)
        for k in self.base.__mro__:
            if (k, name) in engine().class_attrs:
                return engine().class_attrs[k, name]
            if name in k.__dict__:
                return k.__dict__[name]
        raise PyExc(AttributeError)

    def getattr(self, name):
        if name in ("__name__", "__qualname__"):
            return self.name
        if name == "__dict__":
            return types.MappingProxyType(self.attrs)
        v = self.lookup(name)
        if isinstance(v, (classmethod, ClassMethod)):
            return Bound(v.__func__ if isinstance(v, classmethod) else v.f, self)
        if isinstance(v, staticmethod):
            return v.__func__
        if isinstance(v, StaticMethod):
            return v.f
        return v

    def setattr(self, eng, name, v):
        if eng.frames or eng.merge:
            raise Unsupported("class changed under a condition")
        self.attrs[name] = v

    def call(self, args, kw):
        if args or kw:
            raise PyExc(TypeError)
        return Instance(self)

    def issubclass(self, eng, t):
        return t in self.line() or isinstance(t, type) and issubclass(self.native(), t)

    def eq(self, eng, other):
        return self is other

    def require_equal(self, eng, got, what):
        identical(eng, got, self, what)


class Instance(Abstract):
    def __init__(self, cls):
        self.cls = cls

    def getattr(self, name):
        if name == "__class__":
            return self.cls
        v = self.cls.lookup(name)
        if isinstance(v, (classmethod, ClassMethod, staticmethod, StaticMethod)):
            return self.cls.getattr(name)
        return Bound(v, self) if callable(v) else v

    def isinstance(self, eng, t):
        return self.cls.issubclass(eng, t)

    def eq(self, eng, other):
        return self is other


def identical(eng, got, want, what):
    if got is want:
        return eng.require(True, what)
    eng.fail(what, f"{getattr(got, 'name', got)} is another object")


def define(eng, s, env):
    """class statement"""
    if s.keywords or len(s.bases) != 1 or s.decorator_list:
        raise Unsupported("class definition")
    base = eng.ev(s.bases[0], env)
    base = typing.get_origin(base) or base
    if not isinstance(base, type):
        raise Unsupported("base class")
    body = type(env)(env, env.glob)
    k, _ = eng.exec_block(s.body, body)
    cls = ClassVal(s.name, base, body.vars)
    hook = eng.class_attr(base, "__init_subclass__")
    if isinstance(hook, classmethod):
        hook = hook.__func__
    if hook is not object.__init_subclass__:
        eng.call(hook, [cls], {})
    env.set(s.name, cls)
