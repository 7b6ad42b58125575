"""Loading the instrumented code, typing/stdlib shells shared by all contract files, and the coroutine driver."""
import builtins
import collections.abc
import os
import sys
import types
import warnings
import engine
import focus
from engine import cur, Unsupported, PathEnd, Engine, ENGINE_FILES
from focus import Mod, NoContract, base_builtins
from instrument import instrument

ENGINE_FILES.add(__file__)
warnings.simplefilter('ignore')
ROOT = os.environ.get('DV_ROOT', '/repo')
_codes = {}


def code(modname):
    if modname not in _codes:
        path = f'{ROOT}/aiuti/{modname}.py'
        with open(path) as f:
            src = f.read()
        _codes[modname] = instrument(src, path, modname)
    return _codes[modname]


def functions(modname):
    return code(modname)[1]


def load(modname, imports, **over):
    """Execute the instrumented module afresh with model modules instead of its imports."""
    c, _ = code(modname)
    imports.setdefault('logging', focus.null_logging())
    imports.setdefault('.typing', LenientTyping('aiuti.typing'))
    imports.setdefault('typing', TYPING)
    imports.setdefault('typing_extensions', TYPING)
    imports.setdefault('collections.abc', TYPING)
    imports.setdefault('functools', functools_mod())
    m = types.ModuleType(f'aiuti.{modname}')
    m.__dict__['__builtins__'] = base_builtins(imports, **over)
    m.__dict__['__name__'] = f'aiuti.{modname}'
    focus.LOADING.append(1)
    try:
        exec(c, m.__dict__)
    finally:
        focus.LOADING.pop()
    return m


class TName:
    """A typing name: subscriptable, usable as base class and in isinstance()."""

    def __init__(self, name):
        self.__dict__['name'] = name

    def __getitem__(self, i):
        return self

    def __call__(self, *a, **k):
        return self

    def __mro_entries__(self, bases):
        return ()

    def __or__(self, o):
        return self

    __ror__ = __or__

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        return self

    def __instancecheck__(self, x):
        f = getattr(type(x), '_dv_isinstance', None)
        if f is not None:
            return f(x, self.name)
        real = getattr(collections.abc, self.name, None)
        if real is None:
            real = {'List': list, 'Dict': dict, 'Set': set, 'Tuple': tuple}.get(self.name)
        if real is None:
            raise Unsupported(f'isinstance(..., {self.name})')
        return isinstance(x, real)

    def _dv_state(self):
        return (self.name,)


class LenientTyping(Mod):
    def __init__(self, name):
        super().__init__(name, cast=lambda t, x: x, overload=lambda f: f, TYPE_CHECKING=False, final=lambda f: f)

    def __getattr__(self, n):
        if n.startswith('__') or n.startswith('_dv'):
            raise AttributeError(n)
        if n == 'NamedTuple':
            import typing
            return typing.NamedTuple
        t = self.__dict__[n] = TName(n)
        return t


TYPING = LenientTyping('typing')


def functools_mod():
    import functools

    def wraps(w, assigned=functools.WRAPPER_ASSIGNMENTS, updated=functools.WRAPPER_UPDATES):
        def deco(f):
            for a in assigned:
                try:
                    setattr(f, a, getattr(w, a))
                except AttributeError:
                    pass
            try:
                f.__wrapped__ = w
            except AttributeError:
                pass
            return f
        return deco
    return Mod('functools', partial=functools.partial, wraps=wraps, reduce=functools.reduce, update_wrapper=lambda f, w: wraps(w)(f),
               partialmethod=functools.partialmethod, singledispatch=functools.singledispatch,
               cached_property=functools.cached_property, total_ordering=functools.total_ordering)


class Susp:
    """What a model awaitable hands to the driver."""

    def __init__(self, what):
        self.what = what

    def _dv_state(self):
        return (self.what,)


class Awaits:
    """Awaitable that suspends once with `self` and returns what the driver sends."""

    def __await__(self):
        return (yield self)


ENGINE_FILES.update({focus.__file__, engine.__file__})
