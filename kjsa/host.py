"""What the real Python types offer, so that a gap of the models is reported as
'undecided' and never as an exception of the analysed program."""
import builtins
import collections
import functools
import importlib
import sys
import types
from .values import *


def _gen():
    yield


_F = lambda: 0
_SAMPLES = {
    FuncO: _F, Native: len, PartialO: functools.partial(len), CodeO: _F.__code__,
    Tup: (), Lin: 0,
}


class _C:
    def m(self):
        pass


_SAMPLES[BoundO] = _C().m


def sample(o):
    """an instance of the host type of an abstract value, or None"""
    t = type(o)
    if t is Const:
        return o.v if o.v is not None else _NONE
    if t in _SAMPLES:
        return _SAMPLES[t]
    if t is ListO:
        return collections.deque() if o.kind == 'deque' else []
    if t is SetO:
        return frozenset() if o.kind == 'frozenset' else set()
    if t is DictO:
        return collections.defaultdict(list) if o.factory else {}
    if t is GenO:
        return _gen()
    if t is ClassO:
        return getattr(builtins, o.builtin, type) if o.builtin else _C
    if t is Obj:
        return host_class(o.cls) or object()
    if t is ModO:
        return host_module(o.name) or sys
    ty = getattr(o, 'ty', None)
    return {'str': '', 'int': 0, 'bool': True, 'bytes': b''}.get(ty)


class _N:
    pass


_NONE = _N()


def host_module(name):
    if name.split('.')[0] in sys.stdlib_module_names:
        try:
            return importlib.import_module(name)
        except ImportError:
            return None
    return None


def host_class(cls):
    for c in cls.mro:
        if c.module and not c.module.startswith('kajiki'):
            nm = 'builtins' if c.module == 'builtins_exc' else c.module
            m = host_module(nm)
            h = getattr(m, c.name, None) if m else None
            if isinstance(h, type):
                return h
    return None


def has(o, name):
    """does the host type of ``o`` have this attribute?"""
    t = type(o)
    if t is Const and o.v is None:
        return hasattr(None, name)
    if t is ModO:
        m = host_module(o.name)
        if m is not None:
            return hasattr(m, name)
        return not o.name.startswith('kajiki') and o.name != 'builtins'
    if t is GenO:
        return hasattr(sample(o), name) or name in ('__length_hint__', '__reduce__')
    if t is Obj:
        if hasattr(object, name):
            return True
        h = host_class(o.cls)
        if h is None:
            return any(c.builtin for c in o.cls.mro if c.builtin and c.builtin != 'object'
                       and hasattr(getattr(builtins, c.builtin, None), name))
        if hasattr(h, name):
            return True
        init = getattr(h, '__init__', None)
        code = getattr(init, '__code__', None)
        return bool(code) and name in code.co_names
    if t is ClassO:
        if hasattr(type, name):
            return True
        h = getattr(builtins, o.builtin, None) if o.builtin else host_class(o)
        return h is not None and hasattr(h, name)
    s = sample(o)
    return s is not None and hasattr(s, name)


def builtin_name(name):
    return hasattr(builtins, name)
