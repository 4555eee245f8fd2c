_MISSING = object()
MISSING = _MISSING


class _Field(object):
    def __init__(self, default, default_factory, init, compare, repr):
        self.default = default
        self.default_factory = default_factory
        self.init = init
        self.compare = compare
        self.repr = repr
        self.name = None


def field(default=_MISSING, default_factory=_MISSING, init=True, repr=True, hash=None,
          compare=True, metadata=None, kw_only=False):
    return _Field(default, default_factory, init, compare, repr)


def fields(cls):
    return tuple(cls.__dataclass_fields__.values())


def asdict(o):
    return dict([(f.name, getattr(o, f.name)) for f in fields(o)])


def replace(o, **kw):
    d = asdict(o)
    d.update(kw)
    return type(o)(**d)


class FrozenInstanceError(AttributeError):
    pass


def dataclass(cls=None, init=True, repr=True, eq=True, order=False, unsafe_hash=False,
              frozen=False, slots=False, kw_only=False):
    def deco(cls):
        return _process(cls, init, repr, eq, frozen)
    if cls is None:
        return deco
    return deco(cls)


def _process(cls, init, repr_, eq, frozen):
    fs = {}
    for b in reversed(cls.__mro__[1:]):
        for f in getattr(b, '__dataclass_fields__', {}).values():
            fs[f.name] = f
    for name, ann in cls.__dict__.get('__annotations__', {}).items():
        if 'ClassVar' in ann:
            continue
        v = cls.__dict__.get(name, _MISSING)
        if isinstance(v, _Field):
            f = v
            if f.default is not _MISSING:
                setattr(cls, name, f.default)
            else:
                delattr(cls, name)
        else:
            f = _Field(v, _MISSING, True, True, True)
        f.name = name
        fs[name] = f
    cls.__dataclass_fields__ = fs

    def __init__(self, *args, **kw):
        args = list(args)
        for f in fs.values():
            if f.init and args:
                if f.name in kw:
                    raise TypeError('got multiple values for argument')
                v = args.pop(0)
            elif f.init and f.name in kw:
                v = kw.pop(f.name)
            elif f.default is not _MISSING:
                v = f.default
            elif f.default_factory is not _MISSING:
                v = f.default_factory()
            elif not f.init:
                continue
            else:
                raise TypeError('missing required argument %r' % (f.name,))
            self.__dict__[f.name] = v
        if args or kw:
            raise TypeError('unexpected arguments')
        if hasattr(self, '__post_init__'):
            self.__post_init__()

    def __eq__(self, other):
        if type(self) is not type(other):
            return NotImplemented
        return [getattr(self, f.name) for f in fs.values() if f.compare] == \
            [getattr(other, f.name) for f in fs.values() if f.compare]

    def __repr__(self):
        return '%s(%s)' % (cls.__name__, ', '.join(
            ['%s=%r' % (f.name, getattr(self, f.name)) for f in fs.values() if f.repr]))

    def __setattr__(self, name, value):
        raise FrozenInstanceError('cannot assign to field %r' % (name,))
    if init and '__init__' not in cls.__dict__:
        cls.__init__ = __init__
    if eq and '__eq__' not in cls.__dict__:
        cls.__eq__ = __eq__
    if repr_ and '__repr__' not in cls.__dict__:
        cls.__repr__ = __repr__
    if frozen:
        cls.__setattr__ = __setattr__
    return cls
