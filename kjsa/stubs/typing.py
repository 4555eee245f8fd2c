from collections import namedtuple as _namedtuple
from collections import _NTBase

TYPE_CHECKING = False


class _Special(object):
    def __getitem__(self, k):
        return self

    def __or__(self, o):
        return self

    def __ror__(self, o):
        return self

    def __call__(self, *a, **k):
        return self


Any = Optional = Union = List = Dict = Set = FrozenSet = Tuple = Callable = Type = _Special()
Iterable = Iterator = Generator = Sequence = Mapping = MutableMapping = ClassVar = _Special()
Final = Literal = Text = AnyStr = NoReturn = IO = TextIO = BinaryIO = Hashable = Sized = _Special()
Collection = Container = Deque = DefaultDict = OrderedDict = Counter = ChainMap = _Special()
Pattern = Match = MutableSequence = MutableSet = Annotated = Awaitable = Coroutine = _Special()
ContextManager = SupportsInt = Reversible = KeysView = ItemsView = ValuesView = Self = _Special()


class Generic(object):
    @classmethod
    def __class_getitem__(cls, k):
        return cls


class Protocol(object):
    @classmethod
    def __class_getitem__(cls, k):
        return cls


class TypedDict(dict):
    pass


def TypeVar(name, *a, **k):
    return _Special()


ParamSpec = TypeVar


def NewType(name, tp):
    return lambda x: x


def cast(tp, v):
    return v


def overload(f):
    return f


def final(f):
    return f


def no_type_check(f):
    return f


def runtime_checkable(c):
    return c


class NamedTuple(_NTBase):
    def __init_subclass__(cls):
        if '_fields' in cls.__dict__:
            return
        ann = cls.__dict__.get('__annotations__', {})
        cls._fields = tuple(ann)
        cls._field_defaults = dict([(k, cls.__dict__[k]) for k in ann if k in cls.__dict__])
