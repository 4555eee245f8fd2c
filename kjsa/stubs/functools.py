WRAPPER_ASSIGNMENTS = ('__module__', '__name__', '__qualname__', '__doc__')
WRAPPER_UPDATES = ('__dict__',)


def update_wrapper(wrapper, wrapped, assigned=WRAPPER_ASSIGNMENTS,
                   updated=WRAPPER_UPDATES):
    for attr in assigned:
        try:
            value = getattr(wrapped, attr)
        except AttributeError:
            pass
        else:
            setattr(wrapper, attr, value)
    for k, v in list(getattr(wrapped, '__dict__', {}).items()):
        setattr(wrapper, k, v)
    wrapper.__wrapped__ = wrapped
    return wrapper


def wraps(wrapped, assigned=WRAPPER_ASSIGNMENTS, updated=WRAPPER_UPDATES):
    def deco(wrapper):
        return update_wrapper(wrapper, wrapped, assigned, updated)
    return deco


class partial(object):
    def __init__(self, func, *args, **kw):
        self.func = func
        self.args = args
        self.keywords = kw

    def __call__(self, *args, **kw):
        k = dict(self.keywords)
        k.update(kw)
        return self.func(*(tuple(self.args) + tuple(args)), **k)


def reduce(f, it, *init):
    it = iter(it)
    if init:
        acc = init[0]
    else:
        acc = next(it)
    for x in it:
        acc = f(acc, x)
    return acc


def lru_cache(maxsize=128, typed=False):
    def deco(f):
        memo = {}

        def inner(*args):
            if args in memo:
                return memo[args]
            r = f(*args)
            memo[args] = r
            return r
        return inner
    if callable(maxsize):
        f = maxsize
        maxsize = 128
        return deco(f)
    return deco


def cache(f):
    return lru_cache()(f)


class cached_property(object):
    def __init__(self, func):
        self.func = func
        self.attrname = None

    def __set_name__(self, owner, name):
        self.attrname = name

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        v = self.func(obj)
        setattr(obj, self.attrname, v)
        return v


class partialmethod(object):
    def __init__(self, func, *args, **kw):
        self.func = func
        self.args = args
        self.kw = kw

    def __get__(self, obj, owner=None):
        def f(*a, **k):
            kk = dict(self.kw)
            kk.update(k)
            return self.func(obj, *(tuple(self.args) + tuple(a)), **kk)
        return f


def singledispatch(func):
    table = {}

    def dispatch(cls):
        for c in cls.__mro__:
            if c in table:
                return table[c]
        return func

    def wrapper(*args, **kw):
        return dispatch(type(args[0]))(*args, **kw)

    def register(cls, f=None):
        if f is None:
            def deco(g):
                table[cls] = g
                return g
            return deco
        table[cls] = f
        return f
    wrapper.register = register
    wrapper.dispatch = dispatch
    return wrapper


def total_ordering(cls):
    if '__lt__' in cls.__dict__:
        cls.__gt__ = lambda self, o: not (self < o or self == o)
        cls.__le__ = lambda self, o: self < o or self == o
        cls.__ge__ = lambda self, o: not self < o
    elif '__gt__' in cls.__dict__:
        cls.__lt__ = lambda self, o: not (self > o or self == o)
        cls.__ge__ = lambda self, o: self > o or self == o
        cls.__le__ = lambda self, o: not self > o
    return cls


def cmp_to_key(f):
    class K(object):
        def __init__(self, v):
            self.v = v

        def __lt__(self, o):
            return f(self.v, o.v) < 0

        def __gt__(self, o):
            return f(self.v, o.v) > 0

        def __eq__(self, o):
            return f(self.v, o.v) == 0
    return K
