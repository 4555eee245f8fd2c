def itemgetter(*items):
    if len(items) == 1:
        return lambda o: o[items[0]]
    return lambda o: tuple([o[i] for i in items])


def _dotted(o, name):
    for n in name.split('.'):
        o = getattr(o, n)
    return o


def attrgetter(*names):
    if len(names) == 1:
        return lambda o: _dotted(o, names[0])
    return lambda o: tuple([_dotted(o, n) for n in names])


def methodcaller(name, *a, **k):
    return lambda o: getattr(o, name)(*a, **k)


def eq(a, b):
    return a == b


def ne(a, b):
    return a != b


def lt(a, b):
    return a < b


def le(a, b):
    return a <= b


def gt(a, b):
    return a > b


def ge(a, b):
    return a >= b


def add(a, b):
    return a + b


def not_(a):
    return not a


def is_(a, b):
    return a is b


def is_not(a, b):
    return a is not b


def contains(a, b):
    return b in a


def getitem(a, b):
    return a[b]
