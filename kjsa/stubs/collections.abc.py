class Hashable(object):
    pass


class Callable(object):
    pass


class Sized(object):
    pass


class Container(object):
    pass


class Iterable(object):
    pass


class Iterator(Iterable):
    def __iter__(self):
        return self


class Generator(Iterator):
    def __next__(self):
        return self.send(None)


class Reversible(Iterable):
    pass


class Collection(Sized, Iterable, Container):
    pass


class Sequence(Reversible, Collection):
    def __iter__(self):
        i = 0
        try:
            while True:
                yield self[i]
                i += 1
        except IndexError:
            return

    def __contains__(self, v):
        return any([x == v for x in self])

    def __reversed__(self):
        return reversed(list(self))

    def index(self, v):
        return list(self).index(v)

    def count(self, v):
        return list(self).count(v)


class MutableSequence(Sequence):
    def append(self, v):
        self.insert(len(self), v)

    def extend(self, vs):
        for v in list(vs):
            self.append(v)

    def pop(self, i=-1):
        v = self[i]
        del self[i]
        return v

    def clear(self):
        while len(self):
            self.pop()

    def remove(self, v):
        del self[self.index(v)]

    def __iadd__(self, vs):
        self.extend(vs)
        return self


class Set(Collection):
    pass


class MutableSet(Set):
    pass


class Mapping(Collection):
    def get(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            return default

    def __contains__(self, k):
        try:
            self[k]
        except KeyError:
            return False
        return True

    def keys(self):
        return list(self)

    def items(self):
        return [(k, self[k]) for k in self]

    def values(self):
        return [self[k] for k in self]

    def __eq__(self, o):
        if not isinstance(o, (dict, Mapping)):
            return NotImplemented
        return dict(self.items()) == dict(o.items())


class MutableMapping(Mapping):
    def pop(self, k, *default):
        try:
            v = self[k]
        except KeyError:
            if not default:
                raise
            return default[0]
        del self[k]
        return v

    def popitem(self):
        for k in self:
            v = self[k]
            del self[k]
            return k, v
        raise KeyError

    def clear(self):
        for k in list(self):
            del self[k]

    def update(self, o=(), **kw):
        if isinstance(o, (dict, Mapping)):
            for k in o:
                self[k] = o[k]
        else:
            for k, v in o:
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def setdefault(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            self[k] = default
        return default


class KeysView(Set):
    pass


class ItemsView(Set):
    pass


class ValuesView(Collection):
    pass


class ByteString(Sequence):
    pass
