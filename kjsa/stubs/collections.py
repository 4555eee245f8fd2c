class _NTBase(object):
    _slices_ = True

    def __init__(self, *args, **kw):
        names = self._fields
        if len(args) > len(names):
            raise TypeError('too many arguments')
        d = self.__dict__
        for n, v in zip(names, args):
            d[n] = v
        for n in names[len(args):]:
            if n in kw:
                d[n] = kw.pop(n)
            elif n in self._field_defaults:
                d[n] = self._field_defaults[n]
            else:
                raise TypeError('missing argument %r' % (n,))
        if kw:
            raise TypeError('unexpected arguments')

    def _tuple(self):
        return tuple([self.__dict__[n] for n in self._fields])

    def __iter__(self):
        return iter(self._tuple())

    def __len__(self):
        return len(self._fields)

    def __bool__(self):
        return len(self._fields) > 0

    def __getitem__(self, i):
        if isinstance(i, tuple):
            return self._tuple()[i[0]:i[1]:i[2]]
        return self._tuple()[i]

    def __contains__(self, x):
        return x in self._tuple()

    def __eq__(self, o):
        if isinstance(o, _NTBase):
            return self._tuple() == o._tuple()
        return self._tuple() == o

    def __lt__(self, o):
        return self._tuple() < tuple(o)

    def __gt__(self, o):
        return self._tuple() > tuple(o)

    def __add__(self, o):
        return self._tuple() + tuple(o)

    def __setattr__(self, n, v):
        raise AttributeError("can't set attribute")

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, ', '.join(
            ['%s=%r' % (n, self.__dict__[n]) for n in self._fields]))

    def _replace(self, **kw):
        d = dict(zip(self._fields, self._tuple()))
        d.update(kw)
        return type(self)(**d)

    def _asdict(self):
        return dict(zip(self._fields, self._tuple()))

    def index(self, x):
        return self._tuple().index(x)

    def count(self, x):
        return self._tuple().count(x)

    @classmethod
    def _make(cls, it):
        return cls(*it)


def namedtuple(name, fields, rename=False, defaults=None, module=None):
    if isinstance(fields, str):
        fields = fields.replace(',', ' ').split()
    fields = tuple(fields)
    d = {}
    if defaults:
        defaults = list(defaults)
        d = dict(zip(fields[len(fields) - len(defaults):], defaults))
    return type(name, (_NTBase,), {'_fields': fields, '_field_defaults': d})


class Counter(dict):
    def __init__(self, it=(), **kw):
        super(Counter, self).__init__()
        if isinstance(it, dict):
            for k, v in it.items():
                self[k] = v
        else:
            for x in it:
                self[x] = self.get(x, 0) + 1
        for k, v in kw.items():
            self[k] = v

    def __missing__(self, k):
        return 0

    def most_common(self, n=None):
        items = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return items if n is None else items[:n]

    def update(self, it=()):
        for x in it:
            self[x] = self.get(x, 0) + 1


class ChainMap(object):
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, k):
        for m in self.maps:
            if k in m:
                return m[k]
        raise KeyError(k)

    def __contains__(self, k):
        return any([k in m for m in self.maps])

    def get(self, k, default=None):
        return self[k] if k in self else default

    def __setitem__(self, k, v):
        self.maps[0][k] = v

    def __delitem__(self, k):
        del self.maps[0][k]

    def keys(self):
        out = {}
        for m in reversed(self.maps):
            out.update(m)
        return out.keys()

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.keys())

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def values(self):
        return [self[k] for k in self.keys()]

    def new_child(self, m=None):
        return ChainMap(m if m is not None else {}, *self.maps)

    @property
    def parents(self):
        return ChainMap(*self.maps[1:])


class UserDict(object):
    def __init__(self, d=None, **kw):
        self.data = {}
        if d is not None:
            self.update(d)
        self.update(kw)

    def update(self, d=(), **kw):
        d = dict(d, **kw)
        for k in d:
            self[k] = d[k]

    def __getitem__(self, k):
        if k in self.data:
            return self.data[k]
        if hasattr(self, '__missing__'):
            return self.__missing__(k)
        raise KeyError(k)

    def __setitem__(self, k, v):
        self.data[k] = v

    def __delitem__(self, k):
        del self.data[k]

    def __contains__(self, k):
        return k in self.data

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)

    def keys(self):
        return self.data.keys()

    def items(self):
        return self.data.items()

    def values(self):
        return self.data.values()

    def get(self, k, default=None):
        return self[k] if k in self else default

    def pop(self, k, *d):
        return self.data.pop(k, *d)

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]
