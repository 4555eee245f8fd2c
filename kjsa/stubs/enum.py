class _Auto(object):
    pass


def auto():
    return _Auto()


def unique(cls):
    return cls


class Enum(object):
    def __init_subclass__(cls):
        members = []
        n = 0
        for k, v in list(cls.__dict__.items()):
            if k.startswith('_') or callable(v) or isinstance(v, (property, staticmethod, classmethod)):
                continue
            n = n + 1
            if isinstance(v, _Auto):
                v = n
            elif isinstance(v, int):
                n = v
            m = object.__new__(cls)
            m.name = m._name_ = k
            m.value = m._value_ = v
            setattr(cls, k, m)
            members.append(m)
        cls.__enum_members__ = members
        cls.__members__ = dict([(m.name, m) for m in members])

    def __new__(cls, value):
        for m in cls.__enum_members__:
            if m.value == value:
                return m
        raise ValueError('%r is not a valid %s' % (value, cls.__name__))

    def __init__(self, *a):
        pass

    @classmethod
    def _iter_members_(cls):
        return cls.__enum_members__

    def __repr__(self):
        return '<%s.%s: %r>' % (type(self).__name__, self.name, self.value)

    def __str__(self):
        return '%s.%s' % (type(self).__name__, self.name)
