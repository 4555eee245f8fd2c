class SimpleNamespace(object):
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def __eq__(self, o):
        return isinstance(o, SimpleNamespace) and self.__dict__ == o.__dict__


def MappingProxyType(d):
    return d
