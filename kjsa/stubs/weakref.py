class ref(object):
    def __init__(self, o, callback=None):
        self.o = o

    def __call__(self):
        return self.o


def proxy(o):
    return o


WeakKeyDictionary = WeakValueDictionary = dict
WeakSet = set
