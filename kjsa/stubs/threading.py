class local(object):
    """attributes are kept by thread (scenarios say which thread runs)"""
    def __getattr__(self, name):
        v = __hook__('local.get', self, name)
        if v is None:
            raise AttributeError(name)
        return v[0]

    def __setattr__(self, name, value):
        __hook__('local.set', self, name, (value,))


class Lock(object):
    def acquire(self, *a):
        return True

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class RLock(Lock):
    pass


class _Thread(object):
    name = 'MainThread'


def current_thread():
    return _Thread()


def get_ident():
    return __hook__('thread')
