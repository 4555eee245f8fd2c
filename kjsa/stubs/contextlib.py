class _GenCM(object):
    def __init__(self, gen):
        self.gen = gen

    def __enter__(self):
        return next(self.gen)

    def __exit__(self, typ, value, tb):
        if typ is None:
            for _ in self.gen:
                raise RuntimeError("generator didn't stop")
            return False
        try:
            self.gen.throw(value)
        except StopIteration:
            return True
        except BaseException as e:
            if e is value:
                return False
            raise
        raise RuntimeError("generator didn't stop after throw()")


def contextmanager(f):
    def helper(*a, **kw):
        return _GenCM(f(*a, **kw))
    return helper


class closing(object):
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *a):
        self.thing.close()


class suppress(object):
    def __init__(self, *excs):
        self.excs = excs

    def __enter__(self):
        return self

    def __exit__(self, typ, value, tb):
        return typ is not None and issubclass(typ, self.excs)


class nullcontext(object):
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, *a):
        return None


class ContextDecorator(object):
    def __call__(self, f):
        def inner(*a, **kw):
            with self:
                return f(*a, **kw)
        return inner


class AbstractContextManager(object):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


class ExitStack(object):
    def __init__(self):
        self._cbs = []

    def enter_context(self, cm):
        v = cm.__enter__()
        self._cbs.append(cm.__exit__)
        return v

    def push(self, cm):
        self._cbs.append(cm.__exit__ if hasattr(cm, '__exit__') else cm)
        return cm

    def callback(self, f, *a, **kw):
        def cb(t, v, tb):
            f(*a, **kw)
        self._cbs.append(cb)
        return f

    def pop_all(self):
        s = ExitStack()
        s._cbs = self._cbs
        self._cbs = []
        return s

    def close(self):
        self.__exit__(None, None, None)

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        done = False
        while self._cbs:
            cb = self._cbs.pop()
            try:
                if cb(t, v, tb):
                    t = v = tb = None
                    done = True
            except BaseException as e:
                if not self._cbs:
                    raise
                t, v, tb = type(e), e, None
        if v is not None and done:
            raise v
        return done

