class _Logger(object):
    def debug(self, *a, **k):
        pass
    info = warning = error = exception = log = debug


def getLogger(name=None):
    return _Logger()
