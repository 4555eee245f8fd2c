import io


class PurePath(object):
    def __init__(self, *parts):
        import os
        self._p = os.path.join(*[str(x) for x in parts]) if len(parts) > 1 else str(parts[0])

    def __str__(self):
        return self._p

    def __fspath__(self):
        return self._p


class Path(PurePath):
    def open(self, mode='r', buffering=-1, encoding=None, errors=None, newline=None):
        return io.open(self._p, mode, buffering, encoding, errors, newline)

    def read_text(self, encoding=None, errors=None):
        with io.open(self._p, 'r', -1, encoding) as f:
            return f.read()

    def read_bytes(self):
        with io.open(self._p, 'rb') as f:
            return f.read()

    def exists(self):
        import os
        return os.path.exists(self._p)
