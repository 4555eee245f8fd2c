class _File(object):
    def __init__(self, filename, mode, encoding):
        self.name = filename
        self.mode = mode
        self.encoding = encoding
        self.closed = False
        __event__('file.open', self, filename, mode, encoding)

    def read(self, *a):
        __event__('file.read', self)
        return __hook__('file.read', self)

    def readlines(self):
        return self.read().splitlines(True)

    def readline(self):
        raise NotImplementedError('readline')

    def write(self, data):
        __event__('file.write', self, data)

    def __iter__(self):
        return iter(self.readlines())

    def close(self):
        if not self.closed:
            __event__('file.close', self)
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def open(filename, mode='r', buffering=-1, encoding=None, errors=None, newline=None):
    if not isinstance(filename, str):
        filename = str(filename)
    __hook__('file.may_fail', filename)
    return _File(filename, mode, encoding)


class BytesIO(object):
    def __init__(self, data=b''):
        self._data = data

    def read(self, *a):
        return self._data

    def getvalue(self):
        return self._data

    def close(self):
        pass


class StringIO(object):
    def __init__(self, data='', newline='\n'):
        self._data = data or ''
        self._pos = 0
        self.closed = False

    def read(self, size=-1):
        if size is None or size < 0:
            r = self._data[self._pos:] if self._pos else self._data
            self._pos = len(self._data)
        else:
            r = self._data[self._pos:self._pos + size]
            self._pos = self._pos + len(r)
        return r

    def readlines(self):
        return self.read().splitlines(True)

    def readline(self):
        rest = self._data[self._pos:]
        i = rest.find('\n')
        r = rest if i < 0 else rest[:i + 1]
        self._pos = self._pos + len(r)
        return r

    def seek(self, pos, whence=0):
        self._pos = pos
        return pos

    def tell(self):
        return self._pos

    def write(self, s):
        self._data = self._data + s
        return len(s)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def getvalue(self):
        return self._data

    def close(self):
        self.closed = True

    def __iter__(self):
        return iter(self.readlines())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
