from os import path
sep = '/'
linesep = '\n'
pathsep = ':'


class _Stat(object):
    def __init__(self, filename):
        self.st_mtime = __hook__('os.mtime', filename)
        self.st_size = __fresh__('st_size')


def stat(filename):
    if filename is None:
        raise TypeError('stat: path should be string, bytes, os.PathLike or integer, not NoneType')
    __event__('os.stat', filename)
    return _Stat(filename)


def listdir(p):
    return __hook__('os.listdir', p)
