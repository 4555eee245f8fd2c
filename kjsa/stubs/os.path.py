def exists(p):
    return __hook__('os.exists', p)


def isfile(p):
    return __hook__('os.exists', p)


def getmtime(p):
    import os
    return os.stat(p).st_mtime


def join(a, *rest):
    return __hook__('os.join', a, *rest)


def splitext(p):
    return __hook__('os.splitext', p)


def basename(p):
    return __hook__('os.basename', p)


def dirname(p):
    return __hook__('os.dirname', p)


def split(p):
    return (__hook__('os.dirname', p), __hook__('os.basename', p))


def abspath(p):
    return __hook__('os.abspath', p)


def normpath(p):
    return __hook__('os.normpath', p)


def isabs(p):
    return __hook__('os.isabs', p)
