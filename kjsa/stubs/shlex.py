def split(text, comments=False, posix=True):
    return __hook__('shlex.split', text)
