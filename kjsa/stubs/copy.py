def copy(x):
    if isinstance(x, (list, set)):
        return x.copy()
    if isinstance(x, (str, int, float, tuple, bytes, bool)) or x is None:
        return x
    if hasattr(x, '__copy__'):
        return x.__copy__()
    if isinstance(x, dict):
        return x.copy()
    return __hook__('copy.copy', x)


def deepcopy(x, memo=None):
    if x is None or isinstance(x, (str, int, float, bytes, bool)) or callable(x):
        return x
    if isinstance(x, list):
        return [deepcopy(i) for i in x]
    if isinstance(x, tuple):
        return tuple([deepcopy(i) for i in x])
    if isinstance(x, set):
        return set([deepcopy(i) for i in x])
    if isinstance(x, dict):
        d = x.copy()
        for k in list(d):
            d[k] = deepcopy(d[k])
        return d
    return __hook__('copy.deepcopy', x)
