class chain(object):
    def __init__(self, *its):
        self._g = _chain(its)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._g)

    @classmethod
    def from_iterable(cls, its):
        r = chain()
        r._g = _chain(its)
        return r


def _chain(its):
    for it in its:
        for x in it:
            yield x


def islice(it, *args):
    start = 0
    stop = None
    if len(args) == 1:
        stop = args[0]
    else:
        start = args[0] or 0
        stop = args[1]
    step = (args[2] if len(args) > 2 else 1) or 1
    i = 0
    if stop is not None and i >= stop:
        return
    for x in it:
        if i >= start and (i - start) % step == 0:
            yield x
        i += 1
        if stop is not None and i >= stop:
            return


def count(start=0, step=1):
    n = start
    while True:
        yield n
        n = n + step


def repeat(x, n=None):
    if n is None:
        while True:
            yield x
    for _ in range(n):
        yield x


def takewhile(f, it):
    for x in it:
        if not f(x):
            return
        yield x


def dropwhile(f, it):
    drop = True
    for x in it:
        if drop and f(x):
            continue
        drop = False
        yield x


def starmap(f, it):
    for x in it:
        yield f(*x)


def zip_longest(a, b, fillvalue=None):
    ia = iter(a)
    ib = iter(b)
    end = object()
    while True:
        x = next(ia, end)
        y = next(ib, end)
        if x is end and y is end:
            return
        yield (fillvalue if x is end else x, fillvalue if y is end else y)


def tee(it, n=2):
    items = list(it)
    return tuple([iter(items) for _ in range(n)])


def groupby(it, key=None):
    cur = None
    group = None
    for x in it:
        k = key(x) if key is not None else x
        if group is not None and k == cur:
            group.append(x)
        else:
            if group is not None:
                yield cur, iter(group)
            cur = k
            group = [x]
    if group is not None:
        yield cur, iter(group)


def accumulate(it, func=None, initial=None):
    have = initial is not None
    acc = initial
    if have:
        yield acc
    for x in it:
        if not have:
            acc = x
            have = True
        elif func is None:
            acc = acc + x
        else:
            acc = func(acc, x)
        yield acc


def product(*its, repeat=1):
    pools = [list(i) for i in its] * repeat
    result = [()]
    for pool in pools:
        result = [r + (x,) for r in result for x in pool]
    return iter(result)


def compress(data, selectors):
    return (d for d, s in zip(data, selectors) if s)


def filterfalse(f, it):
    for x in it:
        if not (x if f is None else f(x)):
            yield x


def pairwise(it):
    it = iter(it)
    try:
        a = next(it)
    except StopIteration:
        return
    for b in it:
        yield a, b
        a = b


def cycle(it):
    items = list(it)
    while items:
        for x in items:
            yield x


def combinations(it, r):
    pool = list(it)
    if r == 0:
        yield ()
        return
    for i, x in enumerate(pool):
        for rest in combinations(pool[i + 1:], r - 1):
            yield (x,) + rest


def permutations(it, r=None):
    pool = list(it)
    if r is None:
        r = len(pool)
    if r == 0:
        yield ()
        return
    for i, x in enumerate(pool):
        for rest in permutations(pool[:i] + pool[i + 1:], r - 1):
            yield (x,) + rest
