def randint(a, b):
    return __hook__('randint', a, b)


def randrange(a, b=None):
    return __hook__('randint', a, b)


def random():
    return __fresh__('random')


def choice(seq):
    return seq[__choose__(len(seq))]
