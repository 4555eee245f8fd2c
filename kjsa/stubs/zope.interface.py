def implementer(*interfaces):
    def deco(cls):
        return cls
    return deco


class Interface(object):
    pass
