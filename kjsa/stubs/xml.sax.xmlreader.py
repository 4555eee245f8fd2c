class InputSource(object):
    def __init__(self, system_id=None):
        self._system_id = system_id
        self._public_id = None
        self._encoding = None
        self._bytefile = None
        self._charfile = None

    def setPublicId(self, v):
        self._public_id = v

    def setSystemId(self, v):
        self._system_id = v

    def getSystemId(self):
        return self._system_id

    def setEncoding(self, v):
        self._encoding = v

    def getEncoding(self):
        return self._encoding

    def setByteStream(self, v):
        self._bytefile = v

    def getByteStream(self):
        return self._bytefile

    def setCharacterStream(self, v):
        self._charfile = v

    def getCharacterStream(self):
        return self._charfile


class AttributesImpl(object):
    def __init__(self, attrs):
        self._attrs = attrs

    def items(self):
        return list(self._attrs.items())

    def keys(self):
        return list(self._attrs.keys())

    def values(self):
        return list(self._attrs.values())

    def getNames(self):
        return list(self._attrs.keys())

    def getValue(self, name):
        return self._attrs[name]

    def __getitem__(self, name):
        return self._attrs[name]

    def get(self, name, alternative=None):
        return self._attrs.get(name, alternative)

    def __contains__(self, name):
        return name in self._attrs

    def __len__(self):
        return len(self._attrs)
