from xml.sax.handler import ContentHandler, ErrorHandler
from xml.sax import handler
from xml.sax import saxutils
from xml.sax import xmlreader
from xml.sax._exceptions import SAXException, SAXParseException, SAXNotRecognizedException, SAXNotSupportedException


class _Reader(object):
    """The SAX reader.  parse() delivers the abstract document of the
    scenario as SAX events (an event tree with unknown leaves)."""
    def __init__(self):
        self._features = {}
        self._props = {}
        self._handler = None

    def setFeature(self, name, state):
        __event__('sax.setFeature', name, state)
        self._features[name] = state

    def getFeature(self, name):
        return self._features.get(name, False)

    def setProperty(self, name, value):
        __event__('sax.setProperty', name, value)
        self._props[name] = value

    def getProperty(self, name):
        return self._props.get(name)

    def setContentHandler(self, h):
        self._handler = h

    def getContentHandler(self):
        return self._handler

    def setErrorHandler(self, h):
        self._err = h

    def setEntityResolver(self, h):
        __event__('sax.setEntityResolver', h)

    def setDTDHandler(self, h):
        pass

    def getLineNumber(self):
        return __hook__('sax.lineno', self)

    def getColumnNumber(self):
        return __hook__('sax.colno', self)

    def parse(self, source):
        __event__('sax.parse', source, self._features)
        h = self._handler
        lex = self._props.get(handler.property_lexical_handler)
        __hook__('sax.parse', self, h, lex, source)


def make_parser(parser_list=()):
    return _Reader()
