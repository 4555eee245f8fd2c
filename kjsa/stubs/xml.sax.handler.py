feature_namespaces = "http://xml.org/sax/features/namespaces"
feature_namespace_prefixes = "http://xml.org/sax/features/namespace-prefixes"
feature_string_interning = "http://xml.org/sax/features/string-interning"
feature_validation = "http://xml.org/sax/features/validation"
feature_external_ges = "http://xml.org/sax/features/external-general-entities"
feature_external_pes = "http://xml.org/sax/features/external-parameter-entities"
property_lexical_handler = "http://xml.org/sax/properties/lexical-handler"
property_declaration_handler = "http://xml.org/sax/properties/declaration-handler"
property_dom_node = "http://xml.org/sax/properties/dom-node"
property_xml_string = "http://xml.org/sax/properties/xml-string"
property_encoding = "http://www.python.org/sax/properties/encoding"


class ErrorHandler(object):
    pass


class EntityResolver(object):
    pass


class DTDHandler(object):
    pass


class ContentHandler(object):
    def __init__(self):
        self._locator = None

    def setDocumentLocator(self, locator):
        self._locator = locator

    def startDocument(self):
        pass

    def endDocument(self):
        pass

    def startElement(self, name, attrs):
        pass

    def endElement(self, name):
        pass

    def characters(self, content):
        pass

    def ignorableWhitespace(self, whitespace):
        pass

    def processingInstruction(self, target, data):
        pass

    def skippedEntity(self, name):
        pass
