class SAXException(Exception):
    def __init__(self, msg, exception=None):
        self._msg = msg
        self._exception = exception
        self.args = (msg,)

    def getMessage(self):
        return self._msg

    def __str__(self):
        return self._msg


class SAXParseException(SAXException):
    def __init__(self, msg, exception, locator):
        SAXException.__init__(self, msg, exception)
        self._locator = locator
        self._colnum = locator.getColumnNumber()
        self._linenum = locator.getLineNumber()

    def getColumnNumber(self):
        return self._colnum

    def getLineNumber(self):
        return self._linenum

    def getSystemId(self):
        return None


class SAXNotRecognizedException(SAXException):
    pass


class SAXNotSupportedException(SAXException):
    pass
