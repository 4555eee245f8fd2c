class DOMException(Exception):
    pass


class NotFoundErr(DOMException):
    pass


class HierarchyRequestErr(DOMException):
    pass
