class BaseException(object):
    __cause__ = None
    __context__ = None
    __traceback__ = None

    def __init__(self, *args):
        self.args = args

    def __str__(self):
        if len(self.args) == 1:
            return str(self.args[0])
        if not self.args:
            return ''
        return str(self.args)

    def with_traceback(self, tb):
        return self


class Exception(BaseException):
    pass


class GeneratorExit(BaseException):
    pass


class KeyboardInterrupt(BaseException):
    pass


class SystemExit(BaseException):
    pass


class ArithmeticError(Exception):
    pass


class ZeroDivisionError(ArithmeticError):
    pass


class OverflowError(ArithmeticError):
    pass


class AssertionError(Exception):
    pass


class AttributeError(Exception):
    pass


class ImportError(Exception):
    pass


class ModuleNotFoundError(ImportError):
    pass


class LookupError(Exception):
    pass


class IndexError(LookupError):
    pass


class KeyError(LookupError):
    pass


class NameError(Exception):
    pass


class UnboundLocalError(NameError):
    pass


class OSError(Exception):
    pass


IOError = OSError
EnvironmentError = OSError


class FileNotFoundError(OSError):
    pass


class RuntimeError(Exception):
    pass


class NotImplementedError(RuntimeError):
    pass


class RecursionError(RuntimeError):
    pass


class StopIteration(Exception):
    def __init__(self, *args):
        self.args = args
        self.value = args[0] if args else None


class SyntaxError(Exception):
    msg = None
    lineno = None
    offset = None
    filename = None
    text = None


class IndentationError(SyntaxError):
    pass


class TabError(IndentationError):
    pass


class TypeError(Exception):
    pass


class ValueError(Exception):
    pass


class UnicodeError(ValueError):
    pass


class UnicodeDecodeError(UnicodeError):
    pass


class UnicodeEncodeError(UnicodeError):
    pass


class Warning(Exception):
    pass


class DeprecationWarning(Warning):
    pass


class UserWarning(Warning):
    pass


class MemoryError(Exception):
    pass
