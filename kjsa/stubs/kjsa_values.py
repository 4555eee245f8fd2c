"""Kinds of values a template context can hold."""


class HtmlObj(object):
    def __init__(self, html, text):
        self.html = html
        self.text = text

    def __html__(self):
        return self.html

    def __str__(self):
        return self.text


class StrObj(object):
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


class Holder(object):
    pass


class Gettext(object):
    """a translation function that keeps what it was asked"""
    def __init__(self, left='[', right=']'):
        self.calls = []
        self.left = left
        self.right = right

    def __call__(self, s):
        self.calls.append(s)
        return self.left + s + self.right


class Source(object):
    """an iterator that tells when it is advanced"""
    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n = self.n + 1
        if __hook__('source.next', self.n) is None:
            raise StopIteration
        return self.n
