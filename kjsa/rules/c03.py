"""C03 -- py:attrs renders a mapping, an iterable of pairs or None."""
from ..check import *
from .c02 import attr

RULE = ('each pair of py:attrs whose value is not None is rendered as one quoted, '
        'once-escaped attribute inside the start tag, after the static ones, '
        'sorted by name')
VARIANTS = ('frag',)
MIN = {'quick': 60}


def check(c):
    def shapes(cx, pairs):
        k = cx.pick('container', ('dict', 'list', 'tuple', 'iterator', 'items-object'))
        ps = [Tup([Const(n), v]) for n, v in pairs]
        if k == 'dict':
            return DictO({Const(n): v for n, v in pairs})
        if k == 'list':
            return ListO(ps)
        if k == 'tuple':
            return Tup(ps)
        if k == 'iterator':
            return cx.lab.ip.get_iter(ListO(ps))
        h = cx.lab.call(cx.lab.get('kjsa_values.Holder'))
        h.attrs['items'] = Native('items', lambda ip, a, kw: ListO(ps))
        return h

    def image(d):
        # markup stays, everything else is escaped once
        return d.text

    # any container, any kind of value
    def run(cx):
        cx.x = cx.dyn('x', KINDS + ('false',))
        return cx.xml(El('p', {'s': '1', 'py:attrs': 'm'}, Tx('t')),
                      m=shapes(cx, [('a', cx.x.value)]))

    def want(cx):
        a = [] if cx.x.none else attr('a', image(cx.x))
        return ['<p s="1"', *a, '>t</p>']
    c.case('container-and-kind', run, want, rule=RULE)

    # order and omission of several pairs
    def run(cx):
        cx.v = {n: cx.dyn(n, ('none', 'str')) for n in ('b', 'a', 'c')}
        return cx.xml(El('p', {'z': '1', 'py:attrs': 'm'}, Tx('t')),
                      m=shapes(cx, [(n, cx.v[n].value) for n in ('b', 'a', 'c')]))

    def want(cx):
        out = ['<p z="1"']
        for n in 'abc':
            if not cx.v[n].none:
                out += attr(n, image(cx.v[n]))
        return out + ['>t</p>']
    c.case('several-pairs', run, want, rule=RULE)

    # nothing to add
    for name, v in (('None', NONE), ('empty-dict', DictO()), ('empty-list', ListO())):
        for kids in ((), (Tx('t'),)):
            c.case('nothing/%s/%s' % (name, 'content' if kids else 'empty'),
                   lambda cx, v=v, kids=kids: cx.xml(
                       El('p', {'s': '1', 'py:attrs': 'm'}, *kids), m=v),
                   '<p s="1">t</p>' if kids else '<p s="1"/>', rule=RULE)

    # an arbitrary attribute name and value
    def run(cx):
        n = Sym('name', 'str', generic=True, nonempty=True)
        return cx.xml(El('p', {'py:attrs': 'm'}, Tx('t')),
                      m=DictO({n: Sym('x', 'str')}))
    c.case('any-name', run,
           ['<p ', Sym('name', 'str', generic=True, nonempty=True), '="', esc(Sym('x', 'str')),
            '">t</p>'], rule=RULE)

    # an expression, not a variable; a comprehension; a conditional
    for e, w in (("{'a': x, 'b': 1}", None), ("dict(a=x, b=1)", None),
                 ("[('a', x), ('b', 1)]", None), ("x and {'a': x, 'b': 1}", None),
                 ("{'a': x, 'b': 1} if True else None", None)):
        def run(cx, e=e):
            cx.x = cx.dyn('x', ('str',))
            return cx.xml(El('p', {'py:attrs': e}, Tx('t')),
                          x=Sym('x!', 'str', nonempty=True))
        c.case('expression/' + e, run,
               ['<p', *attr('a', esc(Sym('x!', 'str', nonempty=True))), ' b="1">t</p>'], rule=RULE)

    # stripped together with the tag; rendered when it is not
    def run(cx):
        cx.s = cx.pick('strip', (True, False))
        cx.x = cx.dyn('x', ('none', 'str', 'markup'))
        return cx.xml(El('p', {'py:strip': 's', 'k': '1', 'py:attrs': '{"a": x}'}, Tx('t')),
                      s=Const(cx.s), x=cx.x)

    def want(cx):
        if cx.s:
            return 't'
        a = [] if cx.x.none else attr('a', image(cx.x))
        return ['<p k="1"', *a, '>t</p>']
    c.case('stripped', run, want, rule=RULE)

    # two elements, nested and in a loop
    def run(cx):
        cx.x, cx.y = cx.dyn('x', ('none', 'str')), cx.dyn('y', ('none', 'str'))
        return cx.xml(El('p', {'py:attrs': '{"a": x}'},
                         El('q', {'py:attrs': '{"a": y}', 'py:for': 'i in (1, 2)'},
                            Tx('$i'))), x=cx.x, y=cx.y)

    def want(cx):
        a = lambda d: [] if d.none else attr('a', image(d))
        return ['<p', *a(cx.x), '><q', *a(cx.y), '>1</q><q', *a(cx.y), '>2</q></p>']
    c.case('nested', run, want, rule=RULE)

    for mode in ('html', 'html5'):
        def run(cx, mode=mode):
            cx.x = cx.dyn('x', ('none', 'str', 'obj', 'html'))
            return cx.xml(El('input', {'type': 'a', 'py:attrs': '{"v": x}'}),
                          x=cx.x, opts=dict(mode=Const(mode), is_fragment=TRUE))

        def want(cx):
            a = [] if cx.x.none else attr('v', image(cx.x))
            return ['<input type="a"', *a, '>']
        c.case('void/%s' % mode, run, want, rule=RULE)

    # together with other directives, at other places
    for key, mk, pre, post in (
            ('content', lambda m: El('p', {'s': '1', 'py:attrs': m, 'py:content': '5'}, Tx('old')),
             '<d><p s="1"', '>5</p></d>'),
            ('if', lambda m: El('p', {'s': '1', 'py:attrs': m, 'py:if': 'True'}, Tx('t')),
             '<d><p s="1"', '>t</p></d>'),
            ('with', lambda m: El('p', {'s': '1', 'py:attrs': m, 'py:with': 'q=1'}, Tx('$q')),
             '<d><p s="1"', '>1</p></d>'),
            ('with-own', lambda m: El('p', {'s': '1', 'py:attrs': 'q', 'py:with': 'q=' + m}, Tx('t')),
             '<d><p s="1"', '>t</p></d>'),
            ('for-own', lambda m: El('p', {'s': '1', 'py:attrs': 'q', 'py:for': 'q in (%s,)' % m},
                                     Tx('t')), '<d><p s="1"', '>t</p></d>'),
            ('block', lambda m: El('p', {'s': '1', 'py:attrs': m, 'py:block': 'k'}, Tx('t')),
             '<d><p s="1"', '>t</p></d>'),
            ('no-static', lambda m: El('p', {'py:attrs': m}, Tx('t')), '<d><p', '>t</p></d>'),
            ('many-static', lambda m: El('p', {'z': '1', 'y': '2', 'x': '3', 'py:attrs': m}, Tx('t')),
             '<d><p x="3" y="2" z="1"', '>t</p></d>'),
            ('dynamic-static', lambda m: El('p', {'z': '$s', 'y': 'a${s}b', 'py:attrs': m}, Tx('t')),
             '<d><p y="aSb" z="S"', '>t</p></d>'),
            ('static-none', lambda m: El('p', {'z': '${None}', 'py:attrs': m}, Tx('t')),
             '<d><p', '>t</p></d>'),
            ('comment', lambda m: El('p', {'s': '1', 'py:attrs': m}, Cm('c')),
             '<d><p s="1"', '><!-- c --></p></d>'),
            ('child', lambda m: El('p', {'s': '1', 'py:attrs': m}, El('b', {'s': '2'})),
             '<d><p s="1"', '><b s="2"/></p></d>'),
            ('empty', lambda m: El('p', {'s': '1', 'py:attrs': m}), '<d><p s="1"', '/></d>'),
            ('function', lambda m: El('i', {'py:strip': 'True'}, El(
                'py:def', {'function': 'f(q)'}, El('p', {'py:attrs': 'q'}, Tx('t'))),
                Tx('${f(%s)}' % m)), '<d><p', '>t</p></d>')):
        def run(cx, mk=mk):
            cx.x = cx.dyn('x', ('none', 'str', 'markup', 'int'))
            cx.m = cx.pick('m', ('m', "{'b': 1, 'a': x}", "[('b', 1), ('a', x)]", "None"))
            return cx.xml(El('d', {}, mk(cx.m)), s=Const('S'), x=cx.x,
                          m=DictO({Const('b'): Const(1), Const('a'): cx.x.value}))

        def want(cx, pre=pre, post=post):
            if cx.m == 'None':
                return [pre, post]
            a = [] if cx.x.none else attr('a', image(cx.x))
            return [pre, *a, ' b="1"', post]
        c.case('placed/' + key, run, want, rule=RULE)

    # sorted by name, whatever the order of the mapping
    import itertools
    for perm in itertools.permutations(('a', 'ab', 'b', 'x-y')):
        c.case('order/' + ','.join(perm), lambda cx, perm=perm: cx.xml(
            El('p', {'py:attrs': 'm'}, Tx('t')), m=shapes(cx, [(n, Const('<' + n)) for n in perm])),
            '<p a="&lt;a" ab="&lt;ab" b="&lt;b" x-y="&lt;x-y">t</p>', rule=RULE)

    # every special character
    for v, img in (('&', '&amp;'), ('<', '&lt;'), ('>', '&gt;'), ('"', '&quot;'), ("'", "'"),
                   ('&amp;', '&amp;amp;'), ('\n', '\n'), ('${x}', '${x}'), ('%s', '%s'), ('', ''),
                   ('\\', '\\'), ('\u00e9', '\u00e9'), (']]>', ']]&gt;')):
        c.case('char/%r' % v, lambda cx, v=v: cx.xml(
            El('p', {'py:attrs': 'm'}, Tx('t')), m=shapes(cx, [('a', Const(v)), ('b', Const(v))])),
            '<p a="%s" b="%s">t</p>' % (img, img), rule=RULE)
